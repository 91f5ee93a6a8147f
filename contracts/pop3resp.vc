@unit pop3resp
@use strings streams
@weakinput
@exc operation_timed_out
@rlimit 40
@obj Tmo
@obj Trc
@type .*timeoutHandler.* = stru:Tmo
@type .*tracer.* = stru:Trc
@type .*socket>? ?[&*]? ?(const)? ?&? = stru:Sock
@method vmime::net::timeoutHandler::resetTimeOut = tmo_reset void mut
@method vmime::net::timeoutHandler::isTimeOut = tmo_is bool mut
@method vmime::net::timeoutHandler::handleTimeOut = tmo_handle bool mut
@method vmime::net::tracer::traceReceive = trc_receive void mut drop
@method vmime::net::tracer::traceReceiveBytes = trc_receive void mut drop drop
@method vmime::net::socket::receive = sock_receive void mut mut
@method vmime::net::socket::waitForRead = sock_wait void mut
@method vmime::net::socket::waitForWrite = sock_wait void mut
@method vmime::net::socket::getStatus = sock_status u32 ref
@obj Conn
@obj Prog
@type .*progressListener.* = stru:Prog
@type .*inputStreamSocketAdapter = stru:SkIn
@type .*stopSequenceFilteredInputStream ?<5> = stru:Sf5
@type .*stopSequenceFilteredInputStream ?<3> = stru:Sf3
@type .*dotFilteredInputStream = stru:DotF
@ctor SkIn 1 = mk_skin ref
@ctor Sf5 2 = mk_sf5 ref ref
@ctor Sf3 2 = mk_sf3 ref ref
@ctor DotF 1 = mk_dotf ref
@method vmime::utility::progressListener::start = pr_start void mut val
@method vmime::utility::progressListener::stop = pr_stop void mut val
@method vmime::utility::progressListener::progress = pr_progress void mut val val
@obj Sock
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::net::pop3::)?POP3Connection> ?&? = stru:Conn
@type (const )?(vmime::net::pop3::)?POP3Connection.* = stru:Conn
@method vmime::net::pop3::POP3Connection::getSocket = cn_sock stru:Sock ref
@method vmime::net::pop3::POP3Connection::getTimeoutHandler = cn_tmo stru:Tmo ref
@method vmime::net::pop3::POP3Connection::getTracer = cn_trc stru:Trc ref
@struct vmime::net::pop3::POP3Response as Resp
@source src/vmime/net/pop3/POP3Response.cpp
@include seqbook.rs
@include dotinspec.rs
@rust
#[verifier::external_body] pub struct Sock { x: u8 }
#[verifier::external_body] pub struct Tmo { x: u8 }
#[verifier::external_body] pub struct Trc { x: u8 }
impl Sock { pub uninterp spec fn rest(&self) -> Seq<u8>; }      // every byte the peer will ever send from here on
#[verifier::external_body] pub struct Conn { x: u8 }
impl Conn { pub uninterp spec fn rest(&self) -> Seq<u8>; }      // what will come from the connection's socket
#[verifier::external_body] pub fn cn_sock(c: &Conn) -> (r: Sock) ensures r.rest() == c.rest() { unimplemented!() }
#[verifier::external_body] pub fn cn_tmo(c: &Conn) -> (r: Tmo) { unimplemented!() }
#[verifier::external_body] pub fn cn_trc(c: &Conn) -> (r: Trc) { unimplemented!() }
#[verifier::external_body] pub struct Prog { x: u8 }
impl Prog { pub uninterp spec fn set(&self) -> bool; }
#[verifier::external_body] pub fn Prog_isset(x: &Prog) -> (r: bool) ensures r == x.set() { unimplemented!() }
#[verifier::external_body] pub fn pr_start(x: &mut Prog, n: usize) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn pr_stop(x: &mut Prog, n: usize) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn pr_progress(x: &mut Prog, n: usize, m: usize) requires old(x).set() ensures final(x).set() { unimplemented!() }
pub struct SkIn { pub d: Ghost<Seq<u8>> }
pub struct Sf5 { pub d: Ghost<Seq<u8>> }
pub struct Sf3 { pub d: Ghost<Seq<u8>> }
pub struct DotF { pub d: Ghost<Seq<u8>> }
// what the filters deliver, as their own contracts say (C07): the text before the stop sequence, the doubled dots removed
pub open spec fn focc(d: Seq<u8>, t: Seq<u8>, p: int) -> bool { occurs_at(d, t, p) && forall|k: int| 0 <= k < p ==> !#[trigger] occurs_at(d, t, k) }
pub open spec fn before(d: Seq<u8>, t: Seq<u8>) -> Seq<u8> { if exists|p: int| focc(d, t, p) { d.take(choose|p: int| focc(d, t, p)) } else { d } }
pub open spec fn z0() -> IS { IS { p2: 0, p1: 0 } }
#[verifier::external_body] pub fn mk_skin(s: &Sock) -> (r: SkIn) ensures r.d@ == s.rest() { unimplemented!() }
#[verifier::external_body] pub fn mk_sf5(s: &SkIn, q: &Vec<u8>) -> (r: Sf5) requires q@ == t5() ensures r.d@ == before(s.d@, t5()) { unimplemented!() }
#[verifier::external_body] pub fn mk_sf3(s: &Sf5, q: &Vec<u8>) -> (r: Sf3) requires q@ == t3() ensures r.d@ == before(s.d@, t3()) { unimplemented!() }
#[verifier::external_body] pub fn mk_dotf(s: &Sf3) -> (r: DotF) ensures r.d@ == i_out(z0(), s.d@) { unimplemented!() }
#[verifier::external_body] pub fn clone_DotF(s: &DotF) -> (r: InStream) ensures r.wf(), r.data() == s.d@, r.pos() == 0 { unimplemented!() }
pub open spec fn large(rest: Seq<u8>) -> Seq<u8> { i_out(z0(), before(before(rest, t5()), t3())) }
impl Tmo { pub uninterp spec fn set(&self) -> bool; }
impl Trc { pub uninterp spec fn set(&self) -> bool; }
#[verifier::external_body] pub fn Tmo_isset(x: &Tmo) -> (r: bool) ensures r == x.set() { unimplemented!() }
#[verifier::external_body] pub fn Trc_isset(x: &Trc) -> (r: bool) ensures r == x.set() { unimplemented!() }
#[verifier::external_body] pub fn tmo_reset(x: &mut Tmo) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn tmo_is(x: &mut Tmo) -> (r: bool) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn tmo_handle(x: &mut Tmo) -> (r: bool) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn trc_receive(x: &mut Trc) requires old(x).set() ensures final(x).set() { unimplemented!() }
// a socket delivers what was sent, in order, cut anywhere, or nothing yet
#[verifier::external_body] pub fn sock_receive(s: &mut Sock, b: &mut Vec<u8>) ensures old(s).rest() == final(b)@ + final(s).rest() { unimplemented!() }
#[verifier::external_body] pub fn sock_wait(s: &mut Sock) ensures final(s).rest() == old(s).rest() { unimplemented!() }
#[verifier::external_body] pub fn sock_status(s: &Sock) -> (r: u32) { unimplemented!() }
#[verifier::external_body] pub fn clone_Sock(m: &Sock) -> (r: Sock) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Tmo(m: &Tmo) -> (r: Tmo) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Trc(m: &Trc) -> (r: Trc) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Prog(m: &Prog) -> (r: Prog) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Resp(m: &Resp) -> (r: Resp) ensures r == *m { unimplemented!() }
pub open spec fn ends(s: Seq<u8>, t: Seq<u8>) -> bool { s.len() >= t.len() && s.skip(s.len() - t.len()) =~= t }
pub open spec fn cut(s: Seq<u8>, n: int) -> Seq<u8> { s.take(s.len() - n) }
pub open spec fn t5() -> Seq<u8> { seq![13u8, 10u8, 46u8, 13u8, 10u8] }
pub open spec fn t3() -> Seq<u8> { seq![10u8, 46u8, 10u8] }
pub open spec fn t2() -> Seq<u8> { seq![13u8, 10u8] }
pub open spec fn t1() -> Seq<u8> { seq![10u8] }
pub open spec fn tdone(r: Seq<u8>, m: bool) -> bool { if m { ends(r, t5()) || ends(r, t3()) } else { ends(r, t2()) || ends(r, t1()) } }
pub open spec fn tstrip(r: Seq<u8>, m: bool) -> Seq<u8> { if m { if ends(r, t5()) { cut(r, 5) } else { cut(r, 3) } } else { if ends(r, t2()) { cut(r, 2) } else { cut(r, 1) } } }
// a complete response: its terminator is there, or it is a one-line error
pub open spec fn err4(r: Seq<u8>) -> bool { r.len() >= 4 && r[0] == 45 }
pub open spec fn pdone(r: Seq<u8>, m: bool) -> bool { tdone(r, m) || (m && err4(r) && tdone(r, false)) }
pub open spec fn pstrip(r: Seq<u8>, m: bool) -> Seq<u8> { if tdone(r, m) { tstrip(r, m) } else { tstrip(r, false) } }
// the doubled dots at the start of lines, removed
pub open spec fn at3(s: Seq<u8>, k: int) -> bool { 0 <= k && k + 3 <= s.len() && s[k] == 10 && s[k + 1] == 46 && s[k + 2] == 46 }
#[verifier::opaque]
pub open spec fn un(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if at3(s, 0) { seq![10u8, 46u8] + un(s.skip(3)) } else { seq![s[0]] + un(s.skip(1)) }
}
#[verifier::opaque]
pub open spec fn stuff(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.len() >= 2 && s[0] == 10 && s[1] == 46 { seq![10u8, 46u8, 46u8] + stuff(s.skip(2)) } else { seq![s[0]] + stuff(s.skip(1)) }
}
pub proof fn lemma_un_skip(w: Seq<u8>, k: int) requires 0 <= k <= w.len(), forall|j: int| 0 <= j < k ==> !#[trigger] at3(w, j)
    ensures un(w) == w.take(k) + un(w.skip(k)) decreases k
{
    if k == 0 { assert(w.take(0) + un(w.skip(0)) =~= un(w)) by { assert(w.skip(0) =~= w); } }
    else {
        assert(!at3(w, 0)); let x = w.skip(1);
        assert forall|j: int| 0 <= j < k - 1 implies !#[trigger] at3(x, j) by { assert(!at3(w, j + 1)); }
        lemma_un_skip(x, k - 1);
        reveal(un);
        assert(un(w) == seq![w[0]] + un(x)); assert(x.skip(k - 1) =~= w.skip(k));
        assert(w.take(k) + un(w.skip(k)) =~= seq![w[0]] + (x.take(k - 1) + un(w.skip(k))));
    }
}
pub proof fn lemma_un_none(w: Seq<u8>) requires forall|j: int| 0 <= j < w.len() ==> !#[trigger] at3(w, j) ensures un(w) == w
{ lemma_un_skip(w, w.len() as int); reveal(un); assert(w.take(w.len() as int) + un(w.skip(w.len() as int)) =~= w); }
pub proof fn lemma_un_step(w: Seq<u8>, k: int) requires 0 <= k, at3(w, k), forall|j: int| 0 <= j < k ==> !#[trigger] at3(w, j)
    ensures un(w) == w.take(k + 2) + un(w.skip(k + 3))
{
    lemma_un_skip(w, k); let x = w.skip(k); assert(at3(x, 0)); assert(x.skip(3) =~= w.skip(k + 3));
    assert(un(x) == seq![10u8, 46u8] + un(w.skip(k + 3))) by { reveal(un); }
    assert(w.take(k) + (seq![10u8, 46u8] + un(w.skip(k + 3))) =~= w.take(k + 2) + un(w.skip(k + 3)));
}
pub proof fn lemma_un_stuff(s: Seq<u8>) ensures un(stuff(s)) == s, s.len() > 0 ==> stuff(s).len() > 0 && stuff(s)[0] == s[0], s.len() == 0 ==> stuff(s).len() == 0 decreases s.len()
{
    if s.len() == 0 { reveal(un); reveal(stuff); assert(un(stuff(s)) =~= s); }
    else if s.len() >= 2 && s[0] == 10 && s[1] == 46 {
        lemma_un_stuff(s.skip(2)); let t = stuff(s); reveal(stuff); assert(t == seq![10u8, 46u8, 46u8] + stuff(s.skip(2)));
        assert(at3(t, 0)); assert(t.skip(3) =~= stuff(s.skip(2))); reveal(un); assert(un(t) =~= s);
    } else {
        lemma_un_stuff(s.skip(1)); let t = stuff(s); reveal(stuff); assert(t == seq![s[0]] + stuff(s.skip(1)));
        if at3(t, 0) { assert(s.skip(1).len() > 0); assert(t[1] == stuff(s.skip(1))[0]); assert(s.skip(1)[0] == s[1]); }
        assert(t.skip(1) =~= stuff(s.skip(1))); reveal(un); assert(un(t) =~= s);
    }
}
// a dot at the start of a line of a stuffed text is followed by another
pub open spec fn dot2(t: Seq<u8>) -> bool { forall|p: int| #![trigger t[p]] 0 <= p && p + 1 < t.len() && t[p] == 10 && t[p + 1] == 46 ==> p + 2 < t.len() && t[p + 2] == 46 }
pub proof fn lemma_dot2(s: Seq<u8>) ensures dot2(stuff(s)) decreases s.len()
{
    reveal(stuff); let t = stuff(s);
    if s.len() == 0 { }
    else if s.len() >= 2 && s[0] == 10 && s[1] == 46 {
        let u = stuff(s.skip(2)); lemma_dot2(s.skip(2));
        assert forall|p: int| #![trigger t[p]] 0 <= p && p + 1 < t.len() && t[p] == 10 && t[p + 1] == 46 implies p + 2 < t.len() && t[p + 2] == 46 by { if p >= 3 { assert(u[p - 3] == t[p]); } }
    } else {
        let u = stuff(s.skip(1)); lemma_dot2(s.skip(1)); lemma_un_stuff(s.skip(1));
        assert forall|p: int| #![trigger t[p]] 0 <= p && p + 1 < t.len() && t[p] == 10 && t[p + 1] == 46 implies p + 2 < t.len() && t[p + 2] == 46 by {
            if p >= 1 { assert(u[p - 1] == t[p]); } else { assert(t[1] == u[0]); assert(s.skip(1).len() > 0); assert(s.skip(1)[0] == s[1]); }
        }
    }
}
// PROPERTY (C34): when the server sends message text M (not an error), doubled dots and terminator as RFC 1939 says,
// nothing shorter than the whole looks complete, and what the complete response stands for is M
pub proof fn property_multi(m: Seq<u8>, r: Seq<u8>)
    requires ({ let t = stuff(m) + t5(); r.len() <= t.len() && r == t.take(r.len() as int) }), m.len() > 0, m[0] != 45,
    ensures pdone(r, true) ==> r == stuff(m) + t5() && un(pstrip(r, true)) == m, r == stuff(m) + t5() ==> pdone(r, true)
{
    let u = stuff(m); let t = u + t5(); let n = r.len() as int; lemma_dot2(m); lemma_un_stuff(m);
    assert(t[0] == m[0]); if n > 0 { assert(r[0] == t[0]); }
    if n < t.len() {
        if ends(r, t5()) { let p = n - 4; assert(r.skip(n - 5)[1] == 10 && r.skip(n - 5)[2] == 46 && r.skip(n - 5)[3] == 13 && r.skip(n - 5)[0] == 13); assert(t[p] == 10 && t[p + 1] == 46 && t[p + 2] == 13);
            if p + 1 < u.len() { assert(u[p] == 10 && u[p + 1] == 46); assert(u[p + 2] == t[p + 2]); } else if p < u.len() { assert(t[p + 1] == t5()[0]); } else { assert(t[p] == t5()[p - u.len()]); assert(p == u.len() + 1); } }
        if ends(r, t3()) { let p = n - 3; assert(r.skip(n - 3)[0] == 10 && r.skip(n - 3)[1] == 46 && r.skip(n - 3)[2] == 10); assert(t[p] == 10 && t[p + 1] == 46 && t[p + 2] == 10);
            if p + 1 < u.len() { assert(u[p] == 10 && u[p + 1] == 46); assert(u[p + 2] == t[p + 2]); } else if p < u.len() { assert(t[p + 1] == t5()[0]); } else { assert(t[p] == t5()[p - u.len()]); assert(p == u.len() + 1); assert(t[p + 2] == t5()[3]); } }
    } else {
        assert(r =~= t); assert(r.skip(n - 5) =~= t5()); assert(cut(r, 5) =~= u);
    }
}
// PROPERTY (C34): a one-line response L CRLF is complete exactly when all of it is there, and stands for L
pub proof fn property_single(l: Seq<u8>, r: Seq<u8>, multi: bool)
    requires ({ let t = l + t2(); r.len() <= t.len() && r == t.take(r.len() as int) }), forall|k: int| 0 <= k < l.len() ==> #[trigger] l[k] != 10, multi ==> l.len() >= 2 && l[0] == 45,
    ensures pdone(r, multi) ==> r == l + t2() && un(pstrip(r, multi)) == l, r == l + t2() ==> pdone(r, multi)
{
    let t = l + t2(); let n = r.len() as int;
    assert forall|k: int| 0 <= k < l.len() implies !#[trigger] at3(l, k) by { assert(l[k] != 10); }
    lemma_un_none(l);
    if ends(r, t3()) { assert(r.skip(n - 3)[0] == 10); assert(t[n - 3] == 10); if n - 3 < l.len() { assert(l[n - 3] != 10); } }
    if ends(r, t5()) { assert(r.skip(n - 5)[1] == 10); assert(t[n - 4] == 10); if n - 4 < l.len() { assert(l[n - 4] != 10); } }
    if n < t.len() {
        if ends(r, t1()) { assert(r.skip(n - 1)[0] == 10); assert(t[n - 1] == 10); if n - 1 < l.len() { assert(l[n - 1] != 10); } }
        if ends(r, t2()) { assert(r.skip(n - 2)[1] == 10); assert(t[n - 1] == 10); if n - 1 < l.len() { assert(l[n - 1] != 10); } }
    } else { assert(r =~= t); assert(r.skip(n - 2) =~= t2()); assert(cut(r, 2) =~= l); if multi { assert(r[0] == l[0]); } }
}
pub open spec fn p3() -> Seq<u8> { seq![10u8, 46u8, 46u8] }
pub proof fn lemma_occ3(c: Seq<u8>, a: int, j: int) requires 0 <= a <= c.len(), 0 <= j ensures occurs_at(c, p3(), a + j) == at3(c.skip(a), j)
{ let w = c.skip(a); if at3(w, j) { assert(c.subrange(a + j, a + j + 3) =~= p3()); } if occurs_at(c, p3(), a + j) { let x = c.subrange(a + j, a + j + 3); assert(x[0] == 10 && x[1] == 46 && x[2] == 46); } }
pub open spec fn sp(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 13 }
pub open spec fn trim_of(s: Seq<u8>, t: Seq<u8>) -> bool {
    exists|b: int, e: int| 0 <= b <= e <= s.len() && #[trigger] s.subrange(b, e) == t && (forall|k: int| 0 <= k < b ==> sp(#[trigger] s[k])) && (forall|k: int| e <= k < s.len() ==> sp(#[trigger] s[k]))
        && (b < e ==> !sp(s[b]) && !sp(s[e - 1]))
}
pub open spec fn code_of(s: Seq<u8>) -> int {
    if s.len() >= 2 && s[0] == 43 && (s[1] == 32 || s[1] == 9) { 1 } else if s.len() >= 3 && s[0] == 43 && (s[1] == 79 || s[1] == 111) && (s[2] == 75 || s[2] == 107) { 0 } else { 2 }
}
pub open spec fn text_of(s: Seq<u8>, t: Seq<u8>) -> bool {
    if exists|k: int| 0 <= k < s.len() && (#[trigger] s[k] == 32 || s[k] == 9) { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k] == 32 || s[k] == 9) && (forall|j: int| 0 <= j < k ==> #[trigger] s[j] != 32 && s[j] != 9) && t == s.skip(k + 1) } else { t == s }
}
pub open spec fn lf_at(s: Seq<u8>, e: int) -> bool { 0 <= e < s.len() && s[e] == 10 && forall|k: int| 0 <= k < e ==> #[trigger] s[k] != 10 }
pub open spec fn has_lf(s: Seq<u8>) -> bool { exists|e: int| lf_at(s, e) }
pub open spec fn lf_of(s: Seq<u8>) -> int { choose|e: int| lf_at(s, e) }
@fn vmime::net::pop3::POP3Response::checkOneTerminator as p_one
@requires
    term.len() < 100, old(buffer).len() < 0x1000_0000_0000_0000
@ensures
    res == ends(old(buffer)@, term@), final(buffer)@ == (if res { cut(old(buffer)@, term.len() as int) } else { old(buffer)@ }),
@hint start
    proof { let b = buffer@; let n = b.len() - term.len(); if n >= 0 { assert(b.skip(n) =~= b.subrange(n, b.len() as int)); assert(term@ =~= term@.subrange(0, term.len() as int)); } }
@fn vmime::net::pop3::POP3Response::checkTerminator as p_term
@requires
    old(buffer).len() < 0x1000_0000_0000_0000
@ensures
    res == tdone(old(buffer)@, multiLine), final(buffer)@ == (if res { tstrip(old(buffer)@, multiLine) } else { old(buffer)@ }),
@fn vmime::net::pop3::POP3Response::stripResponseCode as p_strip
@requires
    buffer.len() < 0x1000_0000_0000_0000
@ensures
    text_of(buffer@, final(result)@)
@fn vmime::net::pop3::POP3Response::getResponseCode as p_code
@ensures
    res == code_of(buffer@)
@fn vmime::net::pop3::POP3Response::stripFirstLine as p_first
@outptr firstLine
@requires
    buffer.len() < 0x1000_0000_0000_0000
@ensures
    res == has_lf(buffer@),
    res ==> final(result)@ == buffer@.skip(lf_of(buffer@) + 1) && trim_of(buffer@.take(lf_of(buffer@)), final(firstLine)@),
    final(firstLine).len() <= buffer.len(),
    !res ==> final(result).len() == 0 && trim_of(buffer@, final(firstLine)@),
@hint before ~if .*!= 18446744073709551615usize~
    proof { if end != 18446744073709551615usize { let e = end as int; assert(lf_at(buffer@, e)); let f = lf_of(buffer@); assert(lf_at(buffer@, f)); if e < f { assert(buffer@[e] != 10); } if f < e { assert(buffer@[f] != 10); } assert(buffer@.subrange(0, e) =~= buffer@.take(e)); } else if has_lf(buffer@) { assert(lf_at(buffer@, lf_of(buffer@))); } }
@fn vmime::net::pop3::POP3Response::readResponseImpl ~bool~ as p_read
@throws
@isolate
@requires
    old(this).m_socket.rest().len() < 0x1000_0000_0000_0000
@ensures
    res is Ok ==> ({ let s = old(this).m_socket.rest(); let n = s.len() - final(this).m_socket.rest().len(); let r = s.take(n);
        0 <= n <= s.len() && final(this).m_socket.rest() == s.skip(n) && pdone(r, multiLine) && final(buffer)@ == un(pstrip(r, multiLine)) && r + final(this).m_socket.rest() == s }),
    res is Ok ==> final(buffer).len() < 0x1000_0000_0000_0000, final(this).m_lines == old(this).m_lines,
@hint start
    let ghost s0 = this.m_socket.rest(); let ghost mut raw: Seq<u8> = Seq::empty(); let ghost mut b0: Seq<u8> = Seq::empty();
@loop 1 invariant
    this.m_lines == old(this).m_lines, buffer.len() <= raw.len(), raw.len() <= s0.len(), s0 == old(this).m_socket.rest(), s0.len() < 0x1000_0000_0000_0000, raw + this.m_socket.rest() == s0,
    !foundTerminator ==> buffer@ == raw,
    foundTerminator ==> pdone(raw, multiLine) && buffer@ == pstrip(raw, multiLine),
@hint loop 1 begin
    let ghost raw0 = raw; let ghost rr = this.m_socket.rest();
@hint after ~sock_receive~
    proof { raw = raw0 + receiveBuffer@; assert(raw + this.m_socket.rest() =~= raw0 + rr); }
@hint before ~continue~
    assert(raw =~= raw0);
@hint loop 2 init
    let ghost rend = this.m_socket.rest();
    proof { let n = s0.len() - rend.len(); assert(s0.take(n) =~= raw); assert(s0.skip(n) =~= rend); b0 = buffer@; assert(b0.skip(0) =~= b0); assert(b0.take(0) + un(b0) =~= un(b0)); }
@loop 2 xinvariant
    trans <= buffer.len(), buffer.len() < 0x1000_0000_0000_0000, un(b0) == buffer@.take(trans as int) + un(buffer@.skip(trans as int)),
@loop 2 decreases
    buffer.len() - trans
@loop 2 ensures
    buffer@ == un(b0), buffer.len() < 0x1000_0000_0000_0000,
@hint after ~str_find\(~
    let ghost c0 = buffer@; let ghost k0 = trans as int; let ghost d = buffer@.take(k0); let ghost w = buffer@.skip(k0);
@hint loop 2 exit
    proof { assert forall|j: int| 0 <= j < w.len() implies !#[trigger] at3(w, j) by { lemma_occ3(c0, k0, j); assert(!occurs_at(c0, p3(), k0 + j)); } lemma_un_none(w); assert(d + w =~= c0); }
@hint before ~str_erase~
    let ghost k = trans - k0;
    proof {
        assert forall|j: int| 0 <= j < k implies !#[trigger] at3(w, j) by { lemma_occ3(c0, k0, j); assert(!occurs_at(c0, p3(), k0 + j)); }
        lemma_occ3(c0, k0, k); assert(at3(w, k)); lemma_un_step(w, k);
    }
@hint loop 2 end
    proof {
        let z = trans + 2;
        assert(buffer@.take(z) =~= d + w.take(k + 2));
        assert(buffer@.skip(z) =~= w.skip(k + 3));
        assert(buffer@.take(z) + un(buffer@.skip(z)) =~= d + un(w));
    }
@fn vmime::net::pop3::POP3Response::POP3Response as mk_resp
@ensures
    res.m_socket == *sok, res.m_lines.len() == 0,
@fn vmime::net::pop3::POP3Response::isSuccess as r_ok
@ensures
    res == (this.m_code == 0)
@fn vmime::net::pop3::POP3Response::getCode as r_code
@ensures
    res == this.m_code
@fn vmime::net::pop3::POP3Response::getFirstLine as r_first
@ensures
    res@ == this.m_firstLine@
@fn vmime::net::pop3::POP3Response::getText as r_text
@ensures
    res@ == this.m_text@
@fn vmime::net::pop3::POP3Response::getLineAt as r_line
@requires
    pos < this.m_lines.len()
@ensures
    res@ == this.m_lines[pos as int]@
@fn vmime::net::pop3::POP3Response::getLineCount as r_count
@ensures
    res == this.m_lines.len()
@fn vmime::net::pop3::POP3Response::readResponse as p_resp
@throws
@requires
    conn.rest().len() < 0x1000_0000_0000_0000
@ensures
    res matches Ok(r) ==> rd(conn, r.m_socket, false) && r.m_firstLine@ == rtext(conn, r.m_socket, false) && r.m_code == code_of(r.m_firstLine@) && text_of(r.m_firstLine@, r.m_text@) && r.m_lines.len() == 0,
@fn vmime::net::pop3::POP3Response::readMultilineResponse as p_multi
@throws
@requires
    conn.rest().len() < 0x1000_0000_0000_0000
@ensures
    res matches Ok(r) ==> rd(conn, r.m_socket, true) && ({ let t = rtext(conn, r.m_socket, true);
        r.m_code == code_of(r.m_firstLine@) && text_of(r.m_firstLine@, r.m_text@) && (if has_lf(t) { trim_of(t.take(lf_of(t)), r.m_firstLine@) && lines_of(r.m_lines@, t.skip(lf_of(t) + 1)) } else { trim_of(t, r.m_firstLine@) && r.m_lines.len() == 0 }) }),
@hint before ~let mut line: Vec~
    let ghost q0 = iss@; let ghost mut done: Seq<Seq<u8>> = Seq::empty();
    proof { assert(done + lines(q0) =~= lines(q0)); lemma_lines(q0); }
@loop 1 invariant
    lines(q0) == done + lines(iss@), trims(resp.m_lines@, done),
@loop 1 ensures
    done == lines(q0), trims(resp.m_lines@, done),
@loop 1 decreases
    iss.len()
@hint loop 1 head
    let ghost i0 = iss@; let ghost l0 = resp.m_lines@;
@hint before ~su_trim~
    let ghost pc = line@;
    proof { lemma_lines(i0); let d2 = done.push(pc);
        assert(lines(i0) =~= seq![pc] + lines(iss@)) by {
            if has_lf(i0) { let f = lf_of(i0); assert(lf_at(i0, f)); let e = choose|e: int| #[trigger] del_at(i0, 10u8, e) && pc == i0.take(e) && iss@ == i0.skip(e + 1); if e < f { assert(i0[e] != 10); } if f < e { assert(i0[f] != 10); } }
            else { assert forall|e: int| !#[trigger] del_at(i0, 10u8, e) by { if del_at(i0, 10u8, e) { assert(lf_at(i0, e)); } } assert(iss@ =~= Seq::empty()); lemma_lines(iss@); }
        }
        assert(done + lines(i0) =~= d2 + lines(iss@)); done = d2; }
@hint after ~m_lines.push~
    proof { assert(resp.m_lines@.len() == l0.len() + 1); }
@hint loop 1 exit
    proof { lemma_lines(i0); assert(done =~= lines(q0)); }
@rust
#[verifier::opaque]
pub open spec fn lines(s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if has_lf(s) && 0 <= lf_of(s) < s.len() { seq![s.take(lf_of(s))] + lines(s.skip(lf_of(s) + 1)) } else { seq![s] }
}
pub proof fn lemma_lines(s: Seq<u8>) ensures lines(s) == (if s.len() == 0 { Seq::empty() } else if has_lf(s) { seq![s.take(lf_of(s))] + lines(s.skip(lf_of(s) + 1)) } else { seq![s] })
{ reveal(lines); if has_lf(s) { assert(lf_at(s, lf_of(s))); } }
pub open spec fn trims(v: Seq<Vec<u8>>, d: Seq<Seq<u8>>) -> bool { v.len() == d.len() && forall|k: int| 0 <= k < d.len() ==> trim_of(#[trigger] d[k], v[k]@) }
pub open spec fn lines_of(v: Seq<Vec<u8>>, s: Seq<u8>) -> bool { trims(v, lines(s)) }
// what was taken from the connection is one complete response
pub open spec fn taken(c: &Conn, s: Sock) -> Seq<u8> { c.rest().take(c.rest().len() - s.rest().len()) }
pub open spec fn rd(c: &Conn, s: Sock, multi: bool) -> bool { c.rest() == taken(c, s) + s.rest() && pdone(taken(c, s), multi) }
pub open spec fn rtext(c: &Conn, s: Sock, multi: bool) -> Seq<u8> { un(pstrip(taken(c, s), multi)) }
@fn vmime::net::pop3::POP3Response::readResponseImpl ~outputStream~ as p_large
@throws
@isolate
@requires
    old(this).m_socket.rest().len() < 0x1000_0000_0000_0000, old(firstLine).len() < 0x1000_0000_0000_0000,
@ensures
    res is Ok ==> large_ok(old(this).m_socket.rest(), final(firstLine)@, old(os).data(), final(os).data()), final(this).m_lines == old(this).m_lines, final(firstLine).len() < 0x1000_0000_0000_0000,
@hint start
    let ghost o0 = os.data(); let ghost rest0 = this.m_socket.rest(); let ghost D = large(rest0);
    proof { assert(D.take(0) =~= Seq::empty()); assert(!has_lf(D.take(0))); }
@loop 1 invariant
    firstLine.len() < 0x1000_0000_0000_0000, D == large(rest0), rest0 == old(this).m_socket.rest(), o0 == old(os).data(), this.m_lines == old(this).m_lines,
    is_.wf(), is_.data() == D, large_st(D, is_.pos(), codeDone, temp@, firstLine@, o0, os.data()),
@loop 1 ensures
    is_.pos() == D.len(),
@hint loop 1 head
    let ghost p0 = is_.pos(); let ghost tm0 = temp@; let ghost od = os.data();
@hint after ~let mut read~
    let ghost ch = buffer@.subrange(0, read as int);
    proof { assert(ch =~= D.subrange(p0, p0 + read)); assert(D.take(p0) + ch =~= D.take(p0 + read)); }
@hint before ~p_first~
    proof { assert(temp@ =~= D.take(p0 + read)); lemma_pre(D, p0 + read); }
@hint after ~os.write\(&responseD~
    proof { let f = lf_of(D); assert(responseData@.subrange(0, responseData.len() as int) =~= D.subrange(f + 1, p0 + read)); assert(D.take(p0 + read).take(f) =~= D.take(f)); }
@hint after ~os.write\(&buffer~
    proof { let f = lf_of(D); assert(D.subrange(f + 1, p0) + ch =~= D.subrange(f + 1, p0 + read)); assert((o0 + D.subrange(f + 1, p0)) + ch =~= o0 + (D.subrange(f + 1, p0) + ch)); }
@hint before `return`
    proof { lemma_pre(D, D.len() as int); assert(D.take(D.len() as int) =~= D); if has_lf(D) { assert(D.subrange(lf_of(D) + 1, D.len() as int) =~= D.skip(lf_of(D) + 1)); } }
@rust
pub open spec fn large_st(d: Seq<u8>, p: int, done: bool, temp: Seq<u8>, fl: Seq<u8>, o0: Seq<u8>, o: Seq<u8>) -> bool {
    if done { has_lf(d) && lf_of(d) + 1 <= p && o == o0 + d.subrange(lf_of(d) + 1, p) && trim_of(d.take(lf_of(d)), fl) && code_of(fl) == 0 }
    else { o == o0 && temp == d.take(p) && !has_lf(d.take(p)) }
}
pub proof fn lemma_stuff_push(a: Seq<u8>, c: u8)
    ensures stuff(a.push(c)) == (if c == 46 && a.len() >= 1 && a.last() == 10 { stuff(a) + seq![46u8, 46u8] } else { stuff(a).push(c) }) decreases a.len()
{
    let w = a.push(c);
    reveal_with_fuel(stuff, 3);
    if a.len() == 0 { assert(w.skip(1) =~= Seq::empty()); assert(stuff(w) =~= stuff(a).push(c)); }
    else if a[0] == 10 && w[1] == 46 {
        if a.len() == 1 { assert(w.skip(2) =~= Seq::empty()); assert(a.skip(1) =~= Seq::empty()); assert(stuff(w) =~= seq![10u8, 46u8, 46u8]); assert(stuff(a) =~= seq![10u8]); assert(stuff(a) + seq![46u8, 46u8] =~= stuff(w)); }
        else {
            let b = a.skip(2); lemma_stuff_push(b, c); assert(w.skip(2) =~= b.push(c));
            if b.len() > 0 { assert(b.last() == a.last()); } else { assert(a.last() == 46); }
            assert(stuff(w) =~= seq![10u8, 46u8, 46u8] + stuff(b.push(c)));
            assert(stuff(a) =~= seq![10u8, 46u8, 46u8] + stuff(b));
            assert((seq![10u8, 46u8, 46u8] + stuff(b)) + seq![46u8, 46u8] =~= seq![10u8, 46u8, 46u8] + (stuff(b) + seq![46u8, 46u8]));
            assert((seq![10u8, 46u8, 46u8] + stuff(b)).push(c) =~= seq![10u8, 46u8, 46u8] + stuff(b).push(c));
        }
    } else {
        let b = a.skip(1); lemma_stuff_push(b, c); assert(w.skip(1) =~= b.push(c));
        if b.len() > 0 { assert(b.last() == a.last()); }
        assert(stuff(w) =~= seq![a[0]] + stuff(b.push(c)));
        assert(stuff(a) =~= seq![a[0]] + stuff(b));
        assert((seq![a[0]] + stuff(b)) + seq![46u8, 46u8] =~= seq![a[0]] + (stuff(b) + seq![46u8, 46u8]));
        assert((seq![a[0]] + stuff(b)).push(c) =~= seq![a[0]] + stuff(b).push(c));
    }
}
pub proof fn lemma_stuff_eq(w: Seq<u8>) ensures stuff(w) == pop_stuff(w) decreases w.len()
{
    if w.len() == 0 { reveal(stuff); assert(stuff(w) =~= e0()); }
    else { let a = w.drop_last(); lemma_stuff_eq(a); lemma_stuff_push(a, w.last()); assert(a.push(w.last()) =~= w); if a.len() > 0 { assert(a.last() == w[w.len() - 2]); } }
}
// PROPERTY (C34): a message sent with doubled dots and the terminator after it is retrieved whole and unchanged
pub proof fn property_retr(m: Seq<u8>, later: Seq<u8>) ensures large(stuff(m) + t5() + later) == m
{
    let u = stuff(m); let t = u + t5() + later; lemma_dot2(m); lemma_stuff_eq(m); property_unstuff(m); let n = u.len() as int;
    assert(t.take(n + 5) =~= u + t5());
    assert forall|p: int| 0 <= p < n implies !#[trigger] occurs_at(t, t5(), p) by { if occurs_at(t, t5(), p) { let x = t.subrange(p, p + 5); assert(x[1] == 10 && x[2] == 46 && x[3] == 13); assert(t[p + 1] == 10 && t[p + 2] == 46 && t[p + 3] == 13); lemma_nodot(u, t, p + 1); } }
    assert(t.subrange(n, n + 5) =~= t5()); assert(focc(t, t5(), n));
    let q = choose|p: int| focc(t, t5(), p); assert(focc(t, t5(), q)); if q < n { assert(!occurs_at(t, t5(), q)); } if n < q { assert(!occurs_at(t, t5(), n)); }
    assert(t.take(n) =~= u);
    assert forall|p: int| !#[trigger] occurs_at(u, t3(), p) by { if occurs_at(u, t3(), p) { let x = u.subrange(p, p + 3); assert(x[0] == 10 && x[1] == 46 && x[2] == 10); assert(u[p] == 10 && u[p + 1] == 46 && u[p + 2] == 10); } }
    if exists|p: int| focc(u, t3(), p) { let p = choose|p: int| focc(u, t3(), p); assert(focc(u, t3(), p)); }
}
proof fn lemma_nodot(u: Seq<u8>, t: Seq<u8>, p: int) requires dot2(u), t.len() >= u.len() + 5, t.take(u.len() as int + 5) == u + t5(), 1 <= p <= u.len(), p + 2 < t.len(), t[p] == 10, t[p + 1] == 46, t[p + 2] == 13
    ensures false
{
    let v = u + t5();
    assert(v[p] == t[p]); assert(v[p + 1] == t[p + 1]); assert(v[p + 2] == t[p + 2]);
    if p + 1 < u.len() { assert(u[p] == 10 && u[p + 1] == 46); } else if p < u.len() { assert(v[p + 1] == t5()[0]); } else { assert(v[p] == t5()[0]); }
}
pub open spec fn large_ok(rest: Seq<u8>, fl: Seq<u8>, o0: Seq<u8>, o: Seq<u8>) -> bool {
    let d = large(rest);
    if has_lf(d) { o == o0 + d.skip(lf_of(d) + 1) && trim_of(d.take(lf_of(d)), fl) && code_of(fl) == 0 } else { o == o0 }
}
pub proof fn lemma_pre(d: Seq<u8>, p: int) requires 0 <= p <= d.len()
    ensures has_lf(d.take(p)) ==> has_lf(d) && lf_of(d) == lf_of(d.take(p)) && 0 <= lf_of(d) < p && d[lf_of(d)] == 10
{
    let x = d.take(p);
    if has_lf(x) { let e = lf_of(x); assert(lf_at(x, e)); assert(lf_at(d, e)) by { assert forall|k: int| 0 <= k < e implies #[trigger] d[k] != 10 by { assert(x[k] != 10); } } let f = lf_of(d); assert(lf_at(d, f)); if e < f { assert(d[e] != 10); } if f < e { assert(d[f] != 10); } }
}
@fn vmime::net::pop3::POP3Response::readLargeResponse as p_largeresp
@throws
@requires
    conn.rest().len() < 0x1000_0000_0000_0000
@ensures
    res matches Ok(r) ==> r.m_code == code_of(r.m_firstLine@) && text_of(r.m_firstLine@, r.m_text@) && large_ok(conn.rest(), r.m_firstLine@, old(os).data(), final(os).data()),
@source src/vmime/utility/stringUtils.cpp
@fn vmime::utility::stringUtils::trim as su_trim
@ensures
    trim_of(str@, res@),
@loop 1 invariant
    0 <= b <= e, e == str.len(), forall|k: int| 0 <= k < b ==> sp(#[trigger] str@[k]),
@loop 1 ensures
    b < e ==> !sp(str@[b as int]),
@loop 1 decreases
    str.len() - b
@loop 2 invariant
    0 <= b <= e, e <= str.len(), forall|k: int| e <= k < str.len() ==> sp(#[trigger] str@[k]), b < e ==> !sp(str@[b as int]),
@loop 2 ensures
    b < e ==> !sp(str@[e - 1]),
@loop 2 decreases
    e - b
