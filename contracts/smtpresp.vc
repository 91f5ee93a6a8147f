@unit smtpresp
@use strings
@exc operation_timed_out
@rlimit 40
@obj Sock
@obj Tmo
@obj Trc
@type .*timeoutHandler.* = stru:Tmo
@type .*tracer.* = stru:Trc
@type .*socket>? ?[&*]? ?(const)? ?&? = stru:Sock
@method vmime::net::timeoutHandler::resetTimeOut = tmo_reset void mut
@method vmime::net::timeoutHandler::isTimeOut = tmo_is bool mut
@method vmime::net::timeoutHandler::handleTimeOut = tmo_handle bool mut
@method vmime::net::tracer::traceReceive = trc_receive void mut drop
@method vmime::net::socket::receive = sock_receive void mut mut
@method vmime::net::socket::waitForRead = sock_wait void mut
@struct vmime::net::smtp::SMTPResponse::state as RState
@struct vmime::net::smtp::SMTPResponse::enhancedStatusCode as Esc
@struct vmime::net::smtp::SMTPResponse::responseLine as RLine
@struct vmime::net::smtp::SMTPResponse as Resp
@ctor RState 0 = mk_rstate
@source src/vmime/net/smtp/SMTPResponse.cpp
@rust
#[verifier::external_body] pub struct Sock { x: u8 }
pub fn mk_rstate() -> (r: RState) ensures r.responseBuffer@.len() == 0 { RState { responseBuffer: Vec::new() } }
#[verifier::external_body] pub struct Tmo { x: u8 }
#[verifier::external_body] pub struct Trc { x: u8 }
impl Sock { pub uninterp spec fn rest(&self) -> Seq<u8>; }      // every byte the peer will ever send from here on
impl Tmo { pub uninterp spec fn set(&self) -> bool; }
impl Trc { pub uninterp spec fn set(&self) -> bool; }
#[verifier::external_body] pub fn Tmo_isset(x: &Tmo) -> (r: bool) ensures r == x.set() { unimplemented!() }
#[verifier::external_body] pub fn Trc_isset(x: &Trc) -> (r: bool) ensures r == x.set() { unimplemented!() }
#[verifier::external_body] pub fn tmo_reset(x: &mut Tmo) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn tmo_is(x: &mut Tmo) -> (r: bool) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn tmo_handle(x: &mut Tmo) -> (r: bool) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn trc_receive(x: &mut Trc) requires old(x).set() ensures final(x).set() { unimplemented!() }
// a socket delivers what was sent, in order, cut anywhere, or nothing yet
#[verifier::external_body] pub fn sock_receive(s: &mut Sock, b: &mut Vec<u8>) ensures old(s).rest() == final(b)@ + final(s).rest() { unimplemented!() }
#[verifier::external_body] pub fn sock_wait(s: &mut Sock) ensures final(s).rest() == old(s).rest() { unimplemented!() }
pub proof fn lemma_dr(s: Seq<u8>) ensures dig0(s) ==> digit_run(s) > 0 { reveal_with_fuel(digit_run, 2); if s.len() > 0 && 48 <= s[0] <= 57 { lemma_dr0(s.skip(1)); } }
pub proof fn lemma_dr0(s: Seq<u8>) ensures digit_run(s) >= 0 decreases s.len() { reveal_with_fuel(digit_run, 2); if s.len() > 0 && 48 <= s[0] <= 57 { lemma_dr0(s.skip(1)); } }
pub open spec fn esc0() -> Esc { Esc { klass: 0, subject: 0, detail: 0 } }
// number at the front of the text (RFC 3463: digits), and the text after it; a number that does not fit ends everything
pub open spec fn num(s: Seq<u8>) -> int { let v = dec_val(s.take(digit_run(s))) as int; if v <= 65535 { v } else { 65535 } }
pub open spec fn aft(s: Seq<u8>) -> Seq<u8> { if dec_val(s.take(digit_run(s))) <= 65535 { s.skip(digit_run(s)) } else { Seq::empty() } }
pub open spec fn dig0(s: Seq<u8>) -> bool { s.len() > 0 && 48 <= s[0] <= 57 }
pub open spec fn dot0(s: Seq<u8>) -> bool { s.len() > 0 && s[0] == 46 && dig0(s.skip(1)) }
pub open spec fn enh(s: Seq<u8>) -> Esc {
    if !dig0(s) || !dot0(aft(s)) { esc0() } else { let b = aft(s).skip(1); if !dot0(aft(b)) { esc0() } else { Esc { klass: num(s) as u16, subject: num(b) as u16, detail: num(aft(b).skip(1)) as u16 } } }
}
pub open spec fn sp(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 13 }
pub open spec fn trim_of(s: Seq<u8>, t: Seq<u8>) -> bool {
    exists|b: int, e: int| 0 <= b <= e <= s.len() && #[trigger] s.subrange(b, e) == t && (forall|k: int| 0 <= k < b ==> sp(#[trigger] s[k])) && (forall|k: int| e <= k < s.len() ==> sp(#[trigger] s[k]))
        && (b < e ==> !sp(s[b]) && !sp(s[e - 1]))
}
// ---- the response stream: lines end with LF or CRLF
pub open spec fn lf_at(s: Seq<u8>, e: int) -> bool { 0 <= e < s.len() && s[e] == 10 && forall|k: int| 0 <= k < e ==> #[trigger] s[k] != 10 }
pub open spec fn ln_end(s: Seq<u8>) -> int { choose|e: int| lf_at(s, e) }
pub open spec fn has_ln(s: Seq<u8>) -> bool { exists|e: int| lf_at(s, e) }
pub open spec fn ln_of(s: Seq<u8>) -> Seq<u8> { let e = ln_end(s); if e != 0 && s[e - 1] == 13 { s.take(e - 1) } else { s.take(e) } }
pub open spec fn ln_rest(s: Seq<u8>) -> Seq<u8> { s.skip(ln_end(s) + 1) }
pub open spec fn adv(s: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { s } else { ln_rest(adv(s, n - 1)) } }
pub open spec fn cont(l: Seq<u8>) -> bool { l.len() >= 4 && l[3] == 45 }
pub open spec fn code_of(l: Seq<u8>) -> int { if l.len() >= 3 { (sch(l[0]) - 48) * 100 + (sch(l[1]) - 48) * 10 + (sch(l[2]) - 48) } else { 0 } }
pub open spec fn sch(c: u8) -> int { if c < 128 { c as int } else { c - 256 } }
pub open spec fn line_is(r: RLine, l: Seq<u8>) -> bool { r.m_code == code_of(l) && (if l.len() > 4 { trim_of(l.skip(4), r.m_text@) } else { r.m_text@.len() == 0 }) && r.m_enhCode == enh(r.m_text@) }
pub open spec fn strm(t: &Resp) -> Seq<u8> { t.m_responseBuffer@ + t.m_socket.rest() }
pub proof fn lemma_lf(s: Seq<u8>, t: Seq<u8>, e: int) requires lf_at(s, e)
    ensures lf_at(s + t, e), ln_end(s + t) == e, has_ln(s + t)
{ let u = s + t; assert forall|k: int| 0 <= k < e implies #[trigger] u[k] != 10 by { assert(u[k] == s[k]); } assert(u[e] == s[e]); assert(lf_at(u, e));
  let f = ln_end(u); assert(lf_at(u, f)); if f < e { assert(u[f] != 10); } if e < f { assert(u[e] != 10); } }

@fn vmime::net::smtp::SMTPResponse::extractResponseCode as sr_code
@ensures
    res == code_of(response@)
@fn vmime::net::smtp::SMTPResponse::readResponseLine as sr_line
@isolate
@throws
@requires
    strm(old(this)).len() < 0x1000_0000_0000_0000,
@ensures
    res matches Ok(r) ==> has_ln(strm(old(this))) && r@ == ln_of(strm(old(this))) && strm(final(this)) == ln_rest(strm(old(this))) && strm(final(this)).len() <= strm(old(this)).len(),
    final(this).m_lines == old(this).m_lines,
@hint start
    let ghost s0 = strm(this); let ghost l0 = this.m_lines;
@loop 1 invariant
    currentBuffer@ + this.m_socket.rest() == s0, this.m_lines == l0, s0 == strm(old(this)), l0 == old(this).m_lines, s0.len() < 0x1000_0000_0000_0000,
@hint loop 1 begin
    let ghost c0 = currentBuffer@; let ghost r0 = this.m_socket.rest();
    assert(c0.len() <= s0.len());
@hint after ~let mut lineEnd~
    proof { if lineEnd != 18446744073709551615usize {
        assert(c0[lineEnd as int] == 10u8);
        assert forall|k: int| 0 <= k < lineEnd implies #[trigger] c0[k] != 10 by { }
        assert(lf_at(c0, lineEnd as int));
        lemma_lf(c0, r0, lineEnd as int);
    } }
@hint before ~return Ok~
    proof {
        assert(this.m_responseBuffer@ =~= c0.skip(lineEnd + 1));
        assert(c0.skip(lineEnd + 1) + r0 =~= (c0 + r0).skip(lineEnd + 1));
        assert(line@ =~= ln_of(s0)) by { assert(s0 == c0 + r0); if lineEnd != 0 { assert(s0[lineEnd - 1] == c0[lineEnd - 1]); } }
    }
@hint before ~continue~
    proof { assert(c0 + this.m_socket.rest() =~= c0 + (receiveBuffer@ + this.m_socket.rest())); }
@hint after ~str_append\(&mut currentB~
    proof { lemma_assoc3(c0, receiveBuffer@, this.m_socket.rest()); }

@fn vmime::net::smtp::SMTPResponse::responseLine::responseLine ~const int~ as mk_rline
@ensures
    res.m_code == code, res.m_text@ == text@, res.m_enhCode == *enhCode,
@fn vmime::net::smtp::SMTPResponse::getNextResponse as sr_next
@isolate
@throws
@requires
    strm(old(this)).len() < 0x1000_0000_0000_0000,
@ensures
    res matches Ok(r) ==> has_ln(strm(old(this))) && line_is(r, ln_of(strm(old(this)))) && strm(final(this)) == ln_rest(strm(old(this))) && strm(final(this)).len() <= strm(old(this)).len()
        && final(this).m_responseContinues == cont(ln_of(strm(old(this)))),
    final(this).m_lines == old(this).m_lines,
@rust
pub proof fn lemma_assoc3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }

@rust
#[verifier::external_body] pub fn clone_Esc(m: &Esc) -> (r: Esc) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Sock(m: &Sock) -> (r: Sock) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Tmo(m: &Tmo) -> (r: Tmo) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Trc(m: &Trc) -> (r: Trc) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_RLine(m: &RLine) -> (r: RLine) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_RState(m: &RState) -> (r: RState) ensures r == *m { unimplemented!() }
// the response is lines l[0..n) of the stream, the last one being the first that is not continued
pub open spec fn resp_is(v: Seq<RLine>, s: Seq<u8>, n: int) -> bool {
    &&& n >= 1 && v.len() == n
    &&& forall|k: int| 0 <= k < n ==> has_ln(#[trigger] adv(s, k)) && line_is(v[k], ln_of(adv(s, k))) && cont(ln_of(adv(s, k))) == (k < n - 1)
}
pub open spec fn same_code(v: Seq<RLine>) -> bool { forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).m_code == v[0].m_code }
pub open spec fn txt(v: Seq<RLine>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else if n == 1 { v[0].m_text@ } else { txt(v, n - 1).push(10u8) + v[n - 1].m_text@ } }
// PROPERTY (C33): what a response is does not depend on how its bytes were cut; two readings of the same bytes agree, and the text after it is untouched
pub proof fn property_resp_unique(v: Seq<RLine>, w: Seq<RLine>, s: Seq<u8>, n: int, m: int)
    requires resp_is(v, s, n), resp_is(w, s, m)
    ensures n == m, adv(s, n) == adv(s, m), forall|k: int| 0 <= k < n ==> (#[trigger] v[k]).m_code == w[k].m_code && v[k].m_text@ == w[k].m_text@ && v[k].m_enhCode == w[k].m_enhCode
{
    if n < m { let k = n - 1; assert(has_ln(adv(s, k))); assert(cont(ln_of(adv(s, k))) == (k < n - 1)); assert(cont(ln_of(adv(s, k))) == (k < m - 1)); }
    if m < n { let k = m - 1; assert(has_ln(adv(s, k))); assert(cont(ln_of(adv(s, k))) == (k < n - 1)); assert(cont(ln_of(adv(s, k))) == (k < m - 1)); }
    assert forall|k: int| 0 <= k < n implies (#[trigger] v[k]).m_code == w[k].m_code && v[k].m_text@ == w[k].m_text@ && v[k].m_enhCode == w[k].m_enhCode by {
        let l = ln_of(adv(s, k)); assert(has_ln(adv(s, k))); assert(line_is(v[k], l) && line_is(w[k], l));
        if l.len() > 4 { lemma_trim_det(l.skip(4), v[k].m_text@, w[k].m_text@); } else { assert(v[k].m_text@ =~= w[k].m_text@); }
    }
}
pub proof fn lemma_trim_det(s: Seq<u8>, t: Seq<u8>, u: Seq<u8>) requires trim_of(s, t), trim_of(s, u) ensures t == u
{
    let (b, e) = choose|b: int, e: int| 0 <= b <= e <= s.len() && #[trigger] s.subrange(b, e) == t && (forall|k: int| 0 <= k < b ==> sp(#[trigger] s[k])) && (forall|k: int| e <= k < s.len() ==> sp(#[trigger] s[k])) && (b < e ==> !sp(s[b]) && !sp(s[e - 1]));
    let (c, f) = choose|b: int, e: int| 0 <= b <= e <= s.len() && #[trigger] s.subrange(b, e) == u && (forall|k: int| 0 <= k < b ==> sp(#[trigger] s[k])) && (forall|k: int| e <= k < s.len() ==> sp(#[trigger] s[k])) && (b < e ==> !sp(s[b]) && !sp(s[e - 1]));
    if b < e {
        assert(!sp(s[b]) && !sp(s[e - 1]));
        if c == f { assert(sp(s[b])); }
        assert(!sp(s[c]) && !sp(s[f - 1]));
        assert(b == c && e == f);
    } else if c < f { assert(!sp(s[c])); }
    assert(t =~= u);
}
@fn vmime::net::smtp::SMTPResponse::readResponse ~void ()~ as sr_read
@isolate
@throws
@requires
    strm(old(this)).len() < 0x1000_0000_0000_0000, old(this).m_lines.len() == 0, !old(this).m_responseContinues,
@ensures
    res is Ok ==> resp_is(final(this).m_lines@, strm(old(this)), final(this).m_lines.len() as int) && strm(final(this)) == adv(strm(old(this)), final(this).m_lines.len() as int),
@hint start
    let ghost s0 = strm(this);
    proof { reveal_with_fuel(adv, 2); }
@loop 1 invariant
    s0.len() < 0x1000_0000_0000_0000, this.m_lines.len() >= 1, s0 == strm(old(this)), strm(this) == adv(s0, this.m_lines.len() as int), strm(this).len() <= s0.len(),
    forall|k: int| 0 <= k < this.m_lines.len() ==> has_ln(#[trigger] adv(s0, k)) && line_is(this.m_lines[k], ln_of(adv(s0, k))),
    forall|k: int| 0 <= k < this.m_lines.len() - 1 ==> cont(ln_of(#[trigger] adv(s0, k))),
    this.m_responseContinues == cont(ln_of(adv(s0, this.m_lines.len() - 1))),
@hint loop 1 end
    proof { reveal_with_fuel(adv, 2); }
@fn vmime::net::smtp::SMTPResponse::getCode as sr_getcode
@isolate
@requires
    this.m_lines.len() >= 1, this.m_lines.len() < 0x1_0000_0000
@ensures
    res == (if same_code(this.m_lines@) { this.m_lines[0].m_code as int } else { 0int })
@loop 1 invariant
    1 <= i <= this.m_lines.len(), this.m_lines.len() < 0x1_0000_0000, firstCode == this.m_lines[0].m_code, forall|k: int| 0 <= k < i ==> (#[trigger] this.m_lines[k]).m_code == firstCode,
@loop 1 decreases
    this.m_lines.len() - i
@fn vmime::net::smtp::SMTPResponse::getText as sr_gettext
@isolate
@requires
    this.m_lines.len() >= 1, this.m_lines.len() < 0x1_0000_0000
@ensures
    res@ == txt(this.m_lines@, this.m_lines.len() as int)
@loop 1 invariant
    1 <= i <= this.m_lines.len(), this.m_lines.len() < 0x1_0000_0000, text@ == txt(this.m_lines@, i as int),
@loop 1 decreases
    this.m_lines.len() - i
@fn vmime::net::smtp::SMTPResponse::getEnhancedCode as sr_getenh
@requires
    this.m_lines.len() >= 1
@ensures
    res == this.m_lines[this.m_lines.len() - 1].m_enhCode
@fn vmime::net::smtp::SMTPResponse::getLineAt as sr_lineat
@requires
    pos < this.m_lines.len()
@ensures
    res == this.m_lines[pos as int]
@fn vmime::net::smtp::SMTPResponse::getLastLine as sr_last
@requires
    this.m_lines.len() >= 1
@ensures
    res == this.m_lines[this.m_lines.len() - 1]
@fn vmime::net::smtp::SMTPResponse::getLineCount as sr_count
@ensures
    res == this.m_lines.len()
@fn vmime::net::smtp::SMTPResponse::getCurrentState as sr_state
@ensures
    res.responseBuffer@ == this.m_responseBuffer@
@fn vmime::net::smtp::SMTPResponse::responseLine::getCode as rl_code
@ensures
    res == this.m_code
@fn vmime::net::smtp::SMTPResponse::responseLine::getText as rl_text
@ensures
    res@ == this.m_text@
@fn vmime::net::smtp::SMTPResponse::responseLine::getEnhancedCode as rl_enh
@ensures
    res == this.m_enhCode
@fn vmime::net::smtp::SMTPResponse::SMTPResponse ~tracer~ as mk_resp
@ensures
    res.m_responseBuffer@ == st.responseBuffer@, res.m_lines.len() == 0, !res.m_responseContinues, res.m_socket == sok,
@fn vmime::net::smtp::SMTPResponse::enhancedStatusCode::enhancedStatusCode ~const enhancedStatusCode &~ as esc_copy
@ensures
    res == *enhCode
@fn vmime::net::smtp::SMTPResponse::enhancedStatusCode::enhancedStatusCode ~void ()~ as esc_new
@ensures
    res.klass == 0 && res.subject == 0 && res.detail == 0
@fn vmime::net::smtp::SMTPResponse::enhancedStatusCode::operator= as esc_assign
@ensures
    *final(this) == *other
@fn vmime::net::smtp::SMTPResponse::responseLine::responseLine ~const responseLine &~ as rl_copy
@ensures
    res.m_code == other.m_code, res.m_text@ == other.m_text@, res.m_enhCode == other.m_enhCode,
@fn vmime::net::smtp::SMTPResponse::responseLine::operator= as rl_assign
@ensures
    final(this).m_code == other.m_code, final(this).m_text@ == other.m_text@, final(this).m_enhCode == other.m_enhCode,
@fn vmime::net::smtp::SMTPResponse::extractEnhancedCode as sr_enh
@ensures
    res == enh(responseText@)
@hint start
    let ghost s0 = responseText@; let ghost b = aft(s0).skip(1); let ghost c = aft(b).skip(1);
    proof { lemma_dr(s0); lemma_dr(b); lemma_dr(c); }
@hint after ~let t\d+__: u16 = iss_read_u16~ #1
    assert(iss@ =~= aft(s0));
@hint after ~let t\d+__: u16 = iss_read_u16~ #2
    assert(iss@ =~= aft(b));
@source src/vmime/utility/stringUtils.cpp
@fn vmime::utility::stringUtils::trim as su_trim
@ensures
    trim_of(str@, res@),
@loop 1 invariant
    0 <= b <= e, e == str.len(), forall|k: int| 0 <= k < b ==> sp(#[trigger] str@[k]),
@loop 1 ensures
    b < e ==> !sp(str@[b as int]),
@loop 1 decreases
    str.len() - b
@loop 2 invariant
    0 <= b <= e, e <= str.len(), forall|k: int| e <= k < str.len() ==> sp(#[trigger] str@[k]), b < e ==> !sp(str@[b as int]),
@loop 2 ensures
    b < e ==> !sp(str@[e - 1]),
@loop 2 decreases
    e - b
