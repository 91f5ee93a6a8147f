@unit wordp
@use strings
@constants src/vmime/constants.cpp
@source src/vmime/charset.cpp
@struct vmime::charset as Cs
@source src/vmime/word.cpp
@struct vmime::word as Word
@struct vmime::word::parserState as PSt
@field Word.m_charset stru:Cs
@extrafield Word.lo usize
@extrafield Word.hi usize
@extrafield Word.set bool
@extrafield PSt.set bool
@obj Word
@obj PSt
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?word> = stru:Word
@ctor Word 0 = mk_word0
@ctor PSt 0 = mk_pst
@ctor Word 2 = mk_word2 ref ref
@type .*parsingContext.* = stru:Ctx
@type (const )?(vmime::)?(word::)?parserState = stru:PSt
@type .*(b64Encoder).* = stru:EncB
@type .*(qpEncoder).* = stru:EncQ
@type .*(encoder::encoder|scoped_ptr.*encoder).* = stru:Enc
@type .*inputStreamStringAdapter = stru:SIn
@obj Enc
@ctor SIn 1 = sin_new ref
@ctor EncB 0 = encb_new
@ctor EncQ 0 = encq_new
@method vmime::parsingContext::getInternationalizedEmailSupport = ctx_eai bool ref
@method vmime::context::getInternationalizedEmailSupport = ctx_eai bool ref
@method vmime::component::setParsedBounds = word_bounds void mut val val
@extern vmime::charset::getLocalCharset = cs_local stru:Cs
@method vmime::utility::encoder::encoder::decode = enc_decode usize mut mut mut
@rust
pub struct Ctx { pub eai: bool }
pub fn ctx_eai(c: &Ctx) -> (r: bool) ensures r == c.eai { c.eai }
pub fn word_bounds(w: &mut Word, a: usize, b: usize) ensures final(w).lo == a, final(w).hi == b, final(w).m_buffer == old(w).m_buffer, final(w).m_charset == old(w).m_charset, final(w).m_lang == old(w).m_lang, final(w).set == old(w).set { w.lo = a; w.hi = b; }
pub fn mk_word0() -> (r: Word) ensures r.set, r.m_buffer.len() == 0 { let mut w = word_new(); w.set = true; w }
pub fn mk_pst() -> (r: PSt) ensures r.set, r.isFirst, !r.prevIsEncoded, r.undecodedBytes@.len() == 0 { let mut s = pst_new(); s.set = true; s }
pub fn mk_word2(b: &Vec<u8>, c: &Cs) -> (r: Word) ensures r.set, r.m_buffer@ == b@, r.m_charset.m_name@ == c.m_name@, r.m_lang.len() == 0 { let mut w = word_of(b, c); w.set = true; w }
pub fn Word_null() -> (r: Word) ensures !r.set { let mut w = word_new(); w.set = false; w }
pub fn Word_isset(w: &Word) -> (r: bool) ensures r == w.set { w.set }
pub fn PSt_isset(w: &PSt) -> (r: bool) ensures r == w.set { w.set }
#[verifier::external_body]
pub fn cs_local() -> Cs { unimplemented!() }
pub fn clone_Cs(c: &Cs) -> (r: Cs) ensures r.m_name@ == c.m_name@ { Cs { m_name: str_clone(&c.m_name) } }
pub uninterp spec fn eq_nocase(a: Seq<u8>, b: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn eq_nocase_x(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == eq_nocase(a@, b@) { unimplemented!() }
// the Base64 and Q decoders (their contracts are C01 and C02): what they make of a text
pub uninterp spec fn dec_b(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn dec_q(s: Seq<u8>) -> Seq<u8>;
pub struct SIn { pub d: Vec<u8> }
pub fn sin_new(s: &Vec<u8>) -> (r: SIn) ensures r.d@ == s@ { SIn { d: str_clone(s) } }
pub struct EncB { pub x: u8 }
pub struct EncQ { pub x: u8 }
pub struct Enc { pub kind: u8, pub word: bool }
pub fn encb_new() -> EncB { EncB { x: 0 } }
pub fn encq_new() -> EncQ { EncQ { x: 0 } }
pub fn Enc_null() -> (r: Enc) ensures r.kind == 0 { Enc { kind: 0, word: false } }
pub fn Enc_isset(e: &Enc) -> (r: bool) ensures r == (e.kind != 0) { e.kind != 0 }
pub fn Enc_of_EncB(e: EncB) -> (r: Enc) ensures r.kind == 1, !r.word { Enc { kind: 1, word: false } }
pub fn Enc_of_EncQ(e: EncQ) -> (r: Enc) ensures r.kind == 2, !r.word { Enc { kind: 2, word: false } }
pub fn Enc_setprop_rfc2047(e: &mut Enc, v: bool) ensures final(e).kind == old(e).kind, final(e).word == v { e.word = v; }
#[verifier::external_body]
pub fn enc_decode(e: &mut Enc, i: &mut SIn, o: &mut Vec<u8>) -> (n: usize)
    requires old(e).kind == 1 || (old(e).kind == 2 && old(e).word), old(o).len() == 0
    ensures final(o)@ == (if old(e).kind == 1 { dec_b(old(i).d@) } else { dec_q(old(i).d@) }), n == final(o).len(), n <= old(i).d.len() { unimplemented!() }
pub open spec fn utf8_name() -> Seq<u8> { seq![117u8, 116u8, 102u8, 45u8, 56u8] }
pub open spec fn ascii_name() -> Seq<u8> { seq![117u8, 115u8, 45u8, 97u8, 115u8, 99u8, 105u8, 105u8] }
pub open spec fn cs_fix(n: Seq<u8>) -> Seq<u8> { if eq_nocase(n, seq![117u8, 110u8, 105u8, 99u8, 111u8, 100u8, 101u8, 45u8, 49u8, 45u8, 49u8, 45u8, 117u8, 116u8, 102u8, 45u8, 55u8]) { seq![117u8, 116u8, 102u8, 45u8, 55u8] } else { n } }
pub open spec fn raw_name(c: &Ctx) -> Seq<u8> { if c.eai { utf8_name() } else { ascii_name() } }
pub open spec fn no_nul(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != 0 }
// first place of a byte
pub open spec fn none(s: Seq<u8>, c: u8, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> #[trigger] s[k] != c }
// "=?" charset "?" encoding "?" data "?=" : from k, with the '?' at i, j and f
#[verifier::opaque]
pub open spec fn ew(s: Seq<u8>, k: int, i: int, j: int, f: int) -> bool {
    &&& 0 <= k && k + 2 <= i < j < f && f + 1 < s.len()
    &&& s[k] == 61 && s[k + 1] == 63 && s[i] == 63 && s[j] == 63 && s[f] == 63 && s[f + 1] == 61
    &&& none(s, 63, k + 2, i) && none(s, 63, i + 1, j)
    &&& forall|m: int| j + 1 <= m < f ==> !(#[trigger] s[m] == 63 && s[m + 1] == 61)
}
pub open spec fn is_enc(c: u8) -> bool { c == 66 || c == 98 || c == 81 || c == 113 }
pub open spec fn is_b(c: u8) -> bool { c == 66 || c == 98 }
#[verifier::opaque]
pub open spec fn star_at(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == 42 { 0 } else { 1 + star_at(s.skip(1)) } }
// the charset, the language and the text of an encoded word
pub open spec fn ew_charset(cl: Seq<u8>) -> Seq<u8> { cs_fix(cl.take(star_at(cl))) }
pub open spec fn ew_lang(cl: Seq<u8>) -> Seq<u8> { if star_at(cl) < cl.len() { cl.skip(star_at(cl) + 1) } else { Seq::empty() } }
pub proof fn lemma_star(s: Seq<u8>, r: int) requires 0 <= r <= s.len(), none(s, 42, 0, r), r < s.len() ==> s[r] == 42 ensures star_at(s) == r decreases s.len()
{ reveal(star_at); if r > 0 { assert(s[0] != 42); assert forall|k: int| 0 <= k < r - 1 implies #[trigger] s.skip(1)[k] != 42 by { assert(s[k + 1] != 42); } lemma_star(s.skip(1), r - 1); } }
pub open spec fn ew_text(c: u8, d: Seq<u8>) -> Seq<u8> { if is_b(c) { dec_b(d) } else { dec_q(d) } }
// Base64 digits which make the decoded octets
pub open spec fn b_used(n: int) -> int { ((n + (if n % 3 == 0 { 0 } else { 3 - n % 3 })) / 3) * 4 }
pub open spec fn b_left(c: u8, d: Seq<u8>) -> Seq<u8> { if is_b(c) && d.len() > b_used(dec_b(d).len() as int) { d.skip(b_used(dec_b(d).len() as int)) } else { Seq::empty() } }
pub proof fn lemma_ew_unique(s: Seq<u8>, k: int, i: int, j: int, f: int, i2: int, j2: int, f2: int) requires ew(s, k, i, j, f), ew(s, k, i2, j2, f2) ensures i == i2, j == j2, f == f2
{ reveal(ew); if i < i2 { assert(s[i] != 63); } if i2 < i { assert(s[i2] != 63); } if j < j2 { assert(s[j] != 63); } if j2 < j { assert(s[j2] != 63); } }
// what an encoded word is parsed as; l: Base64 digits left over from the word before it
pub open spec fn carry(st: PSt) -> Seq<u8> { if st.set { st.undecodedBytes@ } else { Seq::empty() } }
pub struct WV { pub b: Seq<u8>, pub cs: Seq<u8>, pub lang: Seq<u8>, pub lo: int, pub hi: int }
pub open spec fn wv(w: Word) -> WV { WV { b: w.m_buffer@, cs: w.m_charset.m_name@, lang: w.m_lang@, lo: w.lo as int, hi: w.hi as int } }
pub open spec fn is_eword(w: WV, s: Seq<u8>, k: int, i: int, j: int, f: int, l: Seq<u8>) -> bool {
    w.b == ew_text(s[i + 1], l + s.subrange(j + 1, f)) && w.cs == ew_charset(s.subrange(k + 2, i)) && w.lang == ew_lang(s.subrange(k + 2, i)) && w.lo == k && w.hi == f + 2
}
#[verifier::opaque]
pub open spec fn pws_ok(w: WV, st0: PSt, st1: PSt, s: Seq<u8>, k: int, i: int, j: int, f: int) -> bool {
    is_eword(w, s, k, i, j, f, carry(st0)) && (st0.set ==> st1.undecodedBytes@ == b_left(s[i + 1], carry(st0) + s.subrange(j + 1, f)))
}
// ---- unfolding: CR? LF and the blanks after it are one space, or nothing at the end of the text ----
pub open spec fn sp(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 13 }
pub open spec fn spaces(s: Seq<u8>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> sp(#[trigger] s[k]) }
pub struct U { pub o: Seq<u8>, pub m: int }     // m: 1 = a CR is held back, 2 = inside a fold
pub open spec fn ustep(u: U, c: u8) -> U {
    if u.m == 2 && sp(c) { u }
    else {
        let o = if u.m == 2 { u.o.push(32) } else { u.o };
        if c == 10 { U { o, m: 2 } } else if c == 13 { U { o: if u.m == 1 { o.push(13) } else { o }, m: 1 } }
        else { U { o: (if u.m == 1 { o.push(13) } else { o }).push(c), m: 0 } }
    }
}
#[verifier::opaque]
pub open spec fn urun(s: Seq<u8>) -> U decreases s.len() { if s.len() == 0 { U { o: Seq::empty(), m: 0 } } else { ustep(urun(s.drop_last()), s.last()) } }
pub proof fn lemma_urun(s: Seq<u8>, a: int, p: int) requires 0 <= a <= p < s.len() ensures urun(s.subrange(a, p + 1)) == ustep(urun(s.subrange(a, p)), s[p])
{ let w = s.subrange(a, p + 1); assert(w.drop_last() =~= s.subrange(a, p)); assert(w.last() == s[p]); reveal_with_fuel(urun, 2); }
pub open spec fn utext(u: U, atend: bool) -> Seq<u8> { if u.m == 2 { if atend { u.o } else { u.o.push(32) } } else if u.m == 1 { u.o.push(13) } else { u.o } }
pub open spec fn unfolded(s: Seq<u8>, atend: bool) -> Seq<u8> { utext(urun(s), atend) }
// what the loop has so far: un + s[st..p)
#[verifier::opaque]
pub open spec fn uinv(s: Seq<u8>, a: int, p: int, e: int, st: int, un: Seq<u8>) -> bool {
    0 <= a <= st <= p <= e <= s.len() && (p < e && p == st ==> !sp(s[p])) && utext(urun(s.subrange(a, p)), p == e) == un + s.subrange(st, p) && (urun(s.subrange(a, p)).m == 2 ==> p == st)
    && (p > st ==> !sp(s[st]))
}
pub proof fn lemma_uinit(s: Seq<u8>, a: int, e: int) requires 0 <= a <= e <= s.len(), a < e ==> !sp(s[a]) ensures uinv(s, a, a, e, a, Seq::empty())
{ reveal(uinv); reveal_with_fuel(urun, 2); assert(s.subrange(a, a) =~= Seq::empty()); assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= Seq::<u8>::empty()); }
pub proof fn lemma_ustep1(s: Seq<u8>, a: int, p: int, e: int, st: int, un: Seq<u8>) requires uinv(s, a, p, e, st, un), p < e, s[p] != 10 ensures uinv(s, a, p + 1, e, st, un)
{
    reveal(uinv); lemma_urun(s, a, p); let u = urun(s.subrange(a, p)); assert(s.subrange(st, p + 1) =~= s.subrange(st, p).push(s[p])); assert(un + s.subrange(st, p).push(s[p]) =~= (un + s.subrange(st, p)).push(s[p]));
}
// a line break at p, the blanks after it up to q
pub proof fn lemma_ufold(s: Seq<u8>, a: int, p: int, q: int, e: int, st: int, un: Seq<u8>, ep: int)
    requires uinv(s, a, p, e, st, un), p < q <= e, s[p] == 10, spaces(s, p, q), q < e ==> !sp(s[q]), ep == (if s[p - 1] == 13 { p - 1 } else { p })
    ensures st <= ep, uinv(s, a, q, e, q, un + s.subrange(st, ep) + (if q != e { seq![32u8] } else { Seq::empty() }))
{
    reveal(uinv); lemma_urun(s, a, p); let u = urun(s.subrange(a, p)); let x = un + s.subrange(st, ep);
    assert(st < p);
    assert(s.subrange(st, p) =~= s.subrange(st, p - 1).push(s[p - 1])); assert(un + s.subrange(st, p - 1).push(s[p - 1]) =~= (un + s.subrange(st, p - 1)).push(s[p - 1]));
    if u.m == 1 { assert(u.o.push(13).last() == s[p - 1]); assert(u.o.push(13).drop_last() =~= u.o); assert((un + s.subrange(st, p - 1)).push(s[p - 1]).drop_last() =~= un + s.subrange(st, p - 1)); }
    else { lemma_m0(s, a, p); }
    assert(urun(s.subrange(a, p + 1)).o == x && urun(s.subrange(a, p + 1)).m == 2);
    lemma_uspaces(s, a, p + 1, q);
    assert(s.subrange(q, q) =~= Seq::empty());
    assert(x + Seq::<u8>::empty() =~= x); assert(x + seq![32u8] =~= x.push(32)); assert(x + seq![32u8] + Seq::<u8>::empty() =~= x.push(32)); assert(x + Seq::<u8>::empty() + Seq::<u8>::empty() =~= x);
}
pub proof fn lemma_m0(s: Seq<u8>, a: int, p: int) requires 0 <= a < p <= s.len(), urun(s.subrange(a, p)).m != 1, urun(s.subrange(a, p)).m != 2 ensures s[p - 1] != 13 { lemma_urun(s, a, p - 1); }
pub proof fn lemma_uspaces(s: Seq<u8>, a: int, p: int, q: int) requires 0 <= a <= p <= q <= s.len(), urun(s.subrange(a, p)).m == 2, spaces(s, p, q) ensures urun(s.subrange(a, q)) == urun(s.subrange(a, p)) decreases q - p
{ if p < q { lemma_urun(s, a, p); assert(sp(s[p])); lemma_uspaces(s, a, p + 1, q); } }
// blanks, without line breaks
pub open spec fn blanks(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last() == 13 || s.last() == 10 { blanks(s.drop_last()) } else { blanks(s.drop_last()).push(s.last()) } }
// an encoded word may begin at k
pub open spec fn cand(s: Seq<u8>, k: int) -> bool { 0 <= k && k + 8 < s.len() && s[k] == 61 && s[k + 1] == 63 }
pub open spec fn plain(s: Seq<u8>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> !#[trigger] cand(s, k) }
pub open spec fn lead(st: PSt, s: Seq<u8>, a: int, k: int) -> Seq<u8> { if st.prevIsEncoded && !st.isFirst { blanks(s.subrange(a, k)) } else { Seq::empty() } }
// the text from k to z is one word of text that is not encoded
#[verifier::opaque]
pub open spec fn is_text(w: WV, st0: PSt, st1: PSt, s: Seq<u8>, a: int, k: int, z: int, c: Ctx) -> bool {
    w.b == lead(st0, s, a, k) + unfolded(s.subrange(k, z), z == s.len()) && w.cs == raw_name(&c) && w.lang.len() == 0 && w.lo == a && w.hi == z
    && !st1.prevIsEncoded && !st1.isFirst && st1.undecodedBytes@ == st0.undecodedBytes@
}
pub proof fn lemma_wtext(s: Seq<u8>, a: int, k: int, z: int, e: int, st: int, un: Seq<u8>, o: Seq<u8>, st0: PSt, st1: PSt, w: WV, c: Ctx)
    requires a <= k, e == s.len(), uinv(s, k, z, e, st, un), o == lead(st0, s, a, k) + (un + s.subrange(st, z)), w.b == o, w.cs == raw_name(&c), w.lang.len() == 0, w.lo == a, w.hi == z, !st1.prevIsEncoded, !st1.isFirst, st1.undecodedBytes@ == st0.undecodedBytes@
    ensures is_text(w, st0, st1, s, a, k, z, c)
{ reveal(uinv); reveal(is_text); }
pub open spec fn is_raw(w: WV, s: Seq<u8>, a: int, b: int, c: Ctx) -> bool { w.b == s.subrange(a, b) && w.cs == raw_name(&c) && w.lo == a && w.hi == b }
pub open spec fn first_at(s: Seq<u8>, a: int, k: int, e: int) -> bool { a <= k < e && spaces(s, a, k) && !sp(s[k]) }
pub fn clone_Word(w: &Word) -> (r: Word) ensures r.m_buffer@ == w.m_buffer@, r.m_charset.m_name@ == w.m_charset.m_name@, r.m_lang@ == w.m_lang@, r.lo == w.lo, r.hi == w.hi, r.set == w.set { Word { m_buffer: str_clone(&w.m_buffer), m_charset: clone_Cs(&w.m_charset), m_lang: str_clone(&w.m_lang), lo: w.lo, hi: w.hi, set: w.set } }
pub open spec fn next_ok(b: Seq<u8>, p: int, e: int, w: WV, q: int, st0: PSt, st1: PSt, c: Ctx) -> bool {
    &&& p < q <= e && !spaces(b, p, e) && w.hi == q && p <= w.lo < w.hi && !st1.isFirst && st1.set
    &&& forall|k: int, i: int, j: int, f: int| first_at(b, p, k, e) && #[trigger] ew(b.take(e), k, i, j, f) && k + 8 < e && none(b, 10, j + 1, f) ==>
        q == f + 2 && st1.prevIsEncoded
        && (is_enc(b[i + 1]) ==> pws_ok(w, st0, st1, b.take(e), k, i, j, f))
        && (!is_enc(b[i + 1]) ==> is_raw(w, b, k, f + 2, c) && st1.undecodedBytes@ == st0.undecodedBytes@)
    &&& forall|k: int, z: int| first_at(b, p, k, e) && k < z <= e && #[trigger] plain(b.take(e), k, z) && (z == e || cand(b.take(e), z)) ==>
        q == z && is_text(w, st0, st1, b.take(e), p, k, z, c)
}
// the words of b from p to e, in order; cut: where each one ends, st: the state before and after each one
pub struct Run { pub cut: Seq<int>, pub st: Seq<PSt> }
pub open spec fn chain(b: Seq<u8>, p: int, e: int, ws: Seq<Word>, r: Run, c: Ctx) -> bool {
    &&& r.cut.len() == ws.len() + 1 && r.st.len() == ws.len() + 1 && r.cut[0] == p
    &&& r.st[0].isFirst && !r.st[0].prevIsEncoded && r.st[0].undecodedBytes@.len() == 0 && r.st[0].set
    &&& forall|i: int| 0 <= i < ws.len() ==> #[trigger] ws[i].set && next_ok(b, r.cut[i], e, wv(ws[i]), r.cut[i + 1], r.st[i], r.st[i + 1], c)
}
pub open spec fn stv(s: PSt) -> (bool, bool, Seq<u8>, bool) { (s.prevIsEncoded, s.isFirst, s.undecodedBytes@, s.set) }
@source src/vmime/charset.cpp
@extern vmime::utility::stringUtils::isStringEqualNoCase = eq_nocase_x bool ref ref
@fn vmime::charset::charset ~void ()~ as cs_new
@ensures
    res.m_name@ == ascii_name(),
@fn vmime::charset::charset ~void (const string &)~ as cs_of
@ensures
    res.m_name@ == cs_fix(name@),
@fn vmime::charset::charset ~void (const char *)~ as cs_ofz
@requires
    name_o == 0, no_nul(name@),
@ensures
    res.m_name@ == name@,
@hint start
    proof { lemma_cz_full(name@, 0); assert(name@.subrange(0, name.len() as int) =~= name@); }
@fn vmime::charset::charset ~void (const charset &)~ as cs_copy
@ensures
    res.m_name@ == other.m_name@,
@source src/vmime/word.cpp
@fn vmime::word::word ~void ()~ as word_new
@ensures
    res.m_buffer@.len() == 0,
@fn vmime::word::word ~void (const string &, const charset &)~ as word_of
@ensures
    res.m_buffer@ == buffer@, res.m_charset.m_name@ == charset.m_name@, res.m_lang@.len() == 0,
@fn vmime::word::parseWithState as word_pws
@outptr newPosition
@requires
    position <= end <= buffer.len(), buffer.len() + old(state).undecodedBytes.len() < 0x3fff_ffff_ffff_ffff,
@ensures
    final(this).lo == position, position <= *final(newPosition) <= end, final(this).hi == *final(newPosition), *final(ctx) == *old(ctx), final(this).set == old(this).set, final(state).set == old(state).set,
    final(state).undecodedBytes.len() <= old(state).undecodedBytes.len() + (*final(newPosition) - position),
    forall|i: int, j: int, f: int| #[trigger] ew(buffer@.take(end as int), position as int, i, j, f) && is_enc(buffer@[i + 1]) ==> *final(newPosition) == f + 2 && pws_ok(wv(*final(this)), *old(state), *final(state), buffer@.take(end as int), position as int, i, j, f),
    (forall|i: int, j: int, f: int| !(#[trigger] ew(buffer@.take(end as int), position as int, i, j, f) && is_enc(buffer@[i + 1]))) ==> *final(newPosition) == end && is_raw(wv(*final(this)), buffer@, position as int, end as int, *old(ctx)) && *final(state) == *old(state),
@hint start
    let ghost s = buffer@.take(end as int); let ghost k = position as int; let ghost mut gi = 0int; let ghost mut gj = 0int; let ghost mut gf = 0int;
    proof {
        assert forall|i: int, j: int, f: int| #[trigger] ew(s, k, i, j, f) && is_enc(buffer@[i + 1]) implies position + 6 < end && buffer@[k] == 61 && buffer@[k + 1] == 63 by { reveal(ew); assert(s[k] == buffer@[k] && s[k + 1] == buffer@[k + 1]); assert(s[i + 1] == buffer@[i + 1]); assert(j > i + 1); }
    }
@loop 1 invariant
    charsetPos == position + 2, charsetPos <= p <= pend, pend == end, none(buffer@, 63, position + 2, p as int),
@loop 1 decreases
    pend - p
@hint loop 1 post
    proof { gi = p as int; assert forall|i: int, j: int, f: int| #[trigger] ew(s, k, i, j, f) implies i == gi && p != pend by { reveal(ew); if i < p { assert(buffer@[i] != 63); } if p < i { assert(s[p as int] != 63); } } }
@loop 2 invariant
    charsetPos == position + 2, pend == end, encPos <= p <= pend, none(buffer@, 63, encPos as int, p as int), encPos == gi + 1, s == buffer@.take(end as int),
@loop 2 decreases
    pend - p
@hint loop 2 post
    proof { gj = p as int; assert forall|i: int, j: int, f: int| #[trigger] ew(s, k, i, j, f) implies i == gi && j == gj && p != pend by { reveal(ew); if j < p { assert(buffer@[j] != 63); } if p < j { assert(s[p as int] != 63); } } }
@loop 3 invariant
    charsetPos == position + 2, pend == end, dataPos <= p <= pend, dataPos == gj + 1, forall|m: int| dataPos <= m < p ==> !(#[trigger] buffer@[m] == 63 && m + 1 < pend && buffer@[m + 1] == 61),
@loop 3 decreases
    pend - p
@hint loop 3 post
    proof {
        gf = p as int;
        assert forall|i: int, j: int, f: int| #[trigger] ew(s, k, i, j, f) implies i == gi && j == gj && f == gf && p != pend by { reveal(ew); if f < p { assert(!(buffer@[f] == 63 && f + 1 < pend && buffer@[f + 1] == 61)); } if p < f { assert(!(s[p as int] == 63 && s[p + 1] == 61)); } }
        if p != pend { assert(ew(s, k, gi, gj, gf)) by { reveal(ew); } }
    }
@hint before `return`
    proof {
        assert(is_enc(buffer@[gi + 1]));
        assert(pws_ok(wv(*this), *old(state), *state, s, k, gi, gj, gf)) by {
            reveal(pws_ok);
            assert(s.subrange(gj + 1, gf) =~= buffer@.subrange(gj + 1, gf)); assert(s.subrange(k + 2, gi) =~= buffer@.subrange(k + 2, gi));
            let cl = buffer@.subrange(k + 2, gi); assert(charsetAndLang@ == cl); lemma_star(cl, if asteriskPos == usize::MAX { cl.len() as int } else { asteriskPos as int });
            assert(cl.take(cl.len() as int) =~= cl); if asteriskPos < usize::MAX { assert(cl.take(asteriskPos as int) =~= cl.subrange(0, asteriskPos as int)); assert(cl.skip(asteriskPos + 1) =~= cl.subrange(asteriskPos + 1, cl.len() as int)); }
            assert(carry(*old(state)) + buffer@.subrange(gj + 1, gf) =~= encodedBuffer@);
            let eb = encodedBuffer@; assert(*this == *this); let u = b_used(dec_b(eb).len() as int); if is_b(buffer@[gi + 1]) && u <= eb.len() { assert(eb.skip(u) =~= eb.subrange(u, eb.len() as int)); }
            assert(s[gi + 1] == buffer@[gi + 1]); assert(this.m_buffer@ == ew_text(s[gi + 1], eb)); assert(this.m_charset.m_name@ == ew_charset(cl)); assert(this.m_lang@ =~= ew_lang(cl));
            if old(state).set { assert(state.undecodedBytes@ =~= b_left(s[gi + 1], eb)); }
        }
    }
@fn vmime::word::parseNext as word_next
@rlimit 400
@outptr newPosition
@requires
    position <= end <= buffer.len(), buffer.len() < 0x1fff_ffff_ffff_ffff, old(state).set, old(state).undecodedBytes.len() <= position,
@ensures
    final(state).set, *final(ctx) == *old(ctx),
    res.set == !spaces(buffer@, position as int, end as int),
    !res.set ==> *final(newPosition) == *old(newPosition) && *final(state) == *old(state),
    res.set ==> position < *final(newPosition) <= end && res.hi == *final(newPosition) && position <= res.lo < res.hi && !final(state).isFirst && final(state).undecodedBytes.len() <= *final(newPosition),
    res.set ==> next_ok(buffer@, position as int, end as int, wv(res), *final(newPosition) as int, *old(state), *final(state), *old(ctx)),
@hint start
    let ghost s = buffer@.take(end as int); let ghost mut k0 = 0int; let ghost mut dirty = false; let ghost mut gp = 0int; let ghost mut gi = 0int; let ghost mut gj = 0int; let ghost mut un1 = Seq::<u8>::empty();
@loop 1 invariant
    position <= pos <= end, end <= buffer.len(), spaces(buffer@, position as int, pos as int), whiteSpaces@ == blanks(buffer@.subrange(position as int, pos as int)),
@loop 1 decreases
    end - pos
@hint loop 1 end
    proof { let p0 = (pos - 1) as int; }
@hint loop 1 begin
    proof { let w = buffer@.subrange(position as int, pos + 1); assert(w.drop_last() =~= buffer@.subrange(position as int, pos as int)); assert(w.last() == buffer@[pos as int]); reveal_with_fuel(blanks, 2); }
@hint loop 1 post
    proof { k0 = pos as int; assert(forall|k: int| first_at(buffer@, position as int, k, end as int) ==> k == k0); if k0 <= end { lemma_uinit(s, k0, end as int); } }
@loop 2 invariant
    position <= k0 <= startPos <= pos <= end, end <= buffer.len(), buffer.len() < 0x1fff_ffff_ffff_ffff, s == buffer@.take(end as int),
    spaces(buffer@, position as int, k0), whiteSpaces@ == blanks(buffer@.subrange(position as int, k0)),
    *state == *old(state), *ctx == *old(ctx), state.set, state.undecodedBytes.len() <= position, *newPosition == *old(newPosition),
    forall|k: int| first_at(buffer@, position as int, k, end as int) ==> k == k0,
    defaultCharset.m_name@ == raw_name(ctx),
    startPos < end ==> !sp(buffer@[startPos as int]), k0 < startPos ==> unencoded.len() > 0, pos == k0 ==> unencoded.len() == 0 && !dirty, startPos == k0 ==> unencoded.len() == 0,
    unencoded.len() <= startPos, dirty ==> cand(s, k0) && forall|i: int, j: int, f: int| #[trigger] ew(s, k0, i, j, f) ==> !none(buffer@, 10, j + 1, f),
    !dirty ==> uinv(s, k0, pos as int, end as int, startPos as int, unencoded@) && plain(s, k0, pos as int),
@loop 2 decreases
    end - pos
@hint loop 2 begin
    proof { gp = pos as int; }
@loop 3 invariant
    gp < pos <= end || (pos == gp && buffer@[gp] == 10), gp <= pos <= end, end <= buffer.len(), spaces(buffer@, gp, pos as int), 
@loop 3 decreases
    end - pos
@loop 4 invariant
    gp + 2 <= pos <= end, end <= buffer.len(), none(buffer@, 63, gp + 2, pos as int),
@loop 4 decreases
    end - pos
@hint loop 4 post
    proof { gi = pos as int; }
@loop 5 invariant
    gi < pos <= end, end <= buffer.len(), none(buffer@, 63, gi + 1, pos as int),
@loop 5 decreases
    end - pos
@hint loop 5 post
    proof { gj = pos as int; }
@loop 6 invariant
    gp + 2 <= pos <= end, end <= buffer.len(),
    pos < end ==> gi < gj < end && gj < pos && none(buffer@, 10, gj + 1, pos as int) && forall|m: int| gj < m < pos ==> !(#[trigger] buffer@[m] == 63 && m + 1 < end && buffer@[m + 1] == 61),
    pos == end ==> forall|i: int, j: int, f: int| #[trigger] ew(s, gp, i, j, f) ==> !none(buffer@, 10, j + 1, f),
@loop 6 decreases
    end - pos
@hint loop 6 end
    proof { if pos == end { assert forall|i: int, j: int, f: int| #[trigger] ew(s, gp, i, j, f) implies false by { reveal(ew); if i < gi { assert(buffer@[i] != 63); } if gi < i { assert(s[gi] != 63); } if j < gj { assert(buffer@[j] != 63); } if gj < j { assert(s[gj] != 63); } assert(s[f] == 63 && s[f + 1] == 61); assert(buffer@[f] == 63 && f + 1 < end && buffer@[f + 1] == 61); } } }
@hint loop 6 pre
    proof { if pos == end { assert forall|i: int, j: int, f: int| #[trigger] ew(s, gp, i, j, f) implies false by { reveal(ew); if i < gi { assert(buffer@[i] != 63); } if gi < i { assert(s[gi] != 63); } if j < gj { assert(buffer@[j] != 63); } } } }
@hint loop 6 post
    proof {
        assert(pos < end ==> none(buffer@, 63, gp + 2, gi) && none(buffer@, 63, gi + 1, gj));
        if pos < end && buffer@[pos as int] == 10 {
            assert forall|i: int, j: int, f: int| #[trigger] ew(s, gp, i, j, f) implies !none(buffer@, 10, j + 1, f) by { reveal(ew); if i < gi { assert(buffer@[i] != 63); } if gi < i { assert(s[gi] != 63); } if j < gj { assert(buffer@[j] != 63); } if gj < j { assert(s[gj] != 63); } if f < pos { assert(!(buffer@[f] == 63 && f + 1 < end && buffer@[f + 1] == 61)); } assert(buffer@[pos as int] == 10); }
        }
        if pos < end && buffer@[pos as int] != 10 {
            let p = pos as int; let s2 = buffer@.take(p + 2);
            assert(ew(s, gp, gi, gj, p) && ew(s2, gp, gi, gj, p)) by { reveal(ew); }
            assert forall|i: int, j: int, f: int| #[trigger] ew(s, gp, i, j, f) implies i == gi && j == gj && f == p by { lemma_ew_unique(s, gp, i, j, f, gi, gj, p); }
            assert forall|i: int, j: int, f: int| #[trigger] ew(s2, gp, i, j, f) implies i == gi && j == gj && f == p by { lemma_ew_unique(s2, gp, i, j, f, gi, gj, p); }
        } else { dirty = true; }
    }
@hint loop 2 begin
    proof { un1 = unencoded@; }
@hint loop 2 post
    proof { un1 = unencoded@; }
@hint loop 2 end
    proof { if buffer@[gp] != 10 && !dirty && pos == gp + 1 { lemma_ustep1(s, k0, gp, end as int, startPos as int, unencoded@); assert(!cand(s, gp)); } }
@hint before ~return clone_Word~ #1
    proof {
        assert(plain(s, k0, k0 + 1) || cand(s, k0)); assert(cand(s, gp));
        assert forall|i: int, j: int, f: int| #[trigger] ew(s, k0, i, j, f) && k0 + 8 < end implies cand(s, k0) by { reveal(ew); }
        if !dirty { assert(s.subrange(startPos as int, gp) =~= buffer@.subrange(startPos as int, gp)); assert(s.subrange(position as int, k0) =~= buffer@.subrange(position as int, k0)); assert(unencoded@ =~= lead(*old(state), s, position as int, k0) + (un1 + s.subrange(startPos as int, gp))); lemma_wtext(s, position as int, k0, gp, end as int, startPos as int, un1, unencoded@, *old(state), *state, wv(w), *ctx); }
        assert forall|k: int, z: int| first_at(buffer@, position as int, k, end as int) && k < z <= end && #[trigger] plain(s, k, z) && (z == end || cand(s, z)) implies z == gp && !dirty by { if dirty { assert(cand(s, k0)); } else if z < gp { assert(cand(s, z)); } }
    }
@hint before ~return clone_Word~ #3
    proof {
        assert forall|i: int, j: int, f: int| #[trigger] ew(s, k0, i, j, f) && k0 + 8 < end implies cand(s, k0) by { reveal(ew); }
        if !dirty { assert(s.subrange(startPos as int, end as int) =~= buffer@.subrange(startPos as int, end as int)); assert(s.subrange(position as int, k0) =~= buffer@.subrange(position as int, k0)); assert(unencoded@ =~= lead(*old(state), s, position as int, k0) + (un1 + s.subrange(startPos as int, end as int))); lemma_wtext(s, position as int, k0, end as int, end as int, startPos as int, un1, unencoded@, *old(state), *state, wv(w), *ctx); }
        assert forall|k: int, z: int| first_at(buffer@, position as int, k, end as int) && k < z <= end && #[trigger] plain(s, k, z) && (z == end || cand(s, z)) implies z == end && !dirty by { if dirty { assert(cand(s, k0)); } else if z < end { assert(cand(s, z)); } }
    }
@hint before ~return clone_Word~ #2
    proof {
        assert(cand(s, k0)); let p = pos - 2; let s2 = buffer@.take(pos as int);
        assert(gp == k0 && s[gi + 1] == buffer@[gi + 1] && s2[gi + 1] == buffer@[gi + 1]) by { reveal(ew); }
        assert(ew(s, gp, gi, gj, p) && ew(s2, gp, gi, gj, p));
        if is_enc(buffer@[gi + 1]) { assert(s.subrange(gp + 2, gi) =~= s2.subrange(gp + 2, gi)) by { reveal(ew); } assert(s.subrange(gj + 1, p) =~= s2.subrange(gj + 1, p)) by { reveal(ew); } assert(pws_ok(wv(w), *old(state), *state, s, gp, gi, gj, p)) by { reveal(pws_ok); } }
    }
@hint before ~let t\d+__ = str_substr\(buffer, startPos, usub_usize\(endPos~
    let ghost un0 = unencoded@; let ghost st0 = startPos as int;
    proof { assert(endPos >= startPos && endPos > startPos); }
@hint after ~^\s*startPos = pos;~
    proof { if !dirty { lemma_ufold(s, k0, gp, pos as int, end as int, st0, un0, endPos as int); assert(s.subrange(st0, endPos as int) =~= buffer@.subrange(st0, endPos as int)); assert(unencoded@ =~= un0 + s.subrange(st0, endPos as int) + (if pos != end { seq![32u8] } else { Seq::empty() })); assert forall|k: int| k0 <= k < pos implies !#[trigger] cand(s, k) by { if k >= gp { assert(sp(buffer@[k])); } } } }
@source src/vmime/word.cpp
@fn vmime::word::parserState::parserState as pst_new
@ensures
    res.isFirst, !res.prevIsEncoded, res.undecodedBytes@.len() == 0,
@fn vmime::word::parseMultiple as word_multi
@outptr newPosition
@requires
    position <= end <= buffer.len(), buffer.len() < 0x1fff_ffff_ffff_ffff,
@ensures
    *final(ctx) == *old(ctx), position <= *final(newPosition) <= end, spaces(buffer@, *final(newPosition) as int, end as int),
    exists|r: Run| #[trigger] chain(buffer@, position as int, end as int, res@, r, *old(ctx)) && r.cut.last() == *final(newPosition),
@loop 1 invariant
    position <= pos <= end <= buffer.len(), buffer.len() < 0x1fff_ffff_ffff_ffff, *ctx == *old(ctx), state.set, state.undecodedBytes.len() <= pos,
    chain(buffer@, position as int, end as int, res_@, r, *ctx), r.cut.last() == pos, r.st.last() == state,
@loop 1 decreases
    end - pos
@hint start
    let ghost mut r = Run { cut: seq![position as int], st: seq![] }; let ghost mut pos0 = 0int; let ghost mut ws0 = Seq::<Word>::empty(); let ghost mut st0 = arbitrary::<PSt>();
@hint loop 1 pre
    proof { r = Run { cut: seq![position as int], st: seq![state] }; }
@hint loop 1 begin
    proof { pos0 = pos as int; ws0 = res_@; st0 = state; }
@hint loop 1 end
    proof { let r0 = r; r = Run { cut: r0.cut.push(pos as int), st: r0.st.push(state) }; assert forall|i: int| 0 <= i < res_.len() implies #[trigger] res_@[i].set && next_ok(buffer@, r.cut[i], end as int, wv(res_@[i]), r.cut[i + 1], r.st[i], r.st[i + 1], *ctx) by { if i < ws0.len() { assert(res_@[i] == ws0[i]); assert(r.cut[i] == r0.cut[i] && r.cut[i + 1] == r0.cut[i + 1] && r.st[i] == r0.st[i] && r.st[i + 1] == r0.st[i + 1]); } } }
@rustpost
// one encoded word: its parts
pub struct EW { pub k: int, pub i: int, pub j: int, pub f: int }
// from p to e, b holds these encoded words, with white space between them
pub open spec fn encoded_words(b: Seq<u8>, p: int, e: int, x: Seq<EW>) -> bool {
    &&& x.len() > 0
    &&& forall|m: int| 0 <= m < x.len() ==> ew_at(b, if m == 0 { p } else { x[m - 1].f + 2 }, e, #[trigger] x[m])
    &&& spaces(b, x.last().f + 2, e)
}
// consecutive encoded words give one word each, whatever white space is between them
pub proof fn property_encoded_words(b: Seq<u8>, p: int, e: int, ws: Seq<Word>, r: Run, c: Ctx, x: Seq<EW>)
    requires 0 <= p <= e <= b.len(), chain(b, p, e, ws, r, c), spaces(b, r.cut.last(), e), encoded_words(b, p, e, x)
    ensures ws.len() == x.len(), forall|m: int| 0 <= m < x.len() ==> pws_ok(wv(ws[m]), r.st[m], r.st[m + 1], b.take(e), (#[trigger] x[m]).k, x[m].i, x[m].j, x[m].f)
{
    lemma_ewn(b, p, e, ws, r, c, x, if ws.len() < x.len() { ws.len() as int } else { x.len() as int });
    if ws.len() < x.len() { let q = x[ws.len() as int]; assert(ew_at(b, r.cut.last(), e, q)); reveal(ew_at); assert(!sp(b[q.k])); }
    if ws.len() > x.len() { let n = x.len() as int; assert(ws[n].set); let y = x[n - 1]; assert(spaces(b, r.cut[n], e)); lemma_next_nonempty(b, p, e, ws, r, c, n); }
}
pub proof fn lemma_next_nonempty(b: Seq<u8>, p: int, e: int, ws: Seq<Word>, r: Run, c: Ctx, n: int) requires chain(b, p, e, ws, r, c), 0 <= n < ws.len(), spaces(b, r.cut[n], e) ensures false
{ assert(ws[n].set); assert(next_ok(b, r.cut[n], e, wv(ws[n]), r.cut[n + 1], r.st[n], r.st[n + 1], c)); }
pub proof fn lemma_ew1(b: Seq<u8>, p: int, e: int, w: WV, q: int, st0: PSt, st1: PSt, c: Ctx, x: EW)
    requires next_ok(b, p, e, w, q, st0, st1, c), first_at(b, p, x.k, e), ew(b.take(e), x.k, x.i, x.j, x.f), x.k + 8 < e, none(b, 10, x.j + 1, x.f), is_enc(b[x.i + 1])
    ensures q == x.f + 2, pws_ok(w, st0, st1, b.take(e), x.k, x.i, x.j, x.f)
{ }
#[verifier::opaque]
pub open spec fn ew_at(b: Seq<u8>, p: int, e: int, x: EW) -> bool { ew(b.take(e), x.k, x.i, x.j, x.f) && first_at(b, p, x.k, e) && x.k + 8 < e && none(b, 10, x.j + 1, x.f) && is_enc(b[x.i + 1]) }
#[verifier::opaque]
pub open spec fn nxt(b: Seq<u8>, p: int, e: int, w: WV, q: int, st0: PSt, st1: PSt, c: Ctx) -> bool { next_ok(b, p, e, w, q, st0, st1, c) }
pub proof fn lemma_ew2(b: Seq<u8>, p: int, e: int, w: WV, q: int, st0: PSt, st1: PSt, c: Ctx, x: EW)
    requires nxt(b, p, e, w, q, st0, st1, c), ew_at(b, p, e, x)
    ensures q == x.f + 2, pws_ok(w, st0, st1, b.take(e), x.k, x.i, x.j, x.f)
{ reveal(ew_at); reveal(nxt); lemma_ew1(b, p, e, w, q, st0, st1, c, x); }
pub proof fn lemma_ewn(b: Seq<u8>, p: int, e: int, ws: Seq<Word>, r: Run, c: Ctx, x: Seq<EW>, n: int)
    requires 0 <= p <= e <= b.len(), chain(b, p, e, ws, r, c), encoded_words(b, p, e, x), 0 <= n <= ws.len(), n <= x.len()
    ensures r.cut[n] == (if n == 0 { p } else { x[n - 1].f + 2 }), forall|m: int| 0 <= m < n ==> pws_ok(wv(ws[m]), r.st[m], r.st[m + 1], b.take(e), (#[trigger] x[m]).k, x[m].i, x[m].j, x[m].f)
    decreases n
{ if n > 0 { lemma_ewn(b, p, e, ws, r, c, x, n - 1); let q = x[n - 1]; assert(nxt(b, r.cut[n - 1], e, wv(ws[n - 1]), r.cut[n], r.st[n - 1], r.st[n], c)) by { assert(ws[n - 1].set); reveal(nxt); } assert(ew_at(b, r.cut[n - 1], e, q)); lemma_ew2(b, r.cut[n - 1], e, wv(ws[n - 1]), r.cut[n], r.st[n - 1], r.st[n], c, q); } }
// text without encoded words is one word: the unfolded text
pub proof fn property_plain_text(b: Seq<u8>, p: int, e: int, ws: Seq<Word>, r: Run, c: Ctx, k: int)
    requires 0 <= p <= e <= b.len(), chain(b, p, e, ws, r, c), spaces(b, r.cut.last(), e), first_at(b, p, k, e), plain(b.take(e), k, e)
    ensures ws.len() == 1, ws[0].m_buffer@ == unfolded(b.take(e).subrange(k, e), true)
{
    reveal(is_text);
    if ws.len() == 0 { assert(!sp(b[k])); } else { assert(ws[0].set); if ws.len() > 1 { assert(ws[1].set); assert(spaces(b, r.cut[1], e)); } }
    assert(lead(r.st[0], b.take(e), p, k) + unfolded(b.take(e).subrange(k, e), true) =~= unfolded(b.take(e).subrange(k, e), true));
}
