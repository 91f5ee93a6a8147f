@unit wordg
@use strings
@rlimit 40
@constants src/vmime/constants.cpp
@source src/vmime/charset.cpp
@struct vmime::charset as Cs
@source src/vmime/wordEncoder.cpp
@struct vmime::wordEncoder as WEnc
@field WEnc.m_charset stru:Cs
@field WEnc.m_encoder stru:Enc
@field WEnc.m_encoding i32
@type .*(encoder::encoder|shared_ptr.*encoder).* = stru:Enc
@type .*charsetConverter.* = stru:Conv
@type .*inputStreamStringAdapter = stru:SIn
@obj Enc
@obj Conv
@ctor SIn 1 = sin_new ref
@ctor SIn 3 = sin_sub ref val val
@method vmime::utility::encoder::encoder::encode = enc_encode usize mut mut mut
@method vmime::charsetConverter::convert = conv_text void mut ref mut
@extern vmime::charsetConverter::create = conv_create stru:Conv ref ref
@extern vmime::utility::encoder::qpEncoder::RFC2047_getEncodedLength = q_len i32 val
@rust
pub struct SIn { pub d: Vec<u8> }
pub fn sin_new(s: &Vec<u8>) -> (r: SIn) ensures r.d@ == s@ { SIn { d: str_clone(s) } }
pub fn sin_sub(s: &Vec<u8>, a: usize, b: usize) -> (r: SIn) requires a <= b <= s.len() ensures r.d@ == s@.subrange(a as int, b as int) { SIn { d: str_substr(s, a, b - a) } }
pub struct Enc { pub kind: u8 }
pub fn Enc_isset(e: &Enc) -> (r: bool) ensures r == (e.kind != 0) { e.kind != 0 }
// the Base64 and Q encoders (their contracts are C01 and C02)
pub uninterp spec fn enc_of(kind: u8, s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn enc_encode(e: &mut Enc, i: &mut SIn, o: &mut Vec<u8>) -> (n: usize)
    requires old(o).len() == 0
    ensures final(o)@ == enc_of(old(e).kind, old(i).d@), final(e).kind == old(e).kind { unimplemented!() }
// charset conversion of one character
pub struct Conv { pub cs: Cs }
pub fn clone_Conv(c: &Conv) -> (r: Conv) ensures r.cs.m_name@ == c.cs.m_name@ { Conv { cs: Cs { m_name: str_clone(&c.cs.m_name) } } }
pub uninterp spec fn conv(cs: Seq<u8>, c: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn conv_create(a: &Cs, c: &Cs) -> (r: Conv) requires a.m_name@ == utf8_name() ensures r.cs.m_name@ == c.m_name@ { unimplemented!() }
#[verifier::external_body]
pub fn conv_text(e: &mut Conv, i: &Vec<u8>, o: &mut Vec<u8>) ensures final(o)@ == conv(old(e).cs.m_name@, i@), final(e).cs == old(e).cs { unimplemented!() }
#[verifier::external_body]
pub fn q_len(c: u8) -> (r: i32) ensures 1 <= r <= 3 { unimplemented!() }
pub open spec fn no_nul(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != 0 }
pub open spec fn utf8_name() -> Seq<u8> { seq![117u8, 116u8, 102u8, 45u8, 56u8] }
pub open spec fn extra(c: u8) -> int { if c < 192 { 0 } else if c < 224 { 1 } else if c < 240 { 2 } else if c < 248 { 3 } else if c < 252 { 4 } else { 5 } }
pub open spec fn u8len(s: Seq<u8>) -> int { if extra(s[0]) < s.len() { extra(s[0]) + 1 } else { 1 } }
// the characters of s from a to b, each one converted
#[verifier::opaque]
pub open spec fn converted(cs: Seq<u8>, s: Seq<u8>, a: int, b: int) -> Seq<u8> decreases b - a { if a < 0 || a >= b || b > s.len() || a + u8len(s.skip(a)) > b { Seq::empty() } else { conv(cs, s.subrange(a, a + u8len(s.skip(a)))) + converted(cs, s, a + u8len(s.skip(a)), b) } }
// from a, characters end at b
#[verifier::opaque]
pub open spec fn chars(s: Seq<u8>, a: int, b: int) -> bool decreases b - a { 0 <= a <= b <= s.len() && (a == b || (a + u8len(s.skip(a)) <= b && chars(s, a + u8len(s.skip(a)), b))) }
pub proof fn lemma_u8(s: Seq<u8>, a: int) requires 0 <= a < s.len() ensures 1 <= u8len(s.skip(a)) <= s.len() - a { }
pub proof fn lemma_chars_cat(cs: Seq<u8>, s: Seq<u8>, a: int, b: int, c: int) requires chars(s, a, b), chars(s, b, c) ensures chars(s, a, c), converted(cs, s, a, c) == converted(cs, s, a, b) + converted(cs, s, b, c) decreases b - a
{
    reveal(chars); reveal(converted);
    if a < b { let n = a + u8len(s.skip(a)); lemma_u8(s, a); lemma_le(s, b, c); lemma_chars_cat(cs, s, n, b, c); let x = conv(cs, s.subrange(a, n)); assert(x + (converted(cs, s, n, b) + converted(cs, s, b, c)) =~= (x + converted(cs, s, n, b)) + converted(cs, s, b, c)); assert(chars(s, b, c) ==> b <= c); lemma_le(s, n, b); }
    else { assert(Seq::<u8>::empty() + converted(cs, s, b, c) =~= converted(cs, s, b, c)); }
}
pub proof fn lemma_le(s: Seq<u8>, a: int, b: int) requires chars(s, a, b) ensures 0 <= a <= b <= s.len() { reveal(chars); }
pub proof fn lemma_char_next(cs: Seq<u8>, s: Seq<u8>, a: int, b: int) requires chars(s, a, b), b < s.len()
    ensures chars(s, a, b + u8len(s.skip(b))), converted(cs, s, a, b + u8len(s.skip(b))) == converted(cs, s, a, b) + conv(cs, s.subrange(b, b + u8len(s.skip(b))))
{
    let n = b + u8len(s.skip(b)); lemma_le(s, a, b); lemma_u8(s, b);
    assert(chars(s, b, n) && converted(cs, s, b, n) == conv(cs, s.subrange(b, n))) by { reveal_with_fuel(chars, 3); reveal_with_fuel(converted, 3); assert(conv(cs, s.subrange(b, n)) + Seq::<u8>::empty() =~= conv(cs, s.subrange(b, n))); }
    lemma_chars_cat(cs, s, a, b, n);
}
// what is encoded between two positions
pub open spec fn plain_of(w: WEnc, a: int, b: int) -> Seq<u8> { if w.m_simple { w.m_buffer@.subrange(a, b) } else { converted(w.m_charset.m_name@, w.m_buffer@, a, b) } }
pub open spec fn fits(m: usize) -> bool { m < 0x4000_0000_0000_0000 || m >= 0xffff_ffff_0000_0000 }
@source src/vmime/charset.cpp
@fn vmime::charset::charset ~void (const char *)~ as cs_ofz
@requires
    name_o == 0, no_nul(name@),
@ensures
    res.m_name@ == name@,
@hint start
    proof { lemma_cz_full(name@, 0); assert(name@.subrange(0, name.len() as int) =~= name@); }
@source src/vmime/wordEncoder.cpp
@fn vmime::getUTF8CharLength as u8_len
@requires
    pos < length, length == buffer.len(),
@ensures
    res == u8len(buffer@.skip(pos as int)), 1 <= res <= length - pos,
@fn vmime::wordEncoder::getNextChunk as next_chunk
@requires
    old(this).m_length == old(this).m_buffer.len(), old(this).m_pos <= old(this).m_length, old(this).m_length < 0x1fff_ffff_ffff_ffff, fits(maxLength),
@ensures
    final(this).m_buffer == old(this).m_buffer, final(this).m_length == old(this).m_length, final(this).m_simple == old(this).m_simple, final(this).m_charset == old(this).m_charset, final(this).m_encoding == old(this).m_encoding, final(this).m_encoder.kind == old(this).m_encoder.kind,
    old(this).m_pos <= final(this).m_pos <= old(this).m_length,
    old(this).m_pos == old(this).m_length ==> res.len() == 0,
    old(this).m_pos < old(this).m_length ==> final(this).m_pos > old(this).m_pos && res@ == enc_of(old(this).m_encoder.kind, plain_of(*old(this), old(this).m_pos as int, final(this).m_pos as int)),
    !old(this).m_simple ==> chars(old(this).m_buffer@, old(this).m_pos as int, final(this).m_pos as int),
@hint start
    let ghost p0 = this.m_pos as int; let ghost bf = this.m_buffer@; let ghost cs = this.m_charset.m_name@; let ghost mut ic0 = 0int;
    proof { reveal(chars); assert(chars(bf, p0, p0)); assert(converted(cs, bf, p0, p0) =~= Seq::<u8>::empty()) by { reveal(converted); } }
@loop 1 invariant
    inputCount <= remaining, remaining == this.m_length - this.m_pos, this.m_length == bf.len(), bf.len() < 0x1fff_ffff_ffff_ffff, remaining > 0, this.m_buffer@ == bf, outputCount > 0 ==> inputCount > 0,
@loop 1 decreases
    remaining - inputCount
@loop 2 invariant
    inputCount <= remaining, remaining == this.m_length - this.m_pos, this.m_length == bf.len(), bf.len() < 0x1fff_ffff_ffff_ffff, remaining > 0, this.m_buffer@ == bf, this.m_pos == p0,
    chars(bf, p0, p0 + inputCount), encodeBuffer@ == converted(cs, bf, p0, p0 + inputCount), conv.cs.m_name@ == cs,
@loop 2 decreases
    remaining - inputCount
@hint loop 2 begin
    proof { ic0 = inputCount as int; }
@hint after ~str_append\(&mut encodeBuffer~
    proof { lemma_char_next(cs, bf, p0, p0 + ic0); }
@loop 3 invariant
    i <= n, n == encodeBytes.len(),
@loop 3 decreases
    n - i
