// ---- percent-encoding (RFC 3986), independent of the source
pub open spec fn url_reserved(c: u8) -> bool {
    c == 36 || c == 38 || c == 43 || c == 44 || c == 47 || c == 58 || c == 59 || c == 61 || c == 63 || c == 64
    || c == 60 || c == 62 || c == 35 || c == 37 || c == 123 || c == 125 || c == 91 || c == 93 || c == 124 || c == 92 || c == 94 || c == 34 || c == 126 || c == 96
}
pub open spec fn url_plain(c: u8) -> bool { 33 <= c <= 126 && !url_reserved(c) }
pub open spec fn hexu(v: int) -> u8 { if v < 10 { (48 + v) as u8 } else { (55 + v) as u8 } }
pub open spec fn is_hex(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 70 || 97 <= c <= 102 }
pub open spec fn hexv(c: u8) -> int { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
pub open spec fn enc1(c: u8) -> Seq<u8> { if url_plain(c) { seq![c] } else { seq![37u8, hexu(c as int / 16), hexu(c as int % 16)] } }
#[verifier::opaque]
pub open spec fn uenc(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { e0() } else { uenc(s.drop_last()) + enc1(s.last()) } }
pub open spec fn from(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(i, s.len() as int) }
#[verifier::opaque]
pub open spec fn dec_ok(s: Seq<u8>) -> bool decreases s.len() {
    if s.len() == 0 { true } else if s[0] == 37 { s.len() >= 3 && is_hex(s[1]) && is_hex(s[2]) && dec_ok(from(s, 3)) } else { dec_ok(from(s, 1)) }
}
#[verifier::opaque]
pub open spec fn udec(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { e0() } else if s[0] == 37 && s.len() >= 3 { seq![(hexv(s[1]) * 16 + hexv(s[2])) as u8] + udec(from(s, 3)) } else { seq![s[0]] + udec(from(s, 1)) }
}
pub proof fn lemma_enc_take(s: Seq<u8>, i: int) requires 0 <= i < s.len() ensures uenc(s.take(i + 1)) == uenc(s.take(i)) + enc1(s[i]), uenc(e0()) == e0(), s.take(0) == e0(), s.take(s.len() as int) == s
{ reveal(uenc); assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); assert(s.take(0) =~= e0()); assert(s.take(s.len() as int) =~= s); }
pub proof fn lemma_dec_app(a: Seq<u8>, b: Seq<u8>) requires dec_ok(a) ensures udec(a + b) == udec(a) + udec(b), dec_ok(a + b) == dec_ok(b) decreases a.len()
{
    reveal(udec); reveal(dec_ok);
    if a.len() == 0 { assert(a + b =~= b); lemma_nil(udec(b)); assert(udec(a) =~= e0()); }
    else {
        let n = if a[0] == 37 { 3int } else { 1int };
        assert((a + b)[0] == a[0]);
        if n == 3 { assert((a + b)[1] == a[1] && (a + b)[2] == a[2]); }
        assert(from(a + b, n) =~= from(a, n) + b);
        lemma_dec_app(from(a, n), b);
        let h = if n == 3 { seq![(hexv(a[1]) * 16 + hexv(a[2])) as u8] } else { seq![a[0]] };
        assert(h + (udec(from(a, n)) + udec(b)) =~= (h + udec(from(a, n))) + udec(b));
    }
}
// PROPERTY (C12): percent-encoding is undone by decoding, for every byte string ...
pub proof fn property_url_decode_encode(s: Seq<u8>) ensures dec_ok(uenc(s)), udec(uenc(s)) == s decreases s.len()
{
    reveal(uenc);
    if s.len() == 0 { reveal(udec); reveal(dec_ok); assert(s =~= e0()); }
    else {
        let a = s.drop_last(); let c = s.last(); let e = enc1(c);
        property_url_decode_encode(a);
        assert(dec_ok(e) && udec(e) == seq![c]) by {
            reveal_with_fuel(udec, 3); reveal_with_fuel(dec_ok, 3);
            assert(c as int / 16 < 16 && c as int % 16 < 16 && (c as int / 16) * 16 + c as int % 16 == c);
            if url_plain(c) { assert(from(e, 1) =~= e0()); } else { assert(from(e, 3) =~= e0()); }
            lemma_nil(seq![c]);
        }
        lemma_dec_app(uenc(a), e);
        assert(a + seq![c] =~= s);
    }
}
// ... and the encoded text has none of the characters that delimit the parts of a URL
pub open spec fn enc_ch(c: u8) -> bool { c == 37 || url_plain(c) }
pub open spec fn all_enc(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> enc_ch(#[trigger] s[k]) }
pub proof fn property_url_charset(s: Seq<u8>) ensures all_enc(uenc(s)), s.len() > 0 ==> uenc(s).len() > 0 decreases s.len()
{
    reveal(uenc);
    if s.len() > 0 {
        property_url_charset(s.drop_last());
        let a = uenc(s.drop_last()); let e = enc1(s.last());
        assert(s.last() as int / 16 < 16 && s.last() as int % 16 < 16);
        assert forall|k: int| 0 <= k < uenc(s).len() implies enc_ch(#[trigger] uenc(s)[k]) by {
            if k < a.len() { assert(uenc(s)[k] == a[k]); } else { assert(uenc(s)[k] == e[k - a.len()]); }
        }
    }
}
pub proof fn lemma_dec_plain(s: Seq<u8>) requires forall|k: int| 0 <= k < s.len() ==> s[k] != 37 ensures dec_ok(s), udec(s) == s decreases s.len()
{ reveal(udec); reveal(dec_ok); if s.len() > 0 { lemma_dec_plain(from(s, 1)); assert(seq![s[0]] + from(s, 1) =~= s); } else { assert(s =~= e0()); } }
pub open spec fn v6ch(c: u8) -> bool { is_hex(c) || c == 58 }
pub open spec fn is_v6(s: Seq<u8>) -> bool { (forall|k: int| 0 <= k < s.len() ==> v6ch(#[trigger] s[k])) && exists|k: int| 0 <= k < s.len() && s[k] == 58 }
pub open spec fn enc_host(s: Seq<u8>) -> Seq<u8> { if is_v6(s) { seq![91u8] + s + seq![93u8] } else { uenc(s) } }
pub open spec fn is_sp(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 13 }
pub open spec fn no_sp(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> !is_sp(#[trigger] s[k]) }
