#[verifier::opaque]
pub open spec fn md5_T(i: int) -> u32 { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 0xd76aa478u32 } else { 0xe8c7b756u32 } } else { if i < 3 { 0x242070dbu32 } else { 0xc1bdceeeu32 } } } else { if i < 6 { if i < 5 { 0xf57c0fafu32 } else { 0x4787c62au32 } } else { if i < 7 { 0xa8304613u32 } else { 0xfd469501u32 } } } } else { if i < 12 { if i < 10 { if i < 9 { 0x698098d8u32 } else { 0x8b44f7afu32 } } else { if i < 11 { 0xffff5bb1u32 } else { 0x895cd7beu32 } } } else { if i < 14 { if i < 13 { 0x6b901122u32 } else { 0xfd987193u32 } } else { if i < 15 { 0xa679438eu32 } else { 0x49b40821u32 } } } } } else { if i < 24 { if i < 20 { if i < 18 { if i < 17 { 0xf61e2562u32 } else { 0xc040b340u32 } } else { if i < 19 { 0x265e5a51u32 } else { 0xe9b6c7aau32 } } } else { if i < 22 { if i < 21 { 0xd62f105du32 } else { 0x2441453u32 } } else { if i < 23 { 0xd8a1e681u32 } else { 0xe7d3fbc8u32 } } } } else { if i < 28 { if i < 26 { if i < 25 { 0x21e1cde6u32 } else { 0xc33707d6u32 } } else { if i < 27 { 0xf4d50d87u32 } else { 0x455a14edu32 } } } else { if i < 30 { if i < 29 { 0xa9e3e905u32 } else { 0xfcefa3f8u32 } } else { if i < 31 { 0x676f02d9u32 } else { 0x8d2a4c8au32 } } } } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { 0xfffa3942u32 } else { 0x8771f681u32 } } else { if i < 35 { 0x6d9d6122u32 } else { 0xfde5380cu32 } } } else { if i < 38 { if i < 37 { 0xa4beea44u32 } else { 0x4bdecfa9u32 } } else { if i < 39 { 0xf6bb4b60u32 } else { 0xbebfbc70u32 } } } } else { if i < 44 { if i < 42 { if i < 41 { 0x289b7ec6u32 } else { 0xeaa127fau32 } } else { if i < 43 { 0xd4ef3085u32 } else { 0x4881d05u32 } } } else { if i < 46 { if i < 45 { 0xd9d4d039u32 } else { 0xe6db99e5u32 } } else { if i < 47 { 0x1fa27cf8u32 } else { 0xc4ac5665u32 } } } } } else { if i < 56 { if i < 52 { if i < 50 { if i < 49 { 0xf4292244u32 } else { 0x432aff97u32 } } else { if i < 51 { 0xab9423a7u32 } else { 0xfc93a039u32 } } } else { if i < 54 { if i < 53 { 0x655b59c3u32 } else { 0x8f0ccc92u32 } } else { if i < 55 { 0xffeff47du32 } else { 0x85845dd1u32 } } } } else { if i < 60 { if i < 58 { if i < 57 { 0x6fa87e4fu32 } else { 0xfe2ce6e0u32 } } else { if i < 59 { 0xa3014314u32 } else { 0x4e0811a1u32 } } } else { if i < 62 { if i < 61 { 0xf7537e82u32 } else { 0xbd3af235u32 } } else { if i < 63 { 0x2ad7d2bbu32 } else { 0xeb86d391u32 } } } } } } }
// RFC 1321 3.4; the round functions, the word order and the shift amounts
pub open spec fn md5_F(i: int, x: u32, y: u32, z: u32) -> u32 {
    if i < 16 { (x & y) | (!x & z) } else if i < 32 { (x & z) | (y & !z) } else if i < 48 { x ^ y ^ z } else { y ^ (x | !z) }
}
#[verifier::opaque]
pub open spec fn md5_K(i: int) -> int { if i < 16 { i } else if i < 32 { (5 * i + 1) % 16 } else if i < 48 { (3 * i + 5) % 16 } else { (7 * i) % 16 } }
#[verifier::opaque]
pub open spec fn md5_S(i: int) -> u32 { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 7u32 } else { 12u32 } } else { if i < 3 { 17u32 } else { 22u32 } } } else { if i < 6 { if i < 5 { 7u32 } else { 12u32 } } else { if i < 7 { 17u32 } else { 22u32 } } } } else { if i < 12 { if i < 10 { if i < 9 { 7u32 } else { 12u32 } } else { if i < 11 { 17u32 } else { 22u32 } } } else { if i < 14 { if i < 13 { 7u32 } else { 12u32 } } else { if i < 15 { 17u32 } else { 22u32 } } } } } else { if i < 24 { if i < 20 { if i < 18 { if i < 17 { 5u32 } else { 9u32 } } else { if i < 19 { 14u32 } else { 20u32 } } } else { if i < 22 { if i < 21 { 5u32 } else { 9u32 } } else { if i < 23 { 14u32 } else { 20u32 } } } } else { if i < 28 { if i < 26 { if i < 25 { 5u32 } else { 9u32 } } else { if i < 27 { 14u32 } else { 20u32 } } } else { if i < 30 { if i < 29 { 5u32 } else { 9u32 } } else { if i < 31 { 14u32 } else { 20u32 } } } } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { 4u32 } else { 11u32 } } else { if i < 35 { 16u32 } else { 23u32 } } } else { if i < 38 { if i < 37 { 4u32 } else { 11u32 } } else { if i < 39 { 16u32 } else { 23u32 } } } } else { if i < 44 { if i < 42 { if i < 41 { 4u32 } else { 11u32 } } else { if i < 43 { 16u32 } else { 23u32 } } } else { if i < 46 { if i < 45 { 4u32 } else { 11u32 } } else { if i < 47 { 16u32 } else { 23u32 } } } } } else { if i < 56 { if i < 52 { if i < 50 { if i < 49 { 6u32 } else { 10u32 } } else { if i < 51 { 15u32 } else { 21u32 } } } else { if i < 54 { if i < 53 { 6u32 } else { 10u32 } } else { if i < 55 { 15u32 } else { 21u32 } } } } else { if i < 60 { if i < 58 { if i < 57 { 6u32 } else { 10u32 } } else { if i < 59 { 15u32 } else { 21u32 } } } else { if i < 62 { if i < 61 { 6u32 } else { 10u32 } } else { if i < 63 { 15u32 } else { 21u32 } } } } } } }
pub struct St { pub a: u32, pub b: u32, pub c: u32, pub d: u32 }
pub open spec fn md5_new(i: int, s: St, m: u32) -> u32 {
    add32(rotl(add32(s.a, add32(add32(md5_F(i, s.b, s.c, s.d), m), md5_T(i))), md5_S(i)), s.b)
}
// the registers after i operations, rotated so that b is the one just computed
#[verifier::opaque]
pub open spec fn md5_ops(i: int, s: St, m: Seq<u8>) -> St decreases i {
    if i <= 0 { s } else { let p = md5_ops(i - 1, s, m); St { a: p.d, b: md5_new(i - 1, p, le32(m, md5_K(i - 1))), c: p.b, d: p.c } }
}
pub open spec fn md5_block(h: St, m: Seq<u8>) -> St {
    let r = md5_ops(64, h, m);
    St { a: add32(h.a, r.a), b: add32(h.b, r.b), c: add32(h.c, r.c), d: add32(h.d, r.d) }
}
#[verifier::opaque]
pub open spec fn md5_blocks(h: St, m: Seq<u8>) -> St decreases m.len() {
    if m.len() < 64 { h } else { md5_blocks(md5_block(h, m.subrange(0, 64)), m.subrange(64, m.len() as int)) }
}
pub open spec fn md5_iv() -> St { St { a: 0x67452301, b: 0xefcdab89, c: 0x98badcfe, d: 0x10325476 } }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |k: int| 0u8) }
// bit length of the message, 64 bits, low word first (RFC 1321 3.2)
pub open spec fn md5_len(n: int) -> Seq<u8> { le_bytes(((8 * n) % 4294967296) as u32) + le_bytes(((8 * n / 4294967296) % 4294967296) as u32) }
pub open spec fn md5_padlen(n: int) -> int { let r = n % 64; if r < 56 { 55 - r } else { 119 - r } }
pub open spec fn md5_pad(n: int) -> Seq<u8> { seq![0x80u8] + zeros(md5_padlen(n)) + md5_len(n) }
// RFC 1321: the digest of a message
pub open spec fn md5(m: Seq<u8>) -> St { md5_blocks(md5_iv(), m + md5_pad(m.len() as int)) }
// the object: hash over the complete blocks, rest of the data in the block
pub open spec fn h_of(t: &MD5) -> St { St { a: t.m_hash@[0], b: t.m_hash@[1], c: t.m_hash@[2], d: t.m_hash@[3] } }
pub open spec fn m_wf(t: &MD5) -> bool { t.m_hash.len() == 4 && t.m_block.len() == 64 }
pub open spec fn pend(t: &MD5) -> Seq<u8> { t.m_block@.subrange(0, (t.m_byteCount & 63) as int) }
pub open spec fn holds(t: &MD5, m: Seq<u8>) -> bool {
    m_wf(t) && m.len() <= usize::MAX && t.m_byteCount as int == m.len() && h_of(t) == md5_blocks(md5_iv(), m)
    && pend(t) == m.subrange(m.len() - m.len() % 64, m.len() as int)
}
pub proof fn lemma_and63(n: usize) ensures (n & 63) as int == n as int % 64, (n & 63) < 64 { assert(n & 63 == n % 64) by(bit_vector); }

pub proof fn lemma_f1(x: u32, y: u32, z: u32) ensures (z ^ (x & (y ^ z))) == ((x & y) | (!x & z)) { assert((z ^ (x & (y ^ z))) == ((x & y) | (!x & z))) by(bit_vector); }
pub proof fn lemma_f2(x: u32, y: u32, z: u32) ensures (y ^ (z & (x ^ y))) == ((x & z) | (y & !z)) { assert((y ^ (z & (x ^ y))) == ((x & z) | (y & !z))) by(bit_vector); }
#[verifier::spinoff_prover]
pub proof fn lemma_op1(i: int, h: St, m: Seq<u8>, k: int, t: u32, sh: u32, mid: u32, new: u32)
    requires 0 <= i < 16, k == md5_K(i), t == md5_T(i), sh == md5_S(i),
        ({ let s = md5_ops(i, h, m); mid == add32(s.a, add32(add32((s.d ^ (s.b & (s.c ^ s.d))), le32(m, k)), t)) && new == add32((mid << sh) | (mid >> ((32 - sh) as u32)), s.b) }),
    ensures ({ let s = md5_ops(i, h, m); md5_ops(i + 1, h, m) == (St { a: s.d, b: new, c: s.b, d: s.c }) })
{ reveal_with_fuel(md5_ops, 2); reveal(rotl); let s = md5_ops(i, h, m); lemma_f1(s.b, s.c, s.d); }
#[verifier::spinoff_prover]
pub proof fn lemma_op2(i: int, h: St, m: Seq<u8>, k: int, t: u32, sh: u32, mid: u32, new: u32)
    requires 16 <= i < 32, k == md5_K(i), t == md5_T(i), sh == md5_S(i),
        ({ let s = md5_ops(i, h, m); mid == add32(s.a, add32(add32((s.c ^ (s.d & (s.b ^ s.c))), le32(m, k)), t)) && new == add32((mid << sh) | (mid >> ((32 - sh) as u32)), s.b) }),
    ensures ({ let s = md5_ops(i, h, m); md5_ops(i + 1, h, m) == (St { a: s.d, b: new, c: s.b, d: s.c }) })
{ reveal_with_fuel(md5_ops, 2); reveal(rotl); let s = md5_ops(i, h, m); lemma_f2(s.b, s.c, s.d); }
#[verifier::spinoff_prover]
pub proof fn lemma_op3(i: int, h: St, m: Seq<u8>, k: int, t: u32, sh: u32, mid: u32, new: u32)
    requires 32 <= i < 48, k == md5_K(i), t == md5_T(i), sh == md5_S(i),
        ({ let s = md5_ops(i, h, m); mid == add32(s.a, add32(add32((s.b ^ s.c ^ s.d), le32(m, k)), t)) && new == add32((mid << sh) | (mid >> ((32 - sh) as u32)), s.b) }),
    ensures ({ let s = md5_ops(i, h, m); md5_ops(i + 1, h, m) == (St { a: s.d, b: new, c: s.b, d: s.c }) })
{ reveal_with_fuel(md5_ops, 2); reveal(rotl); let s = md5_ops(i, h, m);  }
#[verifier::spinoff_prover]
pub proof fn lemma_op4(i: int, h: St, m: Seq<u8>, k: int, t: u32, sh: u32, mid: u32, new: u32)
    requires 48 <= i < 64, k == md5_K(i), t == md5_T(i), sh == md5_S(i),
        ({ let s = md5_ops(i, h, m); mid == add32(s.a, add32(add32((s.c ^ (s.b | !s.d)), le32(m, k)), t)) && new == add32((mid << sh) | (mid >> ((32 - sh) as u32)), s.b) }),
    ensures ({ let s = md5_ops(i, h, m); md5_ops(i + 1, h, m) == (St { a: s.d, b: new, c: s.b, d: s.c }) })
{ reveal_with_fuel(md5_ops, 2); reveal(rotl); let s = md5_ops(i, h, m);  }
pub proof fn lemma_blocks_cat(h: St, x: Seq<u8>, y: Seq<u8>)
    requires x.len() % 64 == 0
    ensures md5_blocks(h, x + y) == md5_blocks(md5_blocks(h, x), y)
    decreases x.len()
{
    reveal_with_fuel(md5_blocks, 2);
    if x.len() == 0 { assert(x + y =~= y); }
    else {
        let x2 = x.subrange(64, x.len() as int);
        assert((x + y).subrange(0, 64) =~= x.subrange(0, 64));
        assert((x + y).subrange(64, (x + y).len() as int) =~= x2 + y);
        lemma_blocks_cat(md5_block(h, x.subrange(0, 64)), x2, y);
    }
}
pub proof fn lemma_blocks_short(h: St, x: Seq<u8>) requires x.len() < 64 ensures md5_blocks(h, x) == h { reveal_with_fuel(md5_blocks, 1); }
pub proof fn lemma_blocks_one(h: St, x: Seq<u8>) requires x.len() == 64 ensures md5_blocks(h, x) == md5_block(h, x)
{ reveal_with_fuel(md5_blocks, 2); assert(x.subrange(0, 64) =~= x); }
// only the complete blocks count
pub proof fn lemma_blocks_floor(h: St, x: Seq<u8>)
    ensures md5_blocks(h, x) == md5_blocks(h, x.subrange(0, x.len() - x.len() % 64))
{
    let n = x.len() as int; let f = n - n % 64;
    lemma_blocks_cat(h, x.subrange(0, f), x.subrange(f, n));
    assert(x.subrange(0, f) + x.subrange(f, n) =~= x);
    lemma_blocks_short(md5_blocks(h, x.subrange(0, f)), x.subrange(f, n));
}

#[verifier::spinoff_prover]
pub proof fn lemma_tab() ensures md5_T(0) == 0xd76aa478u32, md5_K(0) == 0, md5_S(0) == 7u32, md5_T(1) == 0xe8c7b756u32, md5_K(1) == 1, md5_S(1) == 12u32, md5_T(2) == 0x242070dbu32, md5_K(2) == 2, md5_S(2) == 17u32, md5_T(3) == 0xc1bdceeeu32, md5_K(3) == 3, md5_S(3) == 22u32, md5_T(4) == 0xf57c0fafu32, md5_K(4) == 4, md5_S(4) == 7u32, md5_T(5) == 0x4787c62au32, md5_K(5) == 5, md5_S(5) == 12u32, md5_T(6) == 0xa8304613u32, md5_K(6) == 6, md5_S(6) == 17u32, md5_T(7) == 0xfd469501u32, md5_K(7) == 7, md5_S(7) == 22u32, md5_T(8) == 0x698098d8u32, md5_K(8) == 8, md5_S(8) == 7u32, md5_T(9) == 0x8b44f7afu32, md5_K(9) == 9, md5_S(9) == 12u32, md5_T(10) == 0xffff5bb1u32, md5_K(10) == 10, md5_S(10) == 17u32, md5_T(11) == 0x895cd7beu32, md5_K(11) == 11, md5_S(11) == 22u32, md5_T(12) == 0x6b901122u32, md5_K(12) == 12, md5_S(12) == 7u32, md5_T(13) == 0xfd987193u32, md5_K(13) == 13, md5_S(13) == 12u32, md5_T(14) == 0xa679438eu32, md5_K(14) == 14, md5_S(14) == 17u32, md5_T(15) == 0x49b40821u32, md5_K(15) == 15, md5_S(15) == 22u32, md5_T(16) == 0xf61e2562u32, md5_K(16) == 1, md5_S(16) == 5u32, md5_T(17) == 0xc040b340u32, md5_K(17) == 6, md5_S(17) == 9u32, md5_T(18) == 0x265e5a51u32, md5_K(18) == 11, md5_S(18) == 14u32, md5_T(19) == 0xe9b6c7aau32, md5_K(19) == 0, md5_S(19) == 20u32, md5_T(20) == 0xd62f105du32, md5_K(20) == 5, md5_S(20) == 5u32, md5_T(21) == 0x2441453u32, md5_K(21) == 10, md5_S(21) == 9u32, md5_T(22) == 0xd8a1e681u32, md5_K(22) == 15, md5_S(22) == 14u32, md5_T(23) == 0xe7d3fbc8u32, md5_K(23) == 4, md5_S(23) == 20u32, md5_T(24) == 0x21e1cde6u32, md5_K(24) == 9, md5_S(24) == 5u32, md5_T(25) == 0xc33707d6u32, md5_K(25) == 14, md5_S(25) == 9u32, md5_T(26) == 0xf4d50d87u32, md5_K(26) == 3, md5_S(26) == 14u32, md5_T(27) == 0x455a14edu32, md5_K(27) == 8, md5_S(27) == 20u32, md5_T(28) == 0xa9e3e905u32, md5_K(28) == 13, md5_S(28) == 5u32, md5_T(29) == 0xfcefa3f8u32, md5_K(29) == 2, md5_S(29) == 9u32, md5_T(30) == 0x676f02d9u32, md5_K(30) == 7, md5_S(30) == 14u32, md5_T(31) == 0x8d2a4c8au32, md5_K(31) == 12, md5_S(31) == 20u32, md5_T(32) == 0xfffa3942u32, md5_K(32) == 5, md5_S(32) == 4u32, md5_T(33) == 0x8771f681u32, md5_K(33) == 8, md5_S(33) == 11u32, md5_T(34) == 0x6d9d6122u32, md5_K(34) == 11, md5_S(34) == 16u32, md5_T(35) == 0xfde5380cu32, md5_K(35) == 14, md5_S(35) == 23u32, md5_T(36) == 0xa4beea44u32, md5_K(36) == 1, md5_S(36) == 4u32, md5_T(37) == 0x4bdecfa9u32, md5_K(37) == 4, md5_S(37) == 11u32, md5_T(38) == 0xf6bb4b60u32, md5_K(38) == 7, md5_S(38) == 16u32, md5_T(39) == 0xbebfbc70u32, md5_K(39) == 10, md5_S(39) == 23u32, md5_T(40) == 0x289b7ec6u32, md5_K(40) == 13, md5_S(40) == 4u32, md5_T(41) == 0xeaa127fau32, md5_K(41) == 0, md5_S(41) == 11u32, md5_T(42) == 0xd4ef3085u32, md5_K(42) == 3, md5_S(42) == 16u32, md5_T(43) == 0x4881d05u32, md5_K(43) == 6, md5_S(43) == 23u32, md5_T(44) == 0xd9d4d039u32, md5_K(44) == 9, md5_S(44) == 4u32, md5_T(45) == 0xe6db99e5u32, md5_K(45) == 12, md5_S(45) == 11u32, md5_T(46) == 0x1fa27cf8u32, md5_K(46) == 15, md5_S(46) == 16u32, md5_T(47) == 0xc4ac5665u32, md5_K(47) == 2, md5_S(47) == 23u32, md5_T(48) == 0xf4292244u32, md5_K(48) == 0, md5_S(48) == 6u32, md5_T(49) == 0x432aff97u32, md5_K(49) == 7, md5_S(49) == 10u32, md5_T(50) == 0xab9423a7u32, md5_K(50) == 14, md5_S(50) == 15u32, md5_T(51) == 0xfc93a039u32, md5_K(51) == 5, md5_S(51) == 21u32, md5_T(52) == 0x655b59c3u32, md5_K(52) == 12, md5_S(52) == 6u32, md5_T(53) == 0x8f0ccc92u32, md5_K(53) == 3, md5_S(53) == 10u32, md5_T(54) == 0xffeff47du32, md5_K(54) == 10, md5_S(54) == 15u32, md5_T(55) == 0x85845dd1u32, md5_K(55) == 1, md5_S(55) == 21u32, md5_T(56) == 0x6fa87e4fu32, md5_K(56) == 8, md5_S(56) == 6u32, md5_T(57) == 0xfe2ce6e0u32, md5_K(57) == 15, md5_S(57) == 10u32, md5_T(58) == 0xa3014314u32, md5_K(58) == 6, md5_S(58) == 15u32, md5_T(59) == 0x4e0811a1u32, md5_K(59) == 13, md5_S(59) == 21u32, md5_T(60) == 0xf7537e82u32, md5_K(60) == 4, md5_S(60) == 6u32, md5_T(61) == 0xbd3af235u32, md5_K(61) == 11, md5_S(61) == 10u32, md5_T(62) == 0x2ad7d2bbu32, md5_K(62) == 2, md5_S(62) == 15u32, md5_T(63) == 0xeb86d391u32, md5_K(63) == 9, md5_S(63) == 21u32
{ reveal(md5_T); reveal(md5_K); reveal(md5_S); }
