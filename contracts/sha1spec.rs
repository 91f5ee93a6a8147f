pub open spec fn be32(b: Seq<u8>, i: int) -> u32 { ((b[4 * i] as u32) << 24) | ((b[4 * i + 1] as u32) << 16) | ((b[4 * i + 2] as u32) << 8) | (b[4 * i + 3] as u32) }
pub open spec fn be_bytes(x: u32) -> Seq<u8> { seq![((x >> 24u32) & 0xff) as u8, ((x >> 16u32) & 0xff) as u8, ((x >> 8u32) & 0xff) as u8, ((x >> 0u32) & 0xff) as u8] }
// FIPS 180 6.1: message schedule
#[verifier::opaque]
pub open spec fn sha_W(m: Seq<u8>, i: int) -> u32 decreases i {
    if i < 16 { be32(m, i) } else { rotl(sha_W(m, i - 3) ^ sha_W(m, i - 8) ^ sha_W(m, i - 14) ^ sha_W(m, i - 16), 1) }
}
pub open spec fn sha_f(i: int, b: u32, c: u32, d: u32) -> u32 {
    if i < 20 { (b & c) | (!b & d) } else if i < 40 { b ^ c ^ d } else if i < 60 { (b & c) ^ (b & d) ^ (c & d) } else { b ^ c ^ d }
}
pub open spec fn sha_K(i: int) -> u32 { if i < 20 { 0x5a827999 } else if i < 40 { 0x6ed9eba1 } else if i < 60 { 0x8f1bbcdc } else { 0xca62c1d6 } }
pub struct S5 { pub a: u32, pub b: u32, pub c: u32, pub d: u32, pub e: u32 }
#[verifier::opaque]
pub open spec fn sha_ops(i: int, s: S5, m: Seq<u8>) -> S5 decreases i {
    if i <= 0 { s } else {
        let p = sha_ops(i - 1, s, m);
        S5 { a: add32(p.e, add32(add32(add32(sha_f(i - 1, p.b, p.c, p.d), sha_W(m, i - 1)), sha_K(i - 1)), rotl(p.a, 5))), b: p.a, c: rotl(p.b, 30), d: p.c, e: p.d }
    }
}
pub open spec fn sha_block(h: S5, m: Seq<u8>) -> S5 {
    let r = sha_ops(80, h, m);
    S5 { a: add32(h.a, r.a), b: add32(h.b, r.b), c: add32(h.c, r.c), d: add32(h.d, r.d), e: add32(h.e, r.e) }
}
#[verifier::opaque]
pub open spec fn sha_blocks(h: S5, m: Seq<u8>) -> S5 decreases m.len() {
    if m.len() < 64 { h } else { sha_blocks(sha_block(h, m.subrange(0, 64)), m.subrange(64, m.len() as int)) }
}
pub open spec fn sha_iv() -> S5 { S5 { a: 0x67452301, b: 0xefcdab89, c: 0x98badcfe, d: 0x10325476, e: 0xc3d2e1f0 } }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |k: int| 0u8) }
pub open spec fn two64() -> int { 0x1_0000_0000_0000_0000 }
// bit length, 64 bits, high word first
pub open spec fn sha_len(bits: int) -> Seq<u8> { be_bytes(((bits / 4294967296) % 4294967296) as u32) + be_bytes((bits % 4294967296) as u32) }
pub open spec fn sha_padlen(n: int) -> int { let r = n % 64; if r < 56 { 55 - r } else { 119 - r } }
pub open spec fn sha_pad(n: int) -> Seq<u8> { seq![0x80u8] + zeros(sha_padlen(n)) + sha_len(8 * n) }
pub open spec fn sha_out(s: S5) -> Seq<u8> { be_bytes(s.a) + be_bytes(s.b) + be_bytes(s.c) + be_bytes(s.d) + be_bytes(s.e) }
// FIPS 180-4: the digest of a message
pub open spec fn sha1(m: Seq<u8>) -> Seq<u8> { sha_out(sha_blocks(sha_iv(), m + sha_pad(m.len() as int))) }

pub open spec fn st5(a: Seq<u32>) -> S5 { S5 { a: a[0], b: a[1], c: a[2], d: a[3], e: a[4] } }
pub open spec fn h_of(t: &SHA1) -> S5 { st5(t.m_state@) }
pub open spec fn m_wf(t: &SHA1) -> bool { t.m_state.len() == 5 && t.m_count.len() == 2 && t.m_buffer.len() == 64 && t.m_digest.len() == 20 }
pub open spec fn bits(t: &SHA1) -> int { t.m_count@[0] as int + 4294967296 * (t.m_count@[1] as int) }
#[verifier::opaque]
pub open spec fn fillb(b: int) -> int { (b / 8) % 64 }
pub open spec fn fill(t: &SHA1) -> int { fillb(bits(t)) }
pub open spec fn pend(t: &SHA1) -> Seq<u8> { t.m_buffer@.subrange(0, fill(t)) }
pub open spec fn rest(b: Seq<u8>) -> Seq<u8> { b.subrange(b.len() - b.len() % 64, b.len() as int) }
pub open spec fn holds(t: &SHA1, m: Seq<u8>) -> bool {
    m_wf(t) && m.len() <= usize::MAX && bits(t) == (8 * (m.len() as int)) % two64() && h_of(t) == sha_blocks(sha_iv(), m) && pend(t) == rest(m)
}
// what an update does to the object
pub open spec fn upd(a: &SHA1, b: &SHA1, d: Seq<u8>) -> bool {
    m_wf(a) && m_wf(b) && bits(b) == (bits(a) + 8 * (d.len() as int)) % two64()
    && h_of(b) == sha_blocks(h_of(a), pend(a) + d) && pend(b) == rest(pend(a) + d)
}
// memory view of the schedule: slot j holds the last word of index = j modulo 16, or still the message
pub open spec fn latest(i: int, j: int) -> int { j + 16 * ((i - 1 - j) / 16) }
#[verifier::opaque]
pub open spec fn ring(i: int, m: Seq<u8>, b: Seq<u8>) -> bool {
    b.len() == 64 && forall|j: int| 0 <= j < 16 ==> #[trigger] le32(b, j) == (if j < i { sha_W(m, latest(i, j)) } else { le32(m, j) })
}
pub proof fn lemma_ring0(m: Seq<u8>) requires m.len() == 64 ensures ring(0, m, m) { reveal(ring); }
pub proof fn lemma_blk0(i: int, m: Seq<u8>, b: Seq<u8>)
    requires 0 <= i < 16, ring(i, m, b), m.len() == 64
    ensures ({ let l = le32(b, i); ((((l << 24u32) | (l >> 8u32)) & 0xff00ff00u32) | (((l << 8u32) | (l >> 24u32)) & 0x00ff00ffu32)) == sha_W(m, i) })
{
    reveal(ring); reveal_with_fuel(sha_W, 1); reveal(le32);
    let (p, q, r, s) = (m[4 * i], m[4 * i + 1], m[4 * i + 2], m[4 * i + 3]);
    let l = (p as u32) | ((q as u32) << 8) | ((r as u32) << 16) | ((s as u32) << 24);
    assert(le32(b, i) == l);
    assert(((((l << 24u32) | (l >> 8u32)) & 0xff00ff00u32) | (((l << 8u32) | (l >> 24u32)) & 0x00ff00ffu32)) == (((p as u32) << 24) | ((q as u32) << 16) | ((r as u32) << 8) | (s as u32))) by(bit_vector)
        requires l == (p as u32) | ((q as u32) << 8) | ((r as u32) << 16) | ((s as u32) << 24);
}
pub proof fn lemma_blk(i: int, m: Seq<u8>, b: Seq<u8>, s0: int, s1: int, s2: int, s3: int)
    requires 16 <= i < 80, ring(i, m, b), s0 == (i - 3) % 16, s1 == (i - 8) % 16, s2 == (i - 14) % 16, s3 == i % 16
    ensures ({ let x = le32(b, s0) ^ le32(b, s1) ^ le32(b, s2) ^ le32(b, s3); ((x << 1u32) | (x >> 31u32)) == sha_W(m, i) })
{
    reveal(ring); reveal_with_fuel(sha_W, 2); reveal(rotl);
    assert(latest(i, s0) == i - 3); assert(latest(i, s1) == i - 8); assert(latest(i, s2) == i - 14); assert(latest(i, s3) == i - 16);
}
pub proof fn lemma_ring(i: int, m: Seq<u8>, b: Seq<u8>, c: Seq<u8>, s: int)
    requires 0 <= i < 80, s == i % 16, ring(i, m, b), c.len() == 64, le32(c, s) == sha_W(m, i), forall|j: int| 0 <= j && j != s && 4 * j + 3 < 64 ==> #[trigger] le32(c, j) == le32(b, j)
    ensures ring(i + 1, m, c)
{
    reveal(ring);
    assert forall|j: int| 0 <= j < 16 implies #[trigger] le32(c, j) == (if j < i + 1 { sha_W(m, latest(i + 1, j)) } else { le32(m, j) }) by {
        assert(le32(b, j) == (if j < i { sha_W(m, latest(i, j)) } else { le32(m, j) }));
        if j == s { assert(latest(i + 1, j) == i); } else if j < i { assert(latest(i + 1, j) == latest(i, j)); }
    }
}
pub proof fn lemma_ch(x: u32, y: u32, z: u32) ensures ((x & (y ^ z)) ^ z) == ((x & y) | (!x & z)) { assert(((x & (y ^ z)) ^ z) == ((x & y) | (!x & z))) by(bit_vector); }
pub proof fn lemma_maj(x: u32, y: u32, z: u32) ensures (((x | y) & z) | (x & y)) == ((x & y) ^ (x & z) ^ (y & z)) { assert((((x | y) & z) | (x & y)) == ((x & y) ^ (x & z) ^ (y & z))) by(bit_vector); }

pub proof fn lemma_op1(i: int, h: S5, m: Seq<u8>, t: u32, w: u32)
    requires 0 <= i < 20,
        ({ let s = sha_ops(i, h, m); t == add32(s.e, add32(add32(add32(((s.b & (s.c ^ s.d)) ^ s.d), sha_W(m, i)), 0x5a827999u32), ((s.a << 5u32) | (s.a >> 27u32)))) && w == ((s.b << 30u32) | (s.b >> 2u32)) }),
    ensures ({ let s = sha_ops(i, h, m); sha_ops(i + 1, h, m) == (S5 { a: t, b: s.a, c: w, d: s.c, e: s.d }) })
{ reveal_with_fuel(sha_ops, 2); reveal(rotl); let s = sha_ops(i, h, m); lemma_ch(s.b, s.c, s.d); }
pub proof fn lemma_op2(i: int, h: S5, m: Seq<u8>, t: u32, w: u32)
    requires 20 <= i < 40,
        ({ let s = sha_ops(i, h, m); t == add32(s.e, add32(add32(add32(((s.b ^ s.c) ^ s.d), sha_W(m, i)), 0x6ed9eba1u32), ((s.a << 5u32) | (s.a >> 27u32)))) && w == ((s.b << 30u32) | (s.b >> 2u32)) }),
    ensures ({ let s = sha_ops(i, h, m); sha_ops(i + 1, h, m) == (S5 { a: t, b: s.a, c: w, d: s.c, e: s.d }) })
{ reveal_with_fuel(sha_ops, 2); reveal(rotl); let s = sha_ops(i, h, m);  }
pub proof fn lemma_op3(i: int, h: S5, m: Seq<u8>, t: u32, w: u32)
    requires 40 <= i < 60,
        ({ let s = sha_ops(i, h, m); t == add32(s.e, add32(add32(add32((((s.b | s.c) & s.d) | (s.b & s.c)), sha_W(m, i)), 0x8f1bbcdcu32), ((s.a << 5u32) | (s.a >> 27u32)))) && w == ((s.b << 30u32) | (s.b >> 2u32)) }),
    ensures ({ let s = sha_ops(i, h, m); sha_ops(i + 1, h, m) == (S5 { a: t, b: s.a, c: w, d: s.c, e: s.d }) })
{ reveal_with_fuel(sha_ops, 2); reveal(rotl); let s = sha_ops(i, h, m); lemma_maj(s.b, s.c, s.d); }
pub proof fn lemma_op4(i: int, h: S5, m: Seq<u8>, t: u32, w: u32)
    requires 60 <= i < 80,
        ({ let s = sha_ops(i, h, m); t == add32(s.e, add32(add32(add32(((s.b ^ s.c) ^ s.d), sha_W(m, i)), 0xca62c1d6u32), ((s.a << 5u32) | (s.a >> 27u32)))) && w == ((s.b << 30u32) | (s.b >> 2u32)) }),
    ensures ({ let s = sha_ops(i, h, m); sha_ops(i + 1, h, m) == (S5 { a: t, b: s.a, c: w, d: s.c, e: s.d }) })
{ reveal_with_fuel(sha_ops, 2); reveal(rotl); let s = sha_ops(i, h, m);  }
pub proof fn lemma_blocks_cat(h: S5, x: Seq<u8>, y: Seq<u8>)
    requires x.len() % 64 == 0
    ensures sha_blocks(h, x + y) == sha_blocks(sha_blocks(h, x), y)
    decreases x.len()
{
    reveal_with_fuel(sha_blocks, 2);
    if x.len() == 0 { assert(x + y =~= y); }
    else {
        let x2 = x.subrange(64, x.len() as int);
        assert((x + y).subrange(0, 64) =~= x.subrange(0, 64));
        assert((x + y).subrange(64, (x + y).len() as int) =~= x2 + y);
        lemma_blocks_cat(sha_block(h, x.subrange(0, 64)), x2, y);
    }
}
pub proof fn lemma_blocks_short(h: S5, x: Seq<u8>) requires x.len() < 64 ensures sha_blocks(h, x) == h { reveal_with_fuel(sha_blocks, 1); }
pub proof fn lemma_blocks_one(h: S5, x: Seq<u8>) requires x.len() == 64 ensures sha_blocks(h, x) == sha_block(h, x)
{ reveal_with_fuel(sha_blocks, 2); assert(x.subrange(0, 64) =~= x); }
// only the complete blocks count
pub proof fn lemma_blocks_floor(h: S5, x: Seq<u8>)
    ensures sha_blocks(h, x) == sha_blocks(h, x.subrange(0, x.len() - x.len() % 64))
{
    let n = x.len() as int; let f = n - n % 64;
    lemma_blocks_cat(h, x.subrange(0, f), x.subrange(f, n));
    assert(x.subrange(0, f) + x.subrange(f, n) =~= x);
    lemma_blocks_short(sha_blocks(h, x.subrange(0, f)), x.subrange(f, n));
}


pub proof fn lemma_cat(m: Seq<u8>, d: Seq<u8>, h0: S5, h: S5, h2: S5)
    requires h == sha_blocks(h0, m), h2 == sha_blocks(h, rest(m) + d)
    ensures h2 == sha_blocks(h0, m + d)
{
    let n = m.len() as int; let f = n - n % 64;
    lemma_blocks_floor(h0, m);
    lemma_blocks_cat(h0, m.subrange(0, f), m.subrange(f, n) + d);
    assert(m.subrange(0, f) + (m.subrange(f, n) + d) =~= m + d);
}
pub proof fn lemma_rest(m: Seq<u8>, d: Seq<u8>) ensures rest(rest(m) + d) == rest(m + d) { assert(rest(rest(m) + d) =~= rest(m + d)); }
pub proof fn lemma_upd(a: &SHA1, b: &SHA1, d: Seq<u8>)
    requires upd(a, b, d)
    ensures forall|m: Seq<u8>| m.len() + d.len() <= usize::MAX && #[trigger] holds(a, m) ==> holds(b, m + d)
{
    assert forall|m: Seq<u8>| m.len() + d.len() <= usize::MAX && #[trigger] holds(a, m) implies holds(b, m + d) by {
        lemma_len(bits(a), m.len() as int);
        lemma_cat(m, d, sha_iv(), h_of(a), h_of(b)); lemma_rest(m, d);
    }
}
pub proof fn lemma_upd_cat(a: &SHA1, b: &SHA1, c: &SHA1, x: Seq<u8>, y: Seq<u8>)
    requires upd(a, b, x), upd(b, c, y)
    ensures upd(a, c, x + y)
{
    lemma_cat(pend(a) + x, y, h_of(a), h_of(b), h_of(c)); lemma_rest(pend(a) + x, y);
    assert((pend(a) + x) + y =~= pend(a) + (x + y));
}
pub proof fn lemma_upd_none(a: &SHA1) requires m_wf(a) ensures upd(a, a, Seq::empty())
{
    lemma_fill0(a.m_count@[0], a.m_count@[1]);
    lemma_blocks_short(h_of(a), pend(a) + Seq::<u8>::empty());
    assert(pend(a) + Seq::<u8>::empty() =~= pend(a)); assert(rest(pend(a)) =~= pend(a));
}

pub proof fn lemma_fill(b0: int, l: int, b1: int) requires b1 == (b0 + 8 * l) % two64(), l >= 0, b0 >= 0 ensures fillb(b1) == (fillb(b0) + l) % 64, 0 <= fillb(b0) < 64, 0 <= fillb(b1) < 64, fillb(b0) + l < 64 ==> fillb(b1) == fillb(b0) + l
{
    reveal(fillb);
    let q = (b0 + 8 * l) / two64();
    assert(b0 + 8 * l == b1 + two64() * q);
    assert((b0 + 8 * l) / 8 == b0 / 8 + l);
    assert((b1 + two64() * q) / 8 == b1 / 8 + 0x2000_0000_0000_0000 * q);
    assert(b0 / 8 + l == b1 / 8 + 0x2000_0000_0000_0000 * q);
}
pub proof fn lemma_fill0(c0: u32, c1: u32) ensures fillb(c0 as int + 4294967296 * (c1 as int)) == ((c0 >> 3u32) & 63) as int, ((c0 >> 3u32) & 63) <= 63, 0 <= fillb(c0 as int + 4294967296 * (c1 as int)) < 64, (c0 & 504) as int == 8 * fillb(c0 as int + 4294967296 * (c1 as int))
{
    reveal(fillb);
    assert((c0 >> 3u32) & 63 == (c0 / 8) % 64) by(bit_vector); assert(c0 & 504 == ((c0 / 8) % 64) * 8) by(bit_vector);
    assert((c0 as int + 4294967296 * (c1 as int)) / 8 == c0 as int / 8 + 536870912 * (c1 as int));
}
pub proof fn lemma_byte(x: u32, i: u32)
    requires i < 64
    ensures i & 3 == i % 4, i >> 2 == i / 4, be_bytes(x)[(i % 4) as int] as int == ((x >> (((3 - i % 4) * 8) as u32)) & 255) as int, ((x >> (((3 - i % 4) * 8) as u32)) & 255) <= 255
{
    assert(i & 3 == i % 4) by(bit_vector);
    assert(i >> 2 == i / 4) by(bit_vector);
    let y = x >> (((3 - i % 4) * 8) as u32);
    assert(y & 255 <= 255) by(bit_vector);
    let k = i % 4;
    assert(k == 0 || k == 1 || k == 2 || k == 3);
}
pub proof fn lemma_len(b: int, n: int) requires b == (8 * n) % two64(), n >= 0 ensures sha_len(b) == sha_len(8 * n), fillb(b) == n % 64
{
    lemma_fill(0, n, b); reveal(fillb);
    let q = (8 * n) / two64(); let m = 4294967296int;
    assert(8 * n == b + two64() * q);
    assert((8 * n) / m == b / m + m * q);
    assert(((8 * n) / m) % m == (b / m) % m);
    assert((8 * n) % m == b % m);
}
// the bit count in two words
pub proof fn lemma_b1(l: int) requires l >= 0 ensures 8 * l == (8 * l) % 4294967296 + 4294967296 * (l / 0x2000_0000)
{
    let q = l / 0x2000_0000; let r = l % 0x2000_0000;
    assert(l == r + 0x2000_0000 * q && 0 <= r < 0x2000_0000);
    assert(8 * l == 8 * r + 4294967296 * q);
}
pub proof fn lemma_b2(len: usize) ensures ((len << 3) as int) % 4294967296 == (8 * (len as int)) % 4294967296, (len >> 29) as int == (len as int) / 0x2000_0000
{
    assert((len << 3) % 0x1_0000_0000 == ((len % 0x1_0000_0000) * 8) % 0x1_0000_0000) by(bit_vector);
    assert(len >> 29 == len / 0x2000_0000) by(bit_vector);
    let q = (len as int) / 4294967296; let r = (len as int) % 4294967296;
    assert(8 * (len as int) == 8 * r + 4294967296 * (8 * q));
}
pub proof fn lemma_b3(s: int, hi: int, c: int, q: int) requires hi == q % 4294967296, s == c + q ensures s % 4294967296 == (c + hi) % 4294967296
{ let k = q / 4294967296; assert(q == hi + 4294967296 * k); assert(s == c + hi + 4294967296 * k); }
pub proof fn lemma_b4(x: int, d0: int, d1: int, k: int) requires x == d0 + 4294967296 * (d1 + 4294967296 * k), 0 <= d0 < 4294967296, 0 <= d1 < 4294967296
    ensures x % two64() == d0 + 4294967296 * d1
{ assert(x == (d0 + 4294967296 * d1) + two64() * k); assert(0 <= d0 + 4294967296 * d1 < two64()); }
#[verifier::spinoff_prover]
pub proof fn lemma_bits(c0: u32, c1: u32, len: usize, low: u32, hi: u32, d0: u32, d1: u32)
    requires low as int == ((len << 3) as int) % 4294967296, hi as int == ((len >> 29) as int) % 4294967296,
        d0 == add32(c0, low), d1 == add32(if d0 < low { add32(c1, 1) } else { c1 }, hi)
    ensures d0 as int + 4294967296 * (d1 as int) == (c0 as int + 4294967296 * (c1 as int) + 8 * (len as int)) % two64()
{
    lemma_b1(len as int); lemma_b2(len);
    let l = len as int; let m = 4294967296int; let q = l / 0x2000_0000;
    let c = if d0 < low { 1int } else { 0int };
    lemma_b3(c1 as int + c + q, hi as int, c1 as int + c, q);
    let s = c1 as int + c + q;
    assert(c0 as int + low as int == d0 as int + m * c) by { reveal(add32); }
    assert(d1 as int == (c1 as int + c + hi as int) % m) by {
        reveal(add32);
        let e = (c1 as int + c) % m;
        assert((e + hi as int) % m == (c1 as int + c + hi as int) % m);
    }
    let k = s / m;
    assert(s == d1 as int + m * k);
    lemma_b4(c0 as int + m * (c1 as int) + 8 * l, d0 as int, d1 as int, k);
}

