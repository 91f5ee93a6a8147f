@unit md5
@rlimit 60
@source src/vmime/security/digest/md5/md5MessageDigest.cpp
@struct vmime::security::digest::md5::md5MessageDigest as MD5
@type .*BlockType = arr:u8:64

@nocast uadd_u32
@include wordview.rs
@include md5spec.rs
@rust
pub open spec fn copied(a: Seq<u8>, b: Seq<u8>, d: int, s: Seq<u8>, so: int, n: int) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == (if d <= k < d + n { s[so + k - d] } else { a[k] })
}
// the data taken so far, extended by more
pub proof fn lemma_holds_cat(m: Seq<u8>, d: Seq<u8>, h: St, h2: St)
    requires h == md5_blocks(md5_iv(), m), h2 == md5_blocks(h, m.subrange(m.len() - m.len() % 64, m.len() as int) + d)
    ensures h2 == md5_blocks(md5_iv(), m + d)
{
    let n = m.len() as int; let f = n - n % 64;
    lemma_blocks_floor(md5_iv(), m);
    lemma_blocks_cat(md5_iv(), m.subrange(0, f), m.subrange(f, n) + d);
    assert(m.subrange(0, f) + (m.subrange(f, n) + d) =~= m + d);
}
pub open spec fn rest(b: Seq<u8>) -> Seq<u8> { b.subrange(b.len() - b.len() % 64, b.len() as int) }
// what an update does to the object
pub open spec fn upd(a: &MD5, b: &MD5, d: Seq<u8>) -> bool {
    m_wf(a) && m_wf(b) && (a.m_byteCount + d.len() <= usize::MAX ==> b.m_byteCount == a.m_byteCount + d.len())
    && h_of(b) == md5_blocks(h_of(a), pend(a) + d) && pend(b) == rest(pend(a) + d)
}
pub proof fn lemma_upd(a: &MD5, b: &MD5, d: Seq<u8>)
    requires upd(a, b, d)
    ensures forall|m: Seq<u8>| m.len() + d.len() <= usize::MAX && #[trigger] holds(a, m) ==> holds(b, m + d)
{
    assert forall|m: Seq<u8>| m.len() + d.len() <= usize::MAX && #[trigger] holds(a, m) implies holds(b, m + d) by {
        lemma_holds_cat(m, d, h_of(a), h_of(b));
        lemma_and63(a.m_byteCount);
        assert(pend(a) + d =~= (m + d).subrange(m.len() - m.len() % 64, (m + d).len() as int));
        assert(rest(pend(a) + d) =~= rest(m + d));
    }
}
@fn vmime::security::digest::md5::copyUint8Array as md5_copy
@requires
    dest_o + count <= old(dest).len(), src_o + count <= src.len()
@ensures
    copied(old(dest)@, final(dest)@, dest_o as int, src@, src_o as int, count as int)
@loop 1 invariant
    count <= count0, dest_o == dest_o0 + (count0 - count), src_o == src_o0 + (count0 - count), dest_o0 + count0 <= dest.len(), src_o0 + count0 <= src.len(),
    copied(d0, dest@, dest_o0 as int, src@, src_o0 as int, count0 - count)
@loop 1 decreases count
@loop 2 invariant
    count <= count0, dest_o == dest_o0 + (count0 - count), src_o == src_o0 + (count0 - count), dest_o0 + count0 <= dest.len(), src_o0 + count0 <= src.len(),
    copied(d0, dest@, dest_o0 as int, src@, src_o0 as int, count0 - count)
@loop 2 decreases count
@hint start
    let ghost d0 = dest@; let ghost count0 = count; let ghost dest_o0 = dest_o; let ghost src_o0 = src_o;
@fn vmime::security::digest::md5::md5MessageDigest::transform as md5_transform
@requires
    m_wf(old(this))
@ensures
    m_wf(final(this)), final(this).m_block == old(this).m_block, final(this).m_byteCount == old(this).m_byteCount, final(this).m_finalized == old(this).m_finalized,
    h_of(final(this)) == md5_block(h_of(old(this)), old(this).m_block@)
@hint start
    let ghost h0 = h_of(this); let ghost m0 = this.m_block@;
    proof { reveal_with_fuel(md5_ops, 1); assert(md5_ops(0, h0, m0) == h0); lemma_tab(); }
@hint after ~^a = uadd_u32\(a, ~ #1
    let ghost mid0 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #1
    proof { lemma_op1(0, h0, m0, 0, 0xd76aa478u32, 7u32, mid0, a); assert(md5_ops(1, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #1
    let ghost mid1 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #1
    proof { lemma_op1(1, h0, m0, 1, 0xe8c7b756u32, 12u32, mid1, d); assert(md5_ops(2, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #1
    let ghost mid2 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #1
    proof { lemma_op1(2, h0, m0, 2, 0x242070dbu32, 17u32, mid2, c); assert(md5_ops(3, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #1
    let ghost mid3 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #1
    proof { lemma_op1(3, h0, m0, 3, 0xc1bdceeeu32, 22u32, mid3, b); assert(md5_ops(4, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #2
    let ghost mid4 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #2
    proof { lemma_op1(4, h0, m0, 4, 0xf57c0fafu32, 7u32, mid4, a); assert(md5_ops(5, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #2
    let ghost mid5 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #2
    proof { lemma_op1(5, h0, m0, 5, 0x4787c62au32, 12u32, mid5, d); assert(md5_ops(6, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #2
    let ghost mid6 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #2
    proof { lemma_op1(6, h0, m0, 6, 0xa8304613u32, 17u32, mid6, c); assert(md5_ops(7, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #2
    let ghost mid7 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #2
    proof { lemma_op1(7, h0, m0, 7, 0xfd469501u32, 22u32, mid7, b); assert(md5_ops(8, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #3
    let ghost mid8 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #3
    proof { lemma_op1(8, h0, m0, 8, 0x698098d8u32, 7u32, mid8, a); assert(md5_ops(9, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #3
    let ghost mid9 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #3
    proof { lemma_op1(9, h0, m0, 9, 0x8b44f7afu32, 12u32, mid9, d); assert(md5_ops(10, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #3
    let ghost mid10 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #3
    proof { lemma_op1(10, h0, m0, 10, 0xffff5bb1u32, 17u32, mid10, c); assert(md5_ops(11, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #3
    let ghost mid11 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #3
    proof { lemma_op1(11, h0, m0, 11, 0x895cd7beu32, 22u32, mid11, b); assert(md5_ops(12, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #4
    let ghost mid12 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #4
    proof { lemma_op1(12, h0, m0, 12, 0x6b901122u32, 7u32, mid12, a); assert(md5_ops(13, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #4
    let ghost mid13 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #4
    proof { lemma_op1(13, h0, m0, 13, 0xfd987193u32, 12u32, mid13, d); assert(md5_ops(14, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #4
    let ghost mid14 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #4
    proof { lemma_op1(14, h0, m0, 14, 0xa679438eu32, 17u32, mid14, c); assert(md5_ops(15, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #4
    let ghost mid15 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #4
    proof { lemma_op1(15, h0, m0, 15, 0x49b40821u32, 22u32, mid15, b); assert(md5_ops(16, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #5
    let ghost mid16 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #5
    proof { lemma_op2(16, h0, m0, 1, 0xf61e2562u32, 5u32, mid16, a); assert(md5_ops(17, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #5
    let ghost mid17 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #5
    proof { lemma_op2(17, h0, m0, 6, 0xc040b340u32, 9u32, mid17, d); assert(md5_ops(18, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #5
    let ghost mid18 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #5
    proof { lemma_op2(18, h0, m0, 11, 0x265e5a51u32, 14u32, mid18, c); assert(md5_ops(19, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #5
    let ghost mid19 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #5
    proof { lemma_op2(19, h0, m0, 0, 0xe9b6c7aau32, 20u32, mid19, b); assert(md5_ops(20, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #6
    let ghost mid20 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #6
    proof { lemma_op2(20, h0, m0, 5, 0xd62f105du32, 5u32, mid20, a); assert(md5_ops(21, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #6
    let ghost mid21 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #6
    proof { lemma_op2(21, h0, m0, 10, 0x2441453u32, 9u32, mid21, d); assert(md5_ops(22, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #6
    let ghost mid22 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #6
    proof { lemma_op2(22, h0, m0, 15, 0xd8a1e681u32, 14u32, mid22, c); assert(md5_ops(23, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #6
    let ghost mid23 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #6
    proof { lemma_op2(23, h0, m0, 4, 0xe7d3fbc8u32, 20u32, mid23, b); assert(md5_ops(24, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #7
    let ghost mid24 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #7
    proof { lemma_op2(24, h0, m0, 9, 0x21e1cde6u32, 5u32, mid24, a); assert(md5_ops(25, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #7
    let ghost mid25 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #7
    proof { lemma_op2(25, h0, m0, 14, 0xc33707d6u32, 9u32, mid25, d); assert(md5_ops(26, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #7
    let ghost mid26 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #7
    proof { lemma_op2(26, h0, m0, 3, 0xf4d50d87u32, 14u32, mid26, c); assert(md5_ops(27, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #7
    let ghost mid27 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #7
    proof { lemma_op2(27, h0, m0, 8, 0x455a14edu32, 20u32, mid27, b); assert(md5_ops(28, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #8
    let ghost mid28 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #8
    proof { lemma_op2(28, h0, m0, 13, 0xa9e3e905u32, 5u32, mid28, a); assert(md5_ops(29, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #8
    let ghost mid29 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #8
    proof { lemma_op2(29, h0, m0, 2, 0xfcefa3f8u32, 9u32, mid29, d); assert(md5_ops(30, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #8
    let ghost mid30 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #8
    proof { lemma_op2(30, h0, m0, 7, 0x676f02d9u32, 14u32, mid30, c); assert(md5_ops(31, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #8
    let ghost mid31 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #8
    proof { lemma_op2(31, h0, m0, 12, 0x8d2a4c8au32, 20u32, mid31, b); assert(md5_ops(32, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #9
    let ghost mid32 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #9
    proof { lemma_op3(32, h0, m0, 5, 0xfffa3942u32, 4u32, mid32, a); assert(md5_ops(33, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #9
    let ghost mid33 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #9
    proof { lemma_op3(33, h0, m0, 8, 0x8771f681u32, 11u32, mid33, d); assert(md5_ops(34, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #9
    let ghost mid34 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #9
    proof { lemma_op3(34, h0, m0, 11, 0x6d9d6122u32, 16u32, mid34, c); assert(md5_ops(35, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #9
    let ghost mid35 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #9
    proof { lemma_op3(35, h0, m0, 14, 0xfde5380cu32, 23u32, mid35, b); assert(md5_ops(36, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #10
    let ghost mid36 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #10
    proof { lemma_op3(36, h0, m0, 1, 0xa4beea44u32, 4u32, mid36, a); assert(md5_ops(37, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #10
    let ghost mid37 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #10
    proof { lemma_op3(37, h0, m0, 4, 0x4bdecfa9u32, 11u32, mid37, d); assert(md5_ops(38, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #10
    let ghost mid38 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #10
    proof { lemma_op3(38, h0, m0, 7, 0xf6bb4b60u32, 16u32, mid38, c); assert(md5_ops(39, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #10
    let ghost mid39 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #10
    proof { lemma_op3(39, h0, m0, 10, 0xbebfbc70u32, 23u32, mid39, b); assert(md5_ops(40, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #11
    let ghost mid40 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #11
    proof { lemma_op3(40, h0, m0, 13, 0x289b7ec6u32, 4u32, mid40, a); assert(md5_ops(41, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #11
    let ghost mid41 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #11
    proof { lemma_op3(41, h0, m0, 0, 0xeaa127fau32, 11u32, mid41, d); assert(md5_ops(42, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #11
    let ghost mid42 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #11
    proof { lemma_op3(42, h0, m0, 3, 0xd4ef3085u32, 16u32, mid42, c); assert(md5_ops(43, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #11
    let ghost mid43 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #11
    proof { lemma_op3(43, h0, m0, 6, 0x4881d05u32, 23u32, mid43, b); assert(md5_ops(44, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #12
    let ghost mid44 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #12
    proof { lemma_op3(44, h0, m0, 9, 0xd9d4d039u32, 4u32, mid44, a); assert(md5_ops(45, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #12
    let ghost mid45 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #12
    proof { lemma_op3(45, h0, m0, 12, 0xe6db99e5u32, 11u32, mid45, d); assert(md5_ops(46, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #12
    let ghost mid46 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #12
    proof { lemma_op3(46, h0, m0, 15, 0x1fa27cf8u32, 16u32, mid46, c); assert(md5_ops(47, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #12
    let ghost mid47 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #12
    proof { lemma_op3(47, h0, m0, 2, 0xc4ac5665u32, 23u32, mid47, b); assert(md5_ops(48, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #13
    let ghost mid48 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #13
    proof { lemma_op4(48, h0, m0, 0, 0xf4292244u32, 6u32, mid48, a); assert(md5_ops(49, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #13
    let ghost mid49 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #13
    proof { lemma_op4(49, h0, m0, 7, 0x432aff97u32, 10u32, mid49, d); assert(md5_ops(50, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #13
    let ghost mid50 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #13
    proof { lemma_op4(50, h0, m0, 14, 0xab9423a7u32, 15u32, mid50, c); assert(md5_ops(51, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #13
    let ghost mid51 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #13
    proof { lemma_op4(51, h0, m0, 5, 0xfc93a039u32, 21u32, mid51, b); assert(md5_ops(52, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #14
    let ghost mid52 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #14
    proof { lemma_op4(52, h0, m0, 12, 0x655b59c3u32, 6u32, mid52, a); assert(md5_ops(53, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #14
    let ghost mid53 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #14
    proof { lemma_op4(53, h0, m0, 3, 0x8f0ccc92u32, 10u32, mid53, d); assert(md5_ops(54, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #14
    let ghost mid54 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #14
    proof { lemma_op4(54, h0, m0, 10, 0xffeff47du32, 15u32, mid54, c); assert(md5_ops(55, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #14
    let ghost mid55 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #14
    proof { lemma_op4(55, h0, m0, 1, 0x85845dd1u32, 21u32, mid55, b); assert(md5_ops(56, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #15
    let ghost mid56 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #15
    proof { lemma_op4(56, h0, m0, 8, 0x6fa87e4fu32, 6u32, mid56, a); assert(md5_ops(57, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #15
    let ghost mid57 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #15
    proof { lemma_op4(57, h0, m0, 15, 0xfe2ce6e0u32, 10u32, mid57, d); assert(md5_ops(58, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #15
    let ghost mid58 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #15
    proof { lemma_op4(58, h0, m0, 6, 0xa3014314u32, 15u32, mid58, c); assert(md5_ops(59, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #15
    let ghost mid59 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #15
    proof { lemma_op4(59, h0, m0, 13, 0x4e0811a1u32, 21u32, mid59, b); assert(md5_ops(60, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@hint after ~^a = uadd_u32\(a, ~ #16
    let ghost mid60 = a;
@hint after ~^a = uadd_u32\(\(\(a << ~ #16
    proof { lemma_op4(60, h0, m0, 4, 0xf7537e82u32, 6u32, mid60, a); assert(md5_ops(61, h0, m0) == (St { a: d, b: a, c: b, d: c })); }
@hint after ~^d = uadd_u32\(d, ~ #16
    let ghost mid61 = d;
@hint after ~^d = uadd_u32\(\(\(d << ~ #16
    proof { lemma_op4(61, h0, m0, 11, 0xbd3af235u32, 10u32, mid61, d); assert(md5_ops(62, h0, m0) == (St { a: c, b: d, c: a, d: b })); }
@hint after ~^c = uadd_u32\(c, ~ #16
    let ghost mid62 = c;
@hint after ~^c = uadd_u32\(\(\(c << ~ #16
    proof { lemma_op4(62, h0, m0, 2, 0x2ad7d2bbu32, 15u32, mid62, c); assert(md5_ops(63, h0, m0) == (St { a: b, b: c, c: d, d: a })); }
@hint after ~^b = uadd_u32\(b, ~ #16
    let ghost mid63 = b;
@hint after ~^b = uadd_u32\(\(\(b << ~ #16
    proof { lemma_op4(63, h0, m0, 9, 0xeb86d391u32, 21u32, mid63, b); assert(md5_ops(64, h0, m0) == (St { a: a, b: b, c: c, d: d })); }
@fn vmime::security::digest::md5::md5MessageDigest::transformHelper as md5_helper
@requires
    m_wf(old(this))
@ensures
    m_wf(final(this)), final(this).m_block == old(this).m_block, final(this).m_byteCount == old(this).m_byteCount, final(this).m_finalized == old(this).m_finalized,
    h_of(final(this)) == md5_block(h_of(old(this)), old(this).m_block@)
@fn vmime::security::digest::md5::md5MessageDigest::init as md5_init
@requires
    m_wf(old(this))
@ensures
    holds(final(this), Seq::empty())
@hint end
    proof { lemma_blocks_short(md5_iv(), Seq::empty()); assert(0usize & 63 == 0) by(bit_vector); assert(pend(this) =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty().subrange(0, 0) =~= Seq::<u8>::empty()); }
@fn vmime::security::digest::md5::md5MessageDigest::reset as md5_reset
@requires
    m_wf(old(this))
@ensures
    holds(final(this), Seq::empty())
@fn vmime::security::digest::md5::md5MessageDigest::update ~(const byte_t *, const size_t)~ as md5_update
@requires
    m_wf(old(this)), data_o + length <= data.len(), data.len() < 0x4000_0000_0000_0000
@ensures
    upd(old(this), final(this), data@.subrange(data_o as int, data_o + length))
@hint start
    let ghost this0 = *this; let ghost d = data@.subrange(data_o as int, data_o + length); let ghost all = pend(this) + d; let ghost p0 = pend(this); let ghost o0 = data_o as int;
    proof { lemma_and63(this.m_byteCount); }
@hint after ~^this.m_byteCount = ~
    proof { lemma_and63(this.m_byteCount); assert(this.m_byteCount as int % 64 == all.len() % 64); }
@hint before `return`
    proof {
        assert(all.len() < 64); lemma_blocks_short(h_of(&this0), all);
        assert(pend(this) =~= rest(all));
    }
@hint after ~^md5_helper~ #1
    proof {
        assert(this.m_block@ =~= all.subrange(0, 64));
        lemma_blocks_one(h_of(&this0), all.subrange(0, 64));
    }
@loop 1 invariant
    m_wf(this), this.m_byteCount as int % 64 == all.len() % 64, this.m_byteCount == bc0, o0 <= data_o <= o0 + length, len == o0 + length - data_o, all == p0 + d,
    d == data@.subrange(o0, o0 + length), o0 + length <= data.len(), data.len() < 0x4000_0000_0000_0000,
    (p0.len() + (data_o - o0)) % 64 == 0, h_of(this) == md5_blocks(h_of(&this0), all.subrange(0, p0.len() + (data_o - o0)))
@loop 1 decreases len
@hint loop 1 pre
    let ghost bc0 = this.m_byteCount;
@hint loop 1 begin
    let ghost at = p0.len() + (data_o - o0);
@hint after ~^md5_helper~ #2
    proof {
        assert(this.m_block@ =~= all.subrange(at, at + 64));
        lemma_blocks_one(md5_blocks(h_of(&this0), all.subrange(0, at)), all.subrange(at, at + 64));
        lemma_blocks_cat(h_of(&this0), all.subrange(0, at), all.subrange(at, at + 64));
        assert(all.subrange(0, at) + all.subrange(at, at + 64) =~= all.subrange(0, at + 64));
    }
@hint end
    proof {
        lemma_and63(this.m_byteCount);
        lemma_blocks_floor(h_of(&this0), all);
        assert(pend(this) =~= rest(all));
    }
@fn vmime::security::digest::md5::md5MessageDigest::update ~(const byte_t)~ as md5_update_1
@requires
    m_wf(old(this))
@ensures
    upd(old(this), final(this), seq![b])
@hint after ~^md5_update\(~
    proof { assert(forall|v: Seq<u8>| v.len() == 1 && v[0] == b ==> #[trigger] v.subrange(0, 1) =~= seq![b]); }
@fn vmime::security::digest::md5::md5MessageDigest::update ~string~ as md5_update_s
@requires
    m_wf(old(this)), s.len() < 0x4000_0000_0000_0000
@ensures
    upd(old(this), final(this), s@)
@hint start
    proof { assert(s@.subrange(0, s.len() as int) =~= s@); }
@fn vmime::security::digest::md5::md5MessageDigest::update ~(const byte_t *, const size_t, const size_t)~ as md5_update_o
@requires
    m_wf(old(this)), data_o + offset + len <= data.len(), data.len() < 0x4000_0000_0000_0000
@ensures
    upd(old(this), final(this), data@.subrange(data_o + offset, data_o + offset + len))
@hint start
    proof { assert(data@.subrange((data_o + offset) as int, (data_o + offset) + len) =~= data@.subrange(data_o + offset, data_o + offset + len)); }
@fn vmime::security::digest::md5::md5MessageDigest::finalize ~()~ as md5_finalize
@requires
    m_wf(old(this))
@ensures
    forall|m: Seq<u8>| #[trigger] holds(old(this), m) ==> h_of(final(this)) == md5(m)
@hint start
    let ghost this0 = *this; let ghost n = this.m_byteCount; let ghost p0 = pend(this); let ghost all = p0 + md5_pad(n as int); let ghost off = n as int % 64;
    proof {
        lemma_and63(n);
        assert((n << 3) % 0x1_0000_0000 == ((n % 0x1_0000_0000) * 8) % 0x1_0000_0000) by(bit_vector);
        assert(n >> 29 == n / 0x2000_0000) by(bit_vector);
        assert(((n % 0x1_0000_0000) * 8) % 0x1_0000_0000 == (8 * n) % 0x1_0000_0000int);
        assert(all.len() == (if off < 56 { 64int } else { 128int }));
    }
@hint after ~^md5_helper~
    proof {
        assert(this.m_block@ =~= all.subrange(0, 64));
    }
@hint before ~^md5_transform~
    proof {
        let last = all.len() - 64;
        assert(this.m_block@ =~= all.subrange(last, last + 64));
        lemma_blocks_one(h_of(&this0), all.subrange(0, 64));
        lemma_blocks_one(h_of(this), all.subrange(last, last + 64));
        lemma_blocks_cat(h_of(&this0), all.subrange(0, last), all.subrange(last, last + 64));
        assert(all.subrange(0, last) + all.subrange(last, last + 64) =~= all);
        lemma_blocks_short(h_of(&this0), all.subrange(0, 0));
    }
@hint end
    proof {
        assert(h_of(this) == md5_blocks(h_of(&this0), all));
        assert forall|m: Seq<u8>| #[trigger] holds(&this0, m) implies h_of(this) == md5(m) by {
            lemma_holds_cat(m, md5_pad(n as int), h_of(&this0), h_of(this));
            assert(rest(m) == p0);
        }
    }
@fn vmime::security::digest::md5::md5MessageDigest::finalize ~(const string~ as md5_finalize_s
@requires
    m_wf(old(this)), s.len() < 0x4000_0000_0000_0000
@ensures
    forall|m: Seq<u8>| m.len() + s.len() <= usize::MAX && #[trigger] holds(old(this), m) ==> h_of(final(this)) == md5(m + s@)
@hint start
    let ghost this0 = *this;
@hint after ~^md5_update~
    proof { lemma_upd(&this0, this, s@); }
@fn vmime::security::digest::md5::md5MessageDigest::finalize ~(const byte_t *, const size_t)~ as md5_finalize_b
@requires
    m_wf(old(this)), buffer_o + len <= buffer.len(), buffer.len() < 0x4000_0000_0000_0000
@ensures
    forall|m: Seq<u8>| m.len() + len <= usize::MAX && #[trigger] holds(old(this), m) ==> h_of(final(this)) == md5(m + buffer@.subrange(buffer_o as int, buffer_o + len))
@hint start
    let ghost this0 = *this;
@hint after ~^md5_update~
    proof { lemma_upd(&this0, this, buffer@.subrange(buffer_o as int, buffer_o + len)); }
@fn vmime::security::digest::md5::md5MessageDigest::finalize ~(const byte_t *, const size_t, const size_t)~ as md5_finalize_o
@requires
    m_wf(old(this)), buffer_o + offset + len <= buffer.len(), buffer.len() < 0x4000_0000_0000_0000
@ensures
    forall|m: Seq<u8>| m.len() + len <= usize::MAX && #[trigger] holds(old(this), m) ==> h_of(final(this)) == md5(m + buffer@.subrange(buffer_o + offset, buffer_o + offset + len))
@hint start
    let ghost this0 = *this;
@hint after ~^md5_update~
    proof { lemma_upd(&this0, this, buffer@.subrange(buffer_o + offset, buffer_o + offset + len)); }
@fn vmime::security::digest::md5::md5MessageDigest::md5MessageDigest ~void ()~ as md5_create
@ensures
    holds(&res, Seq::empty())
@rustpost
// the digest depends on the bytes only, not on how they are cut into updates
fn property_md5_pieces(a: &Vec<u8>, b: &Vec<u8>) -> (r: MD5)
    requires a.len() < 0x2000_0000_0000_0000, b.len() < 0x2000_0000_0000_0000
    ensures h_of(&r) == md5(a@ + b@)
{
    let mut t = md5_create();
    let ghost t0 = t;
    md5_update_s(&mut t, a);
    proof { lemma_upd(&t0, &t, a@); assert(Seq::<u8>::empty() + a@ =~= a@); }
    md5_finalize_s(&mut t, b);
    t
}
