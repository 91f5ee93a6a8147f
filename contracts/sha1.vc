@unit sha1
@rlimit 80
@source src/vmime/security/digest/sha1/sha1MessageDigest.cpp
@struct vmime::security::digest::sha1::sha1MessageDigest as SHA1
@type .*CHAR64LONG16 = arr:u8:64
@type .*CHAR64LONG16 ?\* = ptr:arr:u8:64
@nocast uadd_u32
@include wordview.rs
@include sha1spec.rs

@fn vmime::security::digest::sha1::sha1MessageDigest::transform as sha_transform
@requires
    old(state).len() == 5, state_o == 0, buffer_o + 64 <= buffer.len()
@ensures
    final(state).len() == 5, st5(final(state)@) == sha_block(st5(old(state)@), buffer@.subrange(buffer_o as int, buffer_o + 64))
@hint start
    let ghost h0 = st5(state@); let ghost m0 = buffer@.subrange(buffer_o as int, buffer_o + 64);
    proof { reveal_with_fuel(sha_ops, 1); assert(sha_ops(0, h0, m0) == h0); }
@hint after ~^buf_copy\(&mut workspace~
    proof { assert(workspace@ =~= m0); lemma_ring0(m0); }
@hint before ~^le32_set\(&mut workspace, 0usize, ~ #1
    let ghost ws0 = workspace@; proof { lemma_blk0(0, m0, ws0); }
@hint after ~^le32_set\(&mut workspace, 0usize, ~ #1
    proof { lemma_ring(0, m0, ws0, workspace@, 0); }
@hint after ~^e = uadd_u32\(e, ~ #1
    let ghost mid0 = e;
@hint after ~^b = \(\(b << 30i32\)~ #1
    proof { lemma_op1(0, h0, m0, mid0, b); assert(sha_ops(1, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 1usize, ~ #1
    let ghost ws1 = workspace@; proof { lemma_blk0(1, m0, ws1); }
@hint after ~^le32_set\(&mut workspace, 1usize, ~ #1
    proof { lemma_ring(1, m0, ws1, workspace@, 1); }
@hint after ~^d = uadd_u32\(d, ~ #1
    let ghost mid1 = d;
@hint after ~^a = \(\(a << 30i32\)~ #1
    proof { lemma_op1(1, h0, m0, mid1, a); assert(sha_ops(2, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 2usize, ~ #1
    let ghost ws2 = workspace@; proof { lemma_blk0(2, m0, ws2); }
@hint after ~^le32_set\(&mut workspace, 2usize, ~ #1
    proof { lemma_ring(2, m0, ws2, workspace@, 2); }
@hint after ~^c = uadd_u32\(c, ~ #1
    let ghost mid2 = c;
@hint after ~^e = \(\(e << 30i32\)~ #1
    proof { lemma_op1(2, h0, m0, mid2, e); assert(sha_ops(3, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 3usize, ~ #1
    let ghost ws3 = workspace@; proof { lemma_blk0(3, m0, ws3); }
@hint after ~^le32_set\(&mut workspace, 3usize, ~ #1
    proof { lemma_ring(3, m0, ws3, workspace@, 3); }
@hint after ~^b = uadd_u32\(b, ~ #1
    let ghost mid3 = b;
@hint after ~^d = \(\(d << 30i32\)~ #1
    proof { lemma_op1(3, h0, m0, mid3, d); assert(sha_ops(4, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 4usize, ~ #1
    let ghost ws4 = workspace@; proof { lemma_blk0(4, m0, ws4); }
@hint after ~^le32_set\(&mut workspace, 4usize, ~ #1
    proof { lemma_ring(4, m0, ws4, workspace@, 4); }
@hint after ~^a = uadd_u32\(a, ~ #1
    let ghost mid4 = a;
@hint after ~^c = \(\(c << 30i32\)~ #1
    proof { lemma_op1(4, h0, m0, mid4, c); assert(sha_ops(5, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 5usize, ~ #1
    let ghost ws5 = workspace@; proof { lemma_blk0(5, m0, ws5); }
@hint after ~^le32_set\(&mut workspace, 5usize, ~ #1
    proof { lemma_ring(5, m0, ws5, workspace@, 5); }
@hint after ~^e = uadd_u32\(e, ~ #2
    let ghost mid5 = e;
@hint after ~^b = \(\(b << 30i32\)~ #2
    proof { lemma_op1(5, h0, m0, mid5, b); assert(sha_ops(6, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 6usize, ~ #1
    let ghost ws6 = workspace@; proof { lemma_blk0(6, m0, ws6); }
@hint after ~^le32_set\(&mut workspace, 6usize, ~ #1
    proof { lemma_ring(6, m0, ws6, workspace@, 6); }
@hint after ~^d = uadd_u32\(d, ~ #2
    let ghost mid6 = d;
@hint after ~^a = \(\(a << 30i32\)~ #2
    proof { lemma_op1(6, h0, m0, mid6, a); assert(sha_ops(7, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 7usize, ~ #1
    let ghost ws7 = workspace@; proof { lemma_blk0(7, m0, ws7); }
@hint after ~^le32_set\(&mut workspace, 7usize, ~ #1
    proof { lemma_ring(7, m0, ws7, workspace@, 7); }
@hint after ~^c = uadd_u32\(c, ~ #2
    let ghost mid7 = c;
@hint after ~^e = \(\(e << 30i32\)~ #2
    proof { lemma_op1(7, h0, m0, mid7, e); assert(sha_ops(8, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 8usize, ~ #1
    let ghost ws8 = workspace@; proof { lemma_blk0(8, m0, ws8); }
@hint after ~^le32_set\(&mut workspace, 8usize, ~ #1
    proof { lemma_ring(8, m0, ws8, workspace@, 8); }
@hint after ~^b = uadd_u32\(b, ~ #2
    let ghost mid8 = b;
@hint after ~^d = \(\(d << 30i32\)~ #2
    proof { lemma_op1(8, h0, m0, mid8, d); assert(sha_ops(9, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 9usize, ~ #1
    let ghost ws9 = workspace@; proof { lemma_blk0(9, m0, ws9); }
@hint after ~^le32_set\(&mut workspace, 9usize, ~ #1
    proof { lemma_ring(9, m0, ws9, workspace@, 9); }
@hint after ~^a = uadd_u32\(a, ~ #2
    let ghost mid9 = a;
@hint after ~^c = \(\(c << 30i32\)~ #2
    proof { lemma_op1(9, h0, m0, mid9, c); assert(sha_ops(10, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 10usize, ~ #1
    let ghost ws10 = workspace@; proof { lemma_blk0(10, m0, ws10); }
@hint after ~^le32_set\(&mut workspace, 10usize, ~ #1
    proof { lemma_ring(10, m0, ws10, workspace@, 10); }
@hint after ~^e = uadd_u32\(e, ~ #3
    let ghost mid10 = e;
@hint after ~^b = \(\(b << 30i32\)~ #3
    proof { lemma_op1(10, h0, m0, mid10, b); assert(sha_ops(11, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 11usize, ~ #1
    let ghost ws11 = workspace@; proof { lemma_blk0(11, m0, ws11); }
@hint after ~^le32_set\(&mut workspace, 11usize, ~ #1
    proof { lemma_ring(11, m0, ws11, workspace@, 11); }
@hint after ~^d = uadd_u32\(d, ~ #3
    let ghost mid11 = d;
@hint after ~^a = \(\(a << 30i32\)~ #3
    proof { lemma_op1(11, h0, m0, mid11, a); assert(sha_ops(12, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 12usize, ~ #1
    let ghost ws12 = workspace@; proof { lemma_blk0(12, m0, ws12); }
@hint after ~^le32_set\(&mut workspace, 12usize, ~ #1
    proof { lemma_ring(12, m0, ws12, workspace@, 12); }
@hint after ~^c = uadd_u32\(c, ~ #3
    let ghost mid12 = c;
@hint after ~^e = \(\(e << 30i32\)~ #3
    proof { lemma_op1(12, h0, m0, mid12, e); assert(sha_ops(13, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 13usize, ~ #1
    let ghost ws13 = workspace@; proof { lemma_blk0(13, m0, ws13); }
@hint after ~^le32_set\(&mut workspace, 13usize, ~ #1
    proof { lemma_ring(13, m0, ws13, workspace@, 13); }
@hint after ~^b = uadd_u32\(b, ~ #3
    let ghost mid13 = b;
@hint after ~^d = \(\(d << 30i32\)~ #3
    proof { lemma_op1(13, h0, m0, mid13, d); assert(sha_ops(14, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 14usize, ~ #1
    let ghost ws14 = workspace@; proof { lemma_blk0(14, m0, ws14); }
@hint after ~^le32_set\(&mut workspace, 14usize, ~ #1
    proof { lemma_ring(14, m0, ws14, workspace@, 14); }
@hint after ~^a = uadd_u32\(a, ~ #3
    let ghost mid14 = a;
@hint after ~^c = \(\(c << 30i32\)~ #3
    proof { lemma_op1(14, h0, m0, mid14, c); assert(sha_ops(15, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 15usize, ~ #1
    let ghost ws15 = workspace@; proof { lemma_blk0(15, m0, ws15); }
@hint after ~^le32_set\(&mut workspace, 15usize, ~ #1
    proof { lemma_ring(15, m0, ws15, workspace@, 15); }
@hint after ~^e = uadd_u32\(e, ~ #4
    let ghost mid15 = e;
@hint after ~^b = \(\(b << 30i32\)~ #4
    proof { lemma_op1(15, h0, m0, mid15, b); assert(sha_ops(16, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 0usize, ~ #2
    let ghost ws16 = workspace@; proof { lemma_blk(16, m0, ws16, 13, 8, 2, 0); }
@hint after ~^le32_set\(&mut workspace, 0usize, ~ #2
    proof { lemma_ring(16, m0, ws16, workspace@, 0); }
@hint after ~^d = uadd_u32\(d, ~ #4
    let ghost mid16 = d;
@hint after ~^a = \(\(a << 30i32\)~ #4
    proof { lemma_op1(16, h0, m0, mid16, a); assert(sha_ops(17, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 1usize, ~ #2
    let ghost ws17 = workspace@; proof { lemma_blk(17, m0, ws17, 14, 9, 3, 1); }
@hint after ~^le32_set\(&mut workspace, 1usize, ~ #2
    proof { lemma_ring(17, m0, ws17, workspace@, 1); }
@hint after ~^c = uadd_u32\(c, ~ #4
    let ghost mid17 = c;
@hint after ~^e = \(\(e << 30i32\)~ #4
    proof { lemma_op1(17, h0, m0, mid17, e); assert(sha_ops(18, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 2usize, ~ #2
    let ghost ws18 = workspace@; proof { lemma_blk(18, m0, ws18, 15, 10, 4, 2); }
@hint after ~^le32_set\(&mut workspace, 2usize, ~ #2
    proof { lemma_ring(18, m0, ws18, workspace@, 2); }
@hint after ~^b = uadd_u32\(b, ~ #4
    let ghost mid18 = b;
@hint after ~^d = \(\(d << 30i32\)~ #4
    proof { lemma_op1(18, h0, m0, mid18, d); assert(sha_ops(19, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 3usize, ~ #2
    let ghost ws19 = workspace@; proof { lemma_blk(19, m0, ws19, 0, 11, 5, 3); }
@hint after ~^le32_set\(&mut workspace, 3usize, ~ #2
    proof { lemma_ring(19, m0, ws19, workspace@, 3); }
@hint after ~^a = uadd_u32\(a, ~ #4
    let ghost mid19 = a;
@hint after ~^c = \(\(c << 30i32\)~ #4
    proof { lemma_op1(19, h0, m0, mid19, c); assert(sha_ops(20, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 4usize, ~ #2
    let ghost ws20 = workspace@; proof { lemma_blk(20, m0, ws20, 1, 12, 6, 4); }
@hint after ~^le32_set\(&mut workspace, 4usize, ~ #2
    proof { lemma_ring(20, m0, ws20, workspace@, 4); }
@hint after ~^e = uadd_u32\(e, ~ #5
    let ghost mid20 = e;
@hint after ~^b = \(\(b << 30i32\)~ #5
    proof { lemma_op2(20, h0, m0, mid20, b); assert(sha_ops(21, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 5usize, ~ #2
    let ghost ws21 = workspace@; proof { lemma_blk(21, m0, ws21, 2, 13, 7, 5); }
@hint after ~^le32_set\(&mut workspace, 5usize, ~ #2
    proof { lemma_ring(21, m0, ws21, workspace@, 5); }
@hint after ~^d = uadd_u32\(d, ~ #5
    let ghost mid21 = d;
@hint after ~^a = \(\(a << 30i32\)~ #5
    proof { lemma_op2(21, h0, m0, mid21, a); assert(sha_ops(22, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 6usize, ~ #2
    let ghost ws22 = workspace@; proof { lemma_blk(22, m0, ws22, 3, 14, 8, 6); }
@hint after ~^le32_set\(&mut workspace, 6usize, ~ #2
    proof { lemma_ring(22, m0, ws22, workspace@, 6); }
@hint after ~^c = uadd_u32\(c, ~ #5
    let ghost mid22 = c;
@hint after ~^e = \(\(e << 30i32\)~ #5
    proof { lemma_op2(22, h0, m0, mid22, e); assert(sha_ops(23, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 7usize, ~ #2
    let ghost ws23 = workspace@; proof { lemma_blk(23, m0, ws23, 4, 15, 9, 7); }
@hint after ~^le32_set\(&mut workspace, 7usize, ~ #2
    proof { lemma_ring(23, m0, ws23, workspace@, 7); }
@hint after ~^b = uadd_u32\(b, ~ #5
    let ghost mid23 = b;
@hint after ~^d = \(\(d << 30i32\)~ #5
    proof { lemma_op2(23, h0, m0, mid23, d); assert(sha_ops(24, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 8usize, ~ #2
    let ghost ws24 = workspace@; proof { lemma_blk(24, m0, ws24, 5, 0, 10, 8); }
@hint after ~^le32_set\(&mut workspace, 8usize, ~ #2
    proof { lemma_ring(24, m0, ws24, workspace@, 8); }
@hint after ~^a = uadd_u32\(a, ~ #5
    let ghost mid24 = a;
@hint after ~^c = \(\(c << 30i32\)~ #5
    proof { lemma_op2(24, h0, m0, mid24, c); assert(sha_ops(25, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 9usize, ~ #2
    let ghost ws25 = workspace@; proof { lemma_blk(25, m0, ws25, 6, 1, 11, 9); }
@hint after ~^le32_set\(&mut workspace, 9usize, ~ #2
    proof { lemma_ring(25, m0, ws25, workspace@, 9); }
@hint after ~^e = uadd_u32\(e, ~ #6
    let ghost mid25 = e;
@hint after ~^b = \(\(b << 30i32\)~ #6
    proof { lemma_op2(25, h0, m0, mid25, b); assert(sha_ops(26, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 10usize, ~ #2
    let ghost ws26 = workspace@; proof { lemma_blk(26, m0, ws26, 7, 2, 12, 10); }
@hint after ~^le32_set\(&mut workspace, 10usize, ~ #2
    proof { lemma_ring(26, m0, ws26, workspace@, 10); }
@hint after ~^d = uadd_u32\(d, ~ #6
    let ghost mid26 = d;
@hint after ~^a = \(\(a << 30i32\)~ #6
    proof { lemma_op2(26, h0, m0, mid26, a); assert(sha_ops(27, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 11usize, ~ #2
    let ghost ws27 = workspace@; proof { lemma_blk(27, m0, ws27, 8, 3, 13, 11); }
@hint after ~^le32_set\(&mut workspace, 11usize, ~ #2
    proof { lemma_ring(27, m0, ws27, workspace@, 11); }
@hint after ~^c = uadd_u32\(c, ~ #6
    let ghost mid27 = c;
@hint after ~^e = \(\(e << 30i32\)~ #6
    proof { lemma_op2(27, h0, m0, mid27, e); assert(sha_ops(28, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 12usize, ~ #2
    let ghost ws28 = workspace@; proof { lemma_blk(28, m0, ws28, 9, 4, 14, 12); }
@hint after ~^le32_set\(&mut workspace, 12usize, ~ #2
    proof { lemma_ring(28, m0, ws28, workspace@, 12); }
@hint after ~^b = uadd_u32\(b, ~ #6
    let ghost mid28 = b;
@hint after ~^d = \(\(d << 30i32\)~ #6
    proof { lemma_op2(28, h0, m0, mid28, d); assert(sha_ops(29, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 13usize, ~ #2
    let ghost ws29 = workspace@; proof { lemma_blk(29, m0, ws29, 10, 5, 15, 13); }
@hint after ~^le32_set\(&mut workspace, 13usize, ~ #2
    proof { lemma_ring(29, m0, ws29, workspace@, 13); }
@hint after ~^a = uadd_u32\(a, ~ #6
    let ghost mid29 = a;
@hint after ~^c = \(\(c << 30i32\)~ #6
    proof { lemma_op2(29, h0, m0, mid29, c); assert(sha_ops(30, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 14usize, ~ #2
    let ghost ws30 = workspace@; proof { lemma_blk(30, m0, ws30, 11, 6, 0, 14); }
@hint after ~^le32_set\(&mut workspace, 14usize, ~ #2
    proof { lemma_ring(30, m0, ws30, workspace@, 14); }
@hint after ~^e = uadd_u32\(e, ~ #7
    let ghost mid30 = e;
@hint after ~^b = \(\(b << 30i32\)~ #7
    proof { lemma_op2(30, h0, m0, mid30, b); assert(sha_ops(31, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 15usize, ~ #2
    let ghost ws31 = workspace@; proof { lemma_blk(31, m0, ws31, 12, 7, 1, 15); }
@hint after ~^le32_set\(&mut workspace, 15usize, ~ #2
    proof { lemma_ring(31, m0, ws31, workspace@, 15); }
@hint after ~^d = uadd_u32\(d, ~ #7
    let ghost mid31 = d;
@hint after ~^a = \(\(a << 30i32\)~ #7
    proof { lemma_op2(31, h0, m0, mid31, a); assert(sha_ops(32, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 0usize, ~ #3
    let ghost ws32 = workspace@; proof { lemma_blk(32, m0, ws32, 13, 8, 2, 0); }
@hint after ~^le32_set\(&mut workspace, 0usize, ~ #3
    proof { lemma_ring(32, m0, ws32, workspace@, 0); }
@hint after ~^c = uadd_u32\(c, ~ #7
    let ghost mid32 = c;
@hint after ~^e = \(\(e << 30i32\)~ #7
    proof { lemma_op2(32, h0, m0, mid32, e); assert(sha_ops(33, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 1usize, ~ #3
    let ghost ws33 = workspace@; proof { lemma_blk(33, m0, ws33, 14, 9, 3, 1); }
@hint after ~^le32_set\(&mut workspace, 1usize, ~ #3
    proof { lemma_ring(33, m0, ws33, workspace@, 1); }
@hint after ~^b = uadd_u32\(b, ~ #7
    let ghost mid33 = b;
@hint after ~^d = \(\(d << 30i32\)~ #7
    proof { lemma_op2(33, h0, m0, mid33, d); assert(sha_ops(34, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 2usize, ~ #3
    let ghost ws34 = workspace@; proof { lemma_blk(34, m0, ws34, 15, 10, 4, 2); }
@hint after ~^le32_set\(&mut workspace, 2usize, ~ #3
    proof { lemma_ring(34, m0, ws34, workspace@, 2); }
@hint after ~^a = uadd_u32\(a, ~ #7
    let ghost mid34 = a;
@hint after ~^c = \(\(c << 30i32\)~ #7
    proof { lemma_op2(34, h0, m0, mid34, c); assert(sha_ops(35, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 3usize, ~ #3
    let ghost ws35 = workspace@; proof { lemma_blk(35, m0, ws35, 0, 11, 5, 3); }
@hint after ~^le32_set\(&mut workspace, 3usize, ~ #3
    proof { lemma_ring(35, m0, ws35, workspace@, 3); }
@hint after ~^e = uadd_u32\(e, ~ #8
    let ghost mid35 = e;
@hint after ~^b = \(\(b << 30i32\)~ #8
    proof { lemma_op2(35, h0, m0, mid35, b); assert(sha_ops(36, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 4usize, ~ #3
    let ghost ws36 = workspace@; proof { lemma_blk(36, m0, ws36, 1, 12, 6, 4); }
@hint after ~^le32_set\(&mut workspace, 4usize, ~ #3
    proof { lemma_ring(36, m0, ws36, workspace@, 4); }
@hint after ~^d = uadd_u32\(d, ~ #8
    let ghost mid36 = d;
@hint after ~^a = \(\(a << 30i32\)~ #8
    proof { lemma_op2(36, h0, m0, mid36, a); assert(sha_ops(37, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 5usize, ~ #3
    let ghost ws37 = workspace@; proof { lemma_blk(37, m0, ws37, 2, 13, 7, 5); }
@hint after ~^le32_set\(&mut workspace, 5usize, ~ #3
    proof { lemma_ring(37, m0, ws37, workspace@, 5); }
@hint after ~^c = uadd_u32\(c, ~ #8
    let ghost mid37 = c;
@hint after ~^e = \(\(e << 30i32\)~ #8
    proof { lemma_op2(37, h0, m0, mid37, e); assert(sha_ops(38, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 6usize, ~ #3
    let ghost ws38 = workspace@; proof { lemma_blk(38, m0, ws38, 3, 14, 8, 6); }
@hint after ~^le32_set\(&mut workspace, 6usize, ~ #3
    proof { lemma_ring(38, m0, ws38, workspace@, 6); }
@hint after ~^b = uadd_u32\(b, ~ #8
    let ghost mid38 = b;
@hint after ~^d = \(\(d << 30i32\)~ #8
    proof { lemma_op2(38, h0, m0, mid38, d); assert(sha_ops(39, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 7usize, ~ #3
    let ghost ws39 = workspace@; proof { lemma_blk(39, m0, ws39, 4, 15, 9, 7); }
@hint after ~^le32_set\(&mut workspace, 7usize, ~ #3
    proof { lemma_ring(39, m0, ws39, workspace@, 7); }
@hint after ~^a = uadd_u32\(a, ~ #8
    let ghost mid39 = a;
@hint after ~^c = \(\(c << 30i32\)~ #8
    proof { lemma_op2(39, h0, m0, mid39, c); assert(sha_ops(40, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 8usize, ~ #3
    let ghost ws40 = workspace@; proof { lemma_blk(40, m0, ws40, 5, 0, 10, 8); }
@hint after ~^le32_set\(&mut workspace, 8usize, ~ #3
    proof { lemma_ring(40, m0, ws40, workspace@, 8); }
@hint after ~^e = uadd_u32\(e, ~ #9
    let ghost mid40 = e;
@hint after ~^b = \(\(b << 30i32\)~ #9
    proof { lemma_op3(40, h0, m0, mid40, b); assert(sha_ops(41, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 9usize, ~ #3
    let ghost ws41 = workspace@; proof { lemma_blk(41, m0, ws41, 6, 1, 11, 9); }
@hint after ~^le32_set\(&mut workspace, 9usize, ~ #3
    proof { lemma_ring(41, m0, ws41, workspace@, 9); }
@hint after ~^d = uadd_u32\(d, ~ #9
    let ghost mid41 = d;
@hint after ~^a = \(\(a << 30i32\)~ #9
    proof { lemma_op3(41, h0, m0, mid41, a); assert(sha_ops(42, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 10usize, ~ #3
    let ghost ws42 = workspace@; proof { lemma_blk(42, m0, ws42, 7, 2, 12, 10); }
@hint after ~^le32_set\(&mut workspace, 10usize, ~ #3
    proof { lemma_ring(42, m0, ws42, workspace@, 10); }
@hint after ~^c = uadd_u32\(c, ~ #9
    let ghost mid42 = c;
@hint after ~^e = \(\(e << 30i32\)~ #9
    proof { lemma_op3(42, h0, m0, mid42, e); assert(sha_ops(43, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 11usize, ~ #3
    let ghost ws43 = workspace@; proof { lemma_blk(43, m0, ws43, 8, 3, 13, 11); }
@hint after ~^le32_set\(&mut workspace, 11usize, ~ #3
    proof { lemma_ring(43, m0, ws43, workspace@, 11); }
@hint after ~^b = uadd_u32\(b, ~ #9
    let ghost mid43 = b;
@hint after ~^d = \(\(d << 30i32\)~ #9
    proof { lemma_op3(43, h0, m0, mid43, d); assert(sha_ops(44, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 12usize, ~ #3
    let ghost ws44 = workspace@; proof { lemma_blk(44, m0, ws44, 9, 4, 14, 12); }
@hint after ~^le32_set\(&mut workspace, 12usize, ~ #3
    proof { lemma_ring(44, m0, ws44, workspace@, 12); }
@hint after ~^a = uadd_u32\(a, ~ #9
    let ghost mid44 = a;
@hint after ~^c = \(\(c << 30i32\)~ #9
    proof { lemma_op3(44, h0, m0, mid44, c); assert(sha_ops(45, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 13usize, ~ #3
    let ghost ws45 = workspace@; proof { lemma_blk(45, m0, ws45, 10, 5, 15, 13); }
@hint after ~^le32_set\(&mut workspace, 13usize, ~ #3
    proof { lemma_ring(45, m0, ws45, workspace@, 13); }
@hint after ~^e = uadd_u32\(e, ~ #10
    let ghost mid45 = e;
@hint after ~^b = \(\(b << 30i32\)~ #10
    proof { lemma_op3(45, h0, m0, mid45, b); assert(sha_ops(46, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 14usize, ~ #3
    let ghost ws46 = workspace@; proof { lemma_blk(46, m0, ws46, 11, 6, 0, 14); }
@hint after ~^le32_set\(&mut workspace, 14usize, ~ #3
    proof { lemma_ring(46, m0, ws46, workspace@, 14); }
@hint after ~^d = uadd_u32\(d, ~ #10
    let ghost mid46 = d;
@hint after ~^a = \(\(a << 30i32\)~ #10
    proof { lemma_op3(46, h0, m0, mid46, a); assert(sha_ops(47, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 15usize, ~ #3
    let ghost ws47 = workspace@; proof { lemma_blk(47, m0, ws47, 12, 7, 1, 15); }
@hint after ~^le32_set\(&mut workspace, 15usize, ~ #3
    proof { lemma_ring(47, m0, ws47, workspace@, 15); }
@hint after ~^c = uadd_u32\(c, ~ #10
    let ghost mid47 = c;
@hint after ~^e = \(\(e << 30i32\)~ #10
    proof { lemma_op3(47, h0, m0, mid47, e); assert(sha_ops(48, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 0usize, ~ #4
    let ghost ws48 = workspace@; proof { lemma_blk(48, m0, ws48, 13, 8, 2, 0); }
@hint after ~^le32_set\(&mut workspace, 0usize, ~ #4
    proof { lemma_ring(48, m0, ws48, workspace@, 0); }
@hint after ~^b = uadd_u32\(b, ~ #10
    let ghost mid48 = b;
@hint after ~^d = \(\(d << 30i32\)~ #10
    proof { lemma_op3(48, h0, m0, mid48, d); assert(sha_ops(49, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 1usize, ~ #4
    let ghost ws49 = workspace@; proof { lemma_blk(49, m0, ws49, 14, 9, 3, 1); }
@hint after ~^le32_set\(&mut workspace, 1usize, ~ #4
    proof { lemma_ring(49, m0, ws49, workspace@, 1); }
@hint after ~^a = uadd_u32\(a, ~ #10
    let ghost mid49 = a;
@hint after ~^c = \(\(c << 30i32\)~ #10
    proof { lemma_op3(49, h0, m0, mid49, c); assert(sha_ops(50, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 2usize, ~ #4
    let ghost ws50 = workspace@; proof { lemma_blk(50, m0, ws50, 15, 10, 4, 2); }
@hint after ~^le32_set\(&mut workspace, 2usize, ~ #4
    proof { lemma_ring(50, m0, ws50, workspace@, 2); }
@hint after ~^e = uadd_u32\(e, ~ #11
    let ghost mid50 = e;
@hint after ~^b = \(\(b << 30i32\)~ #11
    proof { lemma_op3(50, h0, m0, mid50, b); assert(sha_ops(51, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 3usize, ~ #4
    let ghost ws51 = workspace@; proof { lemma_blk(51, m0, ws51, 0, 11, 5, 3); }
@hint after ~^le32_set\(&mut workspace, 3usize, ~ #4
    proof { lemma_ring(51, m0, ws51, workspace@, 3); }
@hint after ~^d = uadd_u32\(d, ~ #11
    let ghost mid51 = d;
@hint after ~^a = \(\(a << 30i32\)~ #11
    proof { lemma_op3(51, h0, m0, mid51, a); assert(sha_ops(52, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 4usize, ~ #4
    let ghost ws52 = workspace@; proof { lemma_blk(52, m0, ws52, 1, 12, 6, 4); }
@hint after ~^le32_set\(&mut workspace, 4usize, ~ #4
    proof { lemma_ring(52, m0, ws52, workspace@, 4); }
@hint after ~^c = uadd_u32\(c, ~ #11
    let ghost mid52 = c;
@hint after ~^e = \(\(e << 30i32\)~ #11
    proof { lemma_op3(52, h0, m0, mid52, e); assert(sha_ops(53, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 5usize, ~ #4
    let ghost ws53 = workspace@; proof { lemma_blk(53, m0, ws53, 2, 13, 7, 5); }
@hint after ~^le32_set\(&mut workspace, 5usize, ~ #4
    proof { lemma_ring(53, m0, ws53, workspace@, 5); }
@hint after ~^b = uadd_u32\(b, ~ #11
    let ghost mid53 = b;
@hint after ~^d = \(\(d << 30i32\)~ #11
    proof { lemma_op3(53, h0, m0, mid53, d); assert(sha_ops(54, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 6usize, ~ #4
    let ghost ws54 = workspace@; proof { lemma_blk(54, m0, ws54, 3, 14, 8, 6); }
@hint after ~^le32_set\(&mut workspace, 6usize, ~ #4
    proof { lemma_ring(54, m0, ws54, workspace@, 6); }
@hint after ~^a = uadd_u32\(a, ~ #11
    let ghost mid54 = a;
@hint after ~^c = \(\(c << 30i32\)~ #11
    proof { lemma_op3(54, h0, m0, mid54, c); assert(sha_ops(55, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 7usize, ~ #4
    let ghost ws55 = workspace@; proof { lemma_blk(55, m0, ws55, 4, 15, 9, 7); }
@hint after ~^le32_set\(&mut workspace, 7usize, ~ #4
    proof { lemma_ring(55, m0, ws55, workspace@, 7); }
@hint after ~^e = uadd_u32\(e, ~ #12
    let ghost mid55 = e;
@hint after ~^b = \(\(b << 30i32\)~ #12
    proof { lemma_op3(55, h0, m0, mid55, b); assert(sha_ops(56, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 8usize, ~ #4
    let ghost ws56 = workspace@; proof { lemma_blk(56, m0, ws56, 5, 0, 10, 8); }
@hint after ~^le32_set\(&mut workspace, 8usize, ~ #4
    proof { lemma_ring(56, m0, ws56, workspace@, 8); }
@hint after ~^d = uadd_u32\(d, ~ #12
    let ghost mid56 = d;
@hint after ~^a = \(\(a << 30i32\)~ #12
    proof { lemma_op3(56, h0, m0, mid56, a); assert(sha_ops(57, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 9usize, ~ #4
    let ghost ws57 = workspace@; proof { lemma_blk(57, m0, ws57, 6, 1, 11, 9); }
@hint after ~^le32_set\(&mut workspace, 9usize, ~ #4
    proof { lemma_ring(57, m0, ws57, workspace@, 9); }
@hint after ~^c = uadd_u32\(c, ~ #12
    let ghost mid57 = c;
@hint after ~^e = \(\(e << 30i32\)~ #12
    proof { lemma_op3(57, h0, m0, mid57, e); assert(sha_ops(58, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 10usize, ~ #4
    let ghost ws58 = workspace@; proof { lemma_blk(58, m0, ws58, 7, 2, 12, 10); }
@hint after ~^le32_set\(&mut workspace, 10usize, ~ #4
    proof { lemma_ring(58, m0, ws58, workspace@, 10); }
@hint after ~^b = uadd_u32\(b, ~ #12
    let ghost mid58 = b;
@hint after ~^d = \(\(d << 30i32\)~ #12
    proof { lemma_op3(58, h0, m0, mid58, d); assert(sha_ops(59, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 11usize, ~ #4
    let ghost ws59 = workspace@; proof { lemma_blk(59, m0, ws59, 8, 3, 13, 11); }
@hint after ~^le32_set\(&mut workspace, 11usize, ~ #4
    proof { lemma_ring(59, m0, ws59, workspace@, 11); }
@hint after ~^a = uadd_u32\(a, ~ #12
    let ghost mid59 = a;
@hint after ~^c = \(\(c << 30i32\)~ #12
    proof { lemma_op3(59, h0, m0, mid59, c); assert(sha_ops(60, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 12usize, ~ #4
    let ghost ws60 = workspace@; proof { lemma_blk(60, m0, ws60, 9, 4, 14, 12); }
@hint after ~^le32_set\(&mut workspace, 12usize, ~ #4
    proof { lemma_ring(60, m0, ws60, workspace@, 12); }
@hint after ~^e = uadd_u32\(e, ~ #13
    let ghost mid60 = e;
@hint after ~^b = \(\(b << 30i32\)~ #13
    proof { lemma_op4(60, h0, m0, mid60, b); assert(sha_ops(61, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 13usize, ~ #4
    let ghost ws61 = workspace@; proof { lemma_blk(61, m0, ws61, 10, 5, 15, 13); }
@hint after ~^le32_set\(&mut workspace, 13usize, ~ #4
    proof { lemma_ring(61, m0, ws61, workspace@, 13); }
@hint after ~^d = uadd_u32\(d, ~ #13
    let ghost mid61 = d;
@hint after ~^a = \(\(a << 30i32\)~ #13
    proof { lemma_op4(61, h0, m0, mid61, a); assert(sha_ops(62, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 14usize, ~ #4
    let ghost ws62 = workspace@; proof { lemma_blk(62, m0, ws62, 11, 6, 0, 14); }
@hint after ~^le32_set\(&mut workspace, 14usize, ~ #4
    proof { lemma_ring(62, m0, ws62, workspace@, 14); }
@hint after ~^c = uadd_u32\(c, ~ #13
    let ghost mid62 = c;
@hint after ~^e = \(\(e << 30i32\)~ #13
    proof { lemma_op4(62, h0, m0, mid62, e); assert(sha_ops(63, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 15usize, ~ #4
    let ghost ws63 = workspace@; proof { lemma_blk(63, m0, ws63, 12, 7, 1, 15); }
@hint after ~^le32_set\(&mut workspace, 15usize, ~ #4
    proof { lemma_ring(63, m0, ws63, workspace@, 15); }
@hint after ~^b = uadd_u32\(b, ~ #13
    let ghost mid63 = b;
@hint after ~^d = \(\(d << 30i32\)~ #13
    proof { lemma_op4(63, h0, m0, mid63, d); assert(sha_ops(64, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 0usize, ~ #5
    let ghost ws64 = workspace@; proof { lemma_blk(64, m0, ws64, 13, 8, 2, 0); }
@hint after ~^le32_set\(&mut workspace, 0usize, ~ #5
    proof { lemma_ring(64, m0, ws64, workspace@, 0); }
@hint after ~^a = uadd_u32\(a, ~ #13
    let ghost mid64 = a;
@hint after ~^c = \(\(c << 30i32\)~ #13
    proof { lemma_op4(64, h0, m0, mid64, c); assert(sha_ops(65, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 1usize, ~ #5
    let ghost ws65 = workspace@; proof { lemma_blk(65, m0, ws65, 14, 9, 3, 1); }
@hint after ~^le32_set\(&mut workspace, 1usize, ~ #5
    proof { lemma_ring(65, m0, ws65, workspace@, 1); }
@hint after ~^e = uadd_u32\(e, ~ #14
    let ghost mid65 = e;
@hint after ~^b = \(\(b << 30i32\)~ #14
    proof { lemma_op4(65, h0, m0, mid65, b); assert(sha_ops(66, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 2usize, ~ #5
    let ghost ws66 = workspace@; proof { lemma_blk(66, m0, ws66, 15, 10, 4, 2); }
@hint after ~^le32_set\(&mut workspace, 2usize, ~ #5
    proof { lemma_ring(66, m0, ws66, workspace@, 2); }
@hint after ~^d = uadd_u32\(d, ~ #14
    let ghost mid66 = d;
@hint after ~^a = \(\(a << 30i32\)~ #14
    proof { lemma_op4(66, h0, m0, mid66, a); assert(sha_ops(67, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 3usize, ~ #5
    let ghost ws67 = workspace@; proof { lemma_blk(67, m0, ws67, 0, 11, 5, 3); }
@hint after ~^le32_set\(&mut workspace, 3usize, ~ #5
    proof { lemma_ring(67, m0, ws67, workspace@, 3); }
@hint after ~^c = uadd_u32\(c, ~ #14
    let ghost mid67 = c;
@hint after ~^e = \(\(e << 30i32\)~ #14
    proof { lemma_op4(67, h0, m0, mid67, e); assert(sha_ops(68, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 4usize, ~ #5
    let ghost ws68 = workspace@; proof { lemma_blk(68, m0, ws68, 1, 12, 6, 4); }
@hint after ~^le32_set\(&mut workspace, 4usize, ~ #5
    proof { lemma_ring(68, m0, ws68, workspace@, 4); }
@hint after ~^b = uadd_u32\(b, ~ #14
    let ghost mid68 = b;
@hint after ~^d = \(\(d << 30i32\)~ #14
    proof { lemma_op4(68, h0, m0, mid68, d); assert(sha_ops(69, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 5usize, ~ #5
    let ghost ws69 = workspace@; proof { lemma_blk(69, m0, ws69, 2, 13, 7, 5); }
@hint after ~^le32_set\(&mut workspace, 5usize, ~ #5
    proof { lemma_ring(69, m0, ws69, workspace@, 5); }
@hint after ~^a = uadd_u32\(a, ~ #14
    let ghost mid69 = a;
@hint after ~^c = \(\(c << 30i32\)~ #14
    proof { lemma_op4(69, h0, m0, mid69, c); assert(sha_ops(70, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 6usize, ~ #5
    let ghost ws70 = workspace@; proof { lemma_blk(70, m0, ws70, 3, 14, 8, 6); }
@hint after ~^le32_set\(&mut workspace, 6usize, ~ #5
    proof { lemma_ring(70, m0, ws70, workspace@, 6); }
@hint after ~^e = uadd_u32\(e, ~ #15
    let ghost mid70 = e;
@hint after ~^b = \(\(b << 30i32\)~ #15
    proof { lemma_op4(70, h0, m0, mid70, b); assert(sha_ops(71, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 7usize, ~ #5
    let ghost ws71 = workspace@; proof { lemma_blk(71, m0, ws71, 4, 15, 9, 7); }
@hint after ~^le32_set\(&mut workspace, 7usize, ~ #5
    proof { lemma_ring(71, m0, ws71, workspace@, 7); }
@hint after ~^d = uadd_u32\(d, ~ #15
    let ghost mid71 = d;
@hint after ~^a = \(\(a << 30i32\)~ #15
    proof { lemma_op4(71, h0, m0, mid71, a); assert(sha_ops(72, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 8usize, ~ #5
    let ghost ws72 = workspace@; proof { lemma_blk(72, m0, ws72, 5, 0, 10, 8); }
@hint after ~^le32_set\(&mut workspace, 8usize, ~ #5
    proof { lemma_ring(72, m0, ws72, workspace@, 8); }
@hint after ~^c = uadd_u32\(c, ~ #15
    let ghost mid72 = c;
@hint after ~^e = \(\(e << 30i32\)~ #15
    proof { lemma_op4(72, h0, m0, mid72, e); assert(sha_ops(73, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 9usize, ~ #5
    let ghost ws73 = workspace@; proof { lemma_blk(73, m0, ws73, 6, 1, 11, 9); }
@hint after ~^le32_set\(&mut workspace, 9usize, ~ #5
    proof { lemma_ring(73, m0, ws73, workspace@, 9); }
@hint after ~^b = uadd_u32\(b, ~ #15
    let ghost mid73 = b;
@hint after ~^d = \(\(d << 30i32\)~ #15
    proof { lemma_op4(73, h0, m0, mid73, d); assert(sha_ops(74, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 10usize, ~ #5
    let ghost ws74 = workspace@; proof { lemma_blk(74, m0, ws74, 7, 2, 12, 10); }
@hint after ~^le32_set\(&mut workspace, 10usize, ~ #5
    proof { lemma_ring(74, m0, ws74, workspace@, 10); }
@hint after ~^a = uadd_u32\(a, ~ #15
    let ghost mid74 = a;
@hint after ~^c = \(\(c << 30i32\)~ #15
    proof { lemma_op4(74, h0, m0, mid74, c); assert(sha_ops(75, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@hint before ~^le32_set\(&mut workspace, 11usize, ~ #5
    let ghost ws75 = workspace@; proof { lemma_blk(75, m0, ws75, 8, 3, 13, 11); }
@hint after ~^le32_set\(&mut workspace, 11usize, ~ #5
    proof { lemma_ring(75, m0, ws75, workspace@, 11); }
@hint after ~^e = uadd_u32\(e, ~ #16
    let ghost mid75 = e;
@hint after ~^b = \(\(b << 30i32\)~ #16
    proof { lemma_op4(75, h0, m0, mid75, b); assert(sha_ops(76, h0, m0) == (S5 { a: e, b: a, c: b, d: c, e: d })); }
@hint before ~^le32_set\(&mut workspace, 12usize, ~ #5
    let ghost ws76 = workspace@; proof { lemma_blk(76, m0, ws76, 9, 4, 14, 12); }
@hint after ~^le32_set\(&mut workspace, 12usize, ~ #5
    proof { lemma_ring(76, m0, ws76, workspace@, 12); }
@hint after ~^d = uadd_u32\(d, ~ #16
    let ghost mid76 = d;
@hint after ~^a = \(\(a << 30i32\)~ #16
    proof { lemma_op4(76, h0, m0, mid76, a); assert(sha_ops(77, h0, m0) == (S5 { a: d, b: e, c: a, d: b, e: c })); }
@hint before ~^le32_set\(&mut workspace, 13usize, ~ #5
    let ghost ws77 = workspace@; proof { lemma_blk(77, m0, ws77, 10, 5, 15, 13); }
@hint after ~^le32_set\(&mut workspace, 13usize, ~ #5
    proof { lemma_ring(77, m0, ws77, workspace@, 13); }
@hint after ~^c = uadd_u32\(c, ~ #16
    let ghost mid77 = c;
@hint after ~^e = \(\(e << 30i32\)~ #16
    proof { lemma_op4(77, h0, m0, mid77, e); assert(sha_ops(78, h0, m0) == (S5 { a: c, b: d, c: e, d: a, e: b })); }
@hint before ~^le32_set\(&mut workspace, 14usize, ~ #5
    let ghost ws78 = workspace@; proof { lemma_blk(78, m0, ws78, 11, 6, 0, 14); }
@hint after ~^le32_set\(&mut workspace, 14usize, ~ #5
    proof { lemma_ring(78, m0, ws78, workspace@, 14); }
@hint after ~^b = uadd_u32\(b, ~ #16
    let ghost mid78 = b;
@hint after ~^d = \(\(d << 30i32\)~ #16
    proof { lemma_op4(78, h0, m0, mid78, d); assert(sha_ops(79, h0, m0) == (S5 { a: b, b: c, c: d, d: e, e: a })); }
@hint before ~^le32_set\(&mut workspace, 15usize, ~ #5
    let ghost ws79 = workspace@; proof { lemma_blk(79, m0, ws79, 12, 7, 1, 15); }
@hint after ~^le32_set\(&mut workspace, 15usize, ~ #5
    proof { lemma_ring(79, m0, ws79, workspace@, 15); }
@hint after ~^a = uadd_u32\(a, ~ #16
    let ghost mid79 = a;
@hint after ~^c = \(\(c << 30i32\)~ #16
    proof { lemma_op4(79, h0, m0, mid79, c); assert(sha_ops(80, h0, m0) == (S5 { a: a, b: b, c: c, d: d, e: e })); }
@fn vmime::security::digest::sha1::sha1MessageDigest::init as sha_init
@requires
    m_wf(old(this))
@ensures
    holds(final(this), Seq::empty())
@hint end
    proof { reveal(fillb); lemma_blocks_short(sha_iv(), Seq::empty()); assert(pend(this) =~= Seq::<u8>::empty()); assert(rest(Seq::<u8>::empty()) =~= Seq::<u8>::empty()); }
@fn vmime::security::digest::sha1::sha1MessageDigest::reset as sha_reset
@requires
    m_wf(old(this))
@ensures
    holds(final(this), Seq::empty())
@fn vmime::security::digest::sha1::sha1MessageDigest::update ~(const byte_t *, const size_t)~ as sha_update
@requires
    m_wf(old(this)), buffer_o + len <= buffer.len(), buffer.len() < 0x4000_0000_0000_0000
@ensures
    upd(old(this), final(this), buffer@.subrange(buffer_o as int, buffer_o + len))
@hint start
    let ghost this0 = *this; let ghost bo = buffer_o as int; let ghost dd = buffer@.subrange(bo, bo + len); let ghost p0 = pend(this); let ghost all = p0 + dd; let ghost c0 = this.m_count@[0];
    proof {
        lemma_fill0(this.m_count@[0], this.m_count@[1]);
    }
@hint after ~^this.m_count.set\(1usize, ~
    proof {
        lemma_bits(this0.m_count@[0], this0.m_count@[1], len, ((len << 3) as int % 4294967296) as u32, ((len >> 29) as int % 4294967296) as u32, this.m_count@[0], this.m_count@[1]);
        assert(bits(this) == (bits(&this0) + 8 * (len as int)) % two64());
        lemma_fill(bits(&this0), len as int, bits(this));
        assert(fill(this) == all.len() as int % 64);
        assert(j as int == p0.len());
    }
    let ghost cnt = this.m_count@;
@hint after ~^sha_transform~ #1
    proof {
        assert(this.m_buffer@ =~= all.subrange(0, 64));
        assert(this.m_buffer@.subrange(0, 64) =~= all.subrange(0, 64));
        lemma_blocks_one(h_of(&this0), all.subrange(0, 64));
    }
@loop 1 invariant
    m_wf(this), this.m_count@ == cnt, all == p0 + dd, dd == buffer@.subrange(bo, bo + len), bo == buffer_o, bo + len <= buffer.len(), buffer.len() < 0x4000_0000_0000_0000,
    i <= len, (p0.len() + i) % 64 == 0, h_of(this) == sha_blocks(h_of(&this0), all.subrange(0, p0.len() + i)), p0.len() < 64
@loop 1 decreases len - i
@hint loop 1 begin
    let ghost at = p0.len() + i;
@hint after ~^sha_transform~ #2
    proof {
        assert(buffer@.subrange(bo + i, bo + i + 64) =~= all.subrange(at, at + 64));
        lemma_blocks_one(sha_blocks(h_of(&this0), all.subrange(0, at)), all.subrange(at, at + 64));
        lemma_blocks_cat(h_of(&this0), all.subrange(0, at), all.subrange(at, at + 64));
        assert(all.subrange(0, at) + all.subrange(at, at + 64) =~= all.subrange(0, at + 64));
    }
@hint end
    proof {
        lemma_blocks_floor(h_of(&this0), all);
        if p0.len() + len <= 63 { lemma_blocks_short(h_of(&this0), all); }
        assert(pend(this) =~= rest(all));
    }
@fn vmime::security::digest::sha1::sha1MessageDigest::update ~(const byte_t)~ as sha_update_1
@requires
    m_wf(old(this))
@ensures
    upd(old(this), final(this), seq![b])
@hint after ~^sha_update\(~
    proof { assert(forall|v: Seq<u8>| v.len() == 1 && v[0] == b ==> #[trigger] v.subrange(0, 1) =~= seq![b]); }
@fn vmime::security::digest::sha1::sha1MessageDigest::update ~string~ as sha_update_s
@requires
    m_wf(old(this)), s.len() < 0x4000_0000_0000_0000
@ensures
    upd(old(this), final(this), s@)
@hint start
    proof { assert(s@.subrange(0, s.len() as int) =~= s@); }
@fn vmime::security::digest::sha1::sha1MessageDigest::update ~(const byte_t *, const size_t, const size_t)~ as sha_update_o
@requires
    m_wf(old(this)), buffer_o + offset + len <= buffer.len(), buffer.len() < 0x4000_0000_0000_0000
@ensures
    upd(old(this), final(this), buffer@.subrange(buffer_o + offset, buffer_o + offset + len))
@fn vmime::security::digest::sha1::sha1MessageDigest::finalize ~()~ as sha_finalize
@requires
    m_wf(old(this))
@ensures
    final(this).m_digest.len() == 20, forall|m: Seq<u8>| #[trigger] holds(old(this), m) ==> final(this).m_digest@ == sha1(m)
@hint start
    let ghost this0 = *this; let ghost b0 = bits(this); let ghost lenb = sha_len(b0); let ghost f0 = fill(this);
    proof { lemma_fill0(this.m_count@[0], this.m_count@[1]); }
@loop 1 invariant
    i <= 8, finalcount.len() == 8, forall|k: int| 0 <= k < i ==> #[trigger] finalcount@[k] == lenb[k]
@loop 1 decreases 8 - i
@hint loop 1 begin
    proof { reveal(add32); lemma_byte(this.m_count@[if i >= 4 { 0int } else { 1int }], i); }
@hint loop 2 pre
    let ghost mut x = seq![128u8]; let ghost pl = sha_padlen(f0);
    proof { assert(finalcount@ =~= lenb); assert(seq![128u8].subrange(0, 1) =~= seq![128u8]); assert(x =~= seq![128u8] + zeros(x.len() - 1)); }
@loop 2 invariant
    m_wf(this), upd(&this0, this, x), 1 <= x.len() <= 1 + pl, x == seq![128u8] + zeros(x.len() - 1), pl == sha_padlen(f0), f0 == fill(&this0),
    finalcount@ == lenb, lenb.len() == 8
@loop 2 decreases pl + 1 - x.len()
@hint loop 2 head
    proof { lemma_fill0(this.m_count@[0], this.m_count@[1]); lemma_fill(bits(&this0), x.len() as int, bits(this)); }
@hint loop 2 begin
    let ghost that = *this;
@hint loop 2 end
    proof {
        let z = seq![0u8]; assert(z.subrange(0, 1) =~= z);
        lemma_upd_cat(&this0, &that, this, x, z);
        assert(x + z =~= seq![128u8] + zeros(x.len() as int));
        x = x + z;
    }
@hint loop 2 post
    let ghost that = *this;
    proof { lemma_fill0(this.m_count@[0], this.m_count@[1]); lemma_fill(bits(&this0), x.len() as int, bits(this)); assert(x.len() == 1 + pl); assert(lenb.subrange(0, 8) =~= lenb); }
@hint loop 3 pre
    proof {
        lemma_upd_cat(&this0, &that, this, x, lenb);
        assert(x + lenb == seq![128u8] + zeros(pl) + lenb);
    }
    let ghost st = h_of(this); let ghost out = sha_out(st);
@loop 3 invariant
    i <= 20, m_wf(this), h_of(this) == st, out == sha_out(st), forall|k: int| 0 <= k < i ==> #[trigger] this.m_digest@[k] == out[k]
@loop 3 decreases 20 - i
@hint loop 3 begin
    proof { reveal(add32); lemma_byte(this.m_state@[i as int / 4], i); }
@hint end
    proof {
        assert(this.m_digest@ =~= out);
        assert forall|m: Seq<u8>| #[trigger] holds(&this0, m) implies this.m_digest@ == sha1(m) by {
            lemma_len(b0, m.len() as int);
            assert(x + lenb == sha_pad(m.len() as int));
            lemma_cat(m, x + lenb, sha_iv(), h_of(&this0), st);
        }
    }
@fn vmime::security::digest::sha1::sha1MessageDigest::finalize ~(const byte_t *, const size_t)~ as sha_finalize_b
@requires
    m_wf(old(this)), buffer_o + len <= buffer.len(), buffer.len() < 0x4000_0000_0000_0000
@ensures
    forall|m: Seq<u8>| m.len() + len <= usize::MAX && #[trigger] holds(old(this), m) ==> final(this).m_digest@ == sha1(m + buffer@.subrange(buffer_o as int, buffer_o + len))
@hint start
    let ghost this0 = *this;
@hint after ~^sha_update~
    proof { lemma_upd(&this0, this, buffer@.subrange(buffer_o as int, buffer_o + len)); }
@fn vmime::security::digest::sha1::sha1MessageDigest::finalize ~(const string~ as sha_finalize_s
@requires
    m_wf(old(this)), s.len() < 0x4000_0000_0000_0000
@ensures
    forall|m: Seq<u8>| m.len() + s.len() <= usize::MAX && #[trigger] holds(old(this), m) ==> final(this).m_digest@ == sha1(m + s@)
@hint start
    proof { assert(s@.subrange(0, s.len() as int) =~= s@); }
@fn vmime::security::digest::sha1::sha1MessageDigest::finalize ~(const byte_t *, const size_t, const size_t)~ as sha_finalize_o
@requires
    m_wf(old(this)), buffer_o + offset + len <= buffer.len(), buffer.len() < 0x4000_0000_0000_0000
@ensures
    forall|m: Seq<u8>| m.len() + len <= usize::MAX && #[trigger] holds(old(this), m) ==> final(this).m_digest@ == sha1(m + buffer@.subrange(buffer_o + offset, buffer_o + offset + len))
@fn vmime::security::digest::sha1::sha1MessageDigest::getDigestLength as sha_size
@ensures
    res == 20
@fn vmime::security::digest::sha1::sha1MessageDigest::sha1MessageDigest ~void ()~ as sha_new
@ensures
    holds(&res, Seq::empty())
@rustpost
// the digest depends on the bytes only, not on how they are cut into updates
fn property_sha1_pieces(a: &Vec<u8>, b: &Vec<u8>) -> (r: SHA1)
    requires a.len() < 0x2000_0000_0000_0000, b.len() < 0x2000_0000_0000_0000
    ensures r.m_digest@ == sha1(a@ + b@)
{
    let mut t = sha_new();
    let ghost t0 = t;
    sha_update_s(&mut t, a);
    proof { lemma_upd(&t0, &t, a@); assert(Seq::<u8>::empty() + a@ =~= a@); }
    sha_finalize_s(&mut t, b);
    t
}
