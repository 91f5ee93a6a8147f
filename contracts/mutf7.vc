@unit mutf7
@use strings
@source src/vmime/net/imap/IMAPUtils.cpp
@include mutf7spec.rs
@type (const )?(.*::component|vmime::word|word) = stru:Comp
@constants src/vmime/constants.cpp
@type .*charset.* = stru:Cs
@ctor Cs 1 = cs_of ptr
@rust
pub struct Cs { pub name: Vec<u8> }
#[verifier::external_body]
pub fn cs_of(b: &Vec<u8>, off: usize) -> (r: Cs) requires off <= b.len() ensures r.name@ == b@.subrange(off as int, cz_end(b@, off as int)), off == 0 && (forall|i: int| 0 <= i < b.len() ==> #[trigger] b@[i] != 0) ==> r.name@ == b@ { unimplemented!() }
pub open spec fn utf8_name() -> Seq<u8> { seq![117u8, 116, 102, 45, 56] }
pub open spec fn utf7_name() -> Seq<u8> { seq![117u8, 116, 102, 45, 55] }
pub struct Comp { pub h: u64 }
// the text of a path component, in UTF-8 (whatever the charset it is stored in)
pub uninterp spec fn comp_utf8(c: Comp) -> Seq<u8>;
@method vmime::word::getConvertedText = comp_text str ref ref
@extern vmime::charset::convert = utf7_convert void ref mut ref ref
@ctor Comp 2 = comp_make ref ref
@rust
#[verifier::external_body]
pub fn comp_text(c: &Comp, cs: &Cs) -> (r: Vec<u8>) ensures cs.name@ == utf8_name() ==> r@ == comp_utf8(*c) { unimplemented!() }
#[verifier::external_body]
pub fn comp_make(t: &Vec<u8>, cs: &Cs) -> (r: Comp) ensures cs.name@ == utf8_name() ==> comp_utf8(r) == t@ { unimplemented!() }
// charset conversion from UTF-7 to UTF-8 (ICU), assumed: the UTF-8 text with the same code units
#[verifier::external_body]
pub fn utf7_convert(t: &Vec<u8>, r: &mut Vec<u8>, from: &Cs, to: &Cs)
    ensures from.name@ == utf7_name() && to.name@ == utf8_name() && utf7_ok(t@) ==> forall|w: Seq<u8>| #[trigger] utf8_ok(w, 0) && units(w, 0) == utf7(t@) ==> final(r)@ == w
{ unimplemented!() }
@rust
pub open spec fn al(v: int) -> u8 { (if v <= 25 { v + 65 } else if v <= 51 { v + 71 } else if v <= 61 { v - 4 } else if v == 62 { 43 } else { 44 }) as u8 }
pub proof fn lemma_al(v: int) requires 0 <= v < 64 ensures dig(al(v), 44) == v {}
pub open spec fn sep_ok(c: u8) -> bool { 0x20 <= c <= 0x7e && !is_dig(c, 44) && c != 38 && c != 45 }
pub open spec fn no_ch(s: Seq<u8>, c: u8) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
// the digits given so far and the bits (b) of the last one that is not complete; k tells how many there are
pub open spec fn kst(n: int, b: int, k: int) -> bool { (k == 10 && n % 8 == 0 && b == 0) || (k == 14 && n % 8 == 2 && b % 4 == 0 && 0 <= b < 64) || (k == 12 && n % 8 == 5 && b % 16 == 0 && 0 <= b < 64) }
pub open spec fn pendd(e: Seq<u8>, b: int, k: int) -> Seq<u8> { if k > 10 { e.push(al(b)) } else { e } }
pub open spec fn all_dig(e: Seq<u8>) -> bool { forall|i: int| 0 <= i < e.len() ==> is_dig(#[trigger] e[i], 44) }
// the digits that unit u adds
#[verifier::opaque]
pub open spec fn udigs(b: int, k: int, u: int) -> Seq<u8> {
    if k == 10 { seq![al(u / 1024), al(u / 16 % 64)] }
    else if k == 14 { seq![al(b + u / 16384), al(u / 256 % 64), al(u / 4 % 64)] }
    else { seq![al(b + u / 4096), al(u / 64 % 64), al(u % 64)] }
}
pub open spec fn nextb(k: int, u: int) -> int { if k == 10 { u % 16 * 4 } else if k == 14 { u % 4 * 16 } else { 0 } }
pub open spec fn nextk(k: int) -> int { if k == 10 { 14 } else if k == 14 { 12 } else { 10 } }
pub proof fn lemma_div8(n: int) requires n >= 0 ensures (6 * (8 * n)) / 16 == 3 * n, (6 * (8 * n + 3)) / 16 == 3 * n + 1, (6 * (8 * n + 6)) / 16 == 3 * n + 2
{}
pub proof fn lemma_d3(j: int, q: int) requires 0 <= j, q >= 0
    ensures j < 3 * q ==> j / 3 < q, j == 3 * q ==> j / 3 == q && j % 3 == 0, j == 3 * q + 1 ==> j / 3 == q && j % 3 == 1, j == 3 * q + 2 ==> j / 3 == q && j % 3 == 2,
{}
pub proof fn lemma_u1(u: int) requires 0 <= u < 65536 ensures 0 <= u / 1024 < 64, 0 <= u / 16 % 64 < 64, 0 <= u % 16 < 16, u == u / 1024 * 1024 + u / 16 % 64 * 16 + u % 16
{ let x = u / 16; assert(u == x * 16 + u % 16); assert(x / 64 == u / 1024); assert(x == x / 64 * 64 + x % 64); }
pub proof fn lemma_u2(u: int) requires 0 <= u < 65536 ensures 0 <= u / 16384 < 4, 0 <= u / 256 % 64 < 64, 0 <= u / 4 % 64 < 64, 0 <= u % 4 < 4, u == u / 16384 * 16384 + u / 256 % 64 * 256 + u / 4 % 64 * 4 + u % 4
{ let x = u / 4; let y = u / 256; assert(u == x * 4 + u % 4); assert(x / 64 == y); assert(x == y * 64 + x % 64); assert(y / 64 == u / 16384); assert(y == y / 64 * 64 + y % 64); }
pub proof fn lemma_u3(u: int) requires 0 <= u < 65536 ensures 0 <= u / 4096 < 16, 0 <= u / 64 % 64 < 64, 0 <= u % 64 < 64, u == u / 4096 * 4096 + u / 64 % 64 * 64 + u % 64
{ let x = u / 64; assert(u == x * 64 + u % 64); assert(x / 64 == u / 4096); assert(x == x / 64 * 64 + x % 64); }
pub proof fn lemma_u(u: int) requires 0 <= u < 65536
    ensures 0 <= u / 1024 < 64, 0 <= u / 16 % 64 < 64, 0 <= u % 16 < 16, u == u / 1024 * 1024 + u / 16 % 64 * 16 + u % 16,
        0 <= u / 16384 < 4, 0 <= u / 256 % 64 < 64, 0 <= u / 4 % 64 < 64, 0 <= u % 4 < 4, u == u / 16384 * 16384 + u / 256 % 64 * 256 + u / 4 % 64 * 4 + u % 4,
        0 <= u / 4096 < 16, 0 <= u / 64 % 64 < 64, 0 <= u % 64 < 64, u == u / 4096 * 4096 + u / 64 % 64 * 64 + u % 64,
{ lemma_u1(u); lemma_u2(u); lemma_u3(u); }
pub proof fn lemma_b4(b: int, x: int) requires b % 4 == 0, 0 <= x < 4, 0 <= b < 64 ensures (b + x) / 4 == b / 4, (b + x) % 4 == x, 0 <= b + x < 64 {}
pub proof fn lemma_b16(b: int, x: int) requires b % 16 == 0, 0 <= x < 16, 0 <= b < 64 ensures (b + x) / 16 == b / 16, (b + x) % 16 == x, 0 <= b + x < 64 {}
// p2 has one unit more than p1; the units before it read the same bits
pub proof fn lemma_more(p1: Seq<u8>, p2: Seq<u8>, n: int, u: int)
    requires n >= 0, (6 * p1.len()) / 16 == n, (6 * p2.len()) / 16 == n + 1, forall|j: int| 0 <= j < n ==> #[trigger] bunit(p1, j, 44) == bunit(p2, j, 44), bunit(p2, n, 44) == u
    ensures bunits(p2, 44) == bunits(p1, 44).push(u)
{ reveal(bunits); assert(bunits(p2, 44) =~= bunits(p1, 44).push(u)); }
pub proof fn lemma_same(p1: Seq<u8>, p2: Seq<u8>, j: int, n: int, m: int)
    requires 0 <= j < n, 3 * m <= 8 * m, 0 <= m <= p1.len(), m <= p2.len(), forall|i: int| 0 <= i < m ==> #[trigger] p1[i] == p2[i], 8 * (j / 3) + (if j % 3 == 0 { 3int } else if j % 3 == 1 { 6int } else { 8int }) <= m
    ensures bunit(p1, j, 44) == bunit(p2, j, 44)
{ let q = 8 * (j / 3); assert(q >= 0); }
#[verifier::spinoff_prover]
pub proof fn lemma_unit10(e: Seq<u8>, u: int)
    requires kst(e.len() as int, 0, 10), 0 <= u < 65536
    ensures bunits(pendd(e + udigs(0, 10, u), u % 16 * 4, 14), 44) == bunits(e, 44).push(u)
{
    reveal(udigs); let q = e.len() as int / 8; lemma_u(u); lemma_div8(q);
    let p2 = pendd(e + udigs(0, 10, u), u % 16 * 4, 14);
    assert(e.len() == 8 * q); assert(p2.len() == 8 * q + 3);
    assert forall|j: int| 0 <= j < 3 * q implies #[trigger] bunit(e, j, 44) == bunit(p2, j, 44) by { lemma_d3(j, q); lemma_same(e, p2, j, 3 * q, 8 * q); }
    lemma_d3(3 * q, q); assert(p2[8 * q] == al(u / 1024) && p2[8 * q + 1] == al(u / 16 % 64) && p2[8 * q + 2] == al(u % 16 * 4));
    lemma_al(u / 1024); lemma_al(u / 16 % 64); lemma_al(u % 16 * 4);
    lemma_more(e, p2, 3 * q, u);
}
#[verifier::spinoff_prover]
pub proof fn lemma_unit14(e: Seq<u8>, b: int, u: int)
    requires kst(e.len() as int, b, 14), 0 <= u < 65536
    ensures bunits(pendd(e + udigs(b, 14, u), u % 4 * 16, 12), 44) == bunits(pendd(e, b, 14), 44).push(u)
{
    reveal(udigs); let q = e.len() as int / 8; lemma_u(u); lemma_div8(q); lemma_b4(b, u / 16384);
    let p1 = pendd(e, b, 14); let p2 = pendd(e + udigs(b, 14, u), u % 4 * 16, 12);
    assert(e.len() == 8 * q + 2); assert(p2.len() == 8 * q + 6);
    assert(p2[8 * q + 2] == al(b + u / 16384) && p2[8 * q + 3] == al(u / 256 % 64) && p2[8 * q + 4] == al(u / 4 % 64) && p2[8 * q + 5] == al(u % 4 * 16) && p1[8 * q + 2] == al(b));
    lemma_al(b); lemma_al(b + u / 16384); lemma_al(u / 256 % 64); lemma_al(u / 4 % 64); lemma_al(u % 4 * 16);
    assert forall|j: int| 0 <= j < 3 * q + 1 implies #[trigger] bunit(p1, j, 44) == bunit(p2, j, 44) by { lemma_d3(j, q); if j < 3 * q { lemma_same(p1, p2, j, 3 * q, 8 * q); } else { assert(p1[8 * q] == p2[8 * q] && p1[8 * q + 1] == p2[8 * q + 1]); } }
    lemma_d3(3 * q + 1, q);
    lemma_more(p1, p2, 3 * q + 1, u);
}
#[verifier::spinoff_prover]
pub proof fn lemma_unit12(e: Seq<u8>, b: int, u: int)
    requires kst(e.len() as int, b, 12), 0 <= u < 65536
    ensures bunits(pendd(e + udigs(b, 12, u), 0, 10), 44) == bunits(pendd(e, b, 12), 44).push(u)
{
    reveal(udigs); let q = e.len() as int / 8; lemma_u(u); lemma_div8(q); lemma_div8(q + 1); lemma_b16(b, u / 4096);
    let p1 = pendd(e, b, 12); let p2 = pendd(e + udigs(b, 12, u), 0, 10);
    assert(e.len() == 8 * q + 5); assert(p2.len() == 8 * (q + 1));
    assert(p2[8 * q + 5] == al(b + u / 4096) && p2[8 * q + 6] == al(u / 64 % 64) && p2[8 * q + 7] == al(u % 64) && p1[8 * q + 5] == al(b));
    lemma_al(b); lemma_al(b + u / 4096); lemma_al(u / 64 % 64); lemma_al(u % 64);
    assert forall|j: int| 0 <= j < 3 * q + 2 implies #[trigger] bunit(p1, j, 44) == bunit(p2, j, 44) by { lemma_d3(j, q); if j < 3 * q { lemma_same(p1, p2, j, 3 * q, 8 * q); } else { assert(p1[8 * q] == p2[8 * q] && p1[8 * q + 1] == p2[8 * q + 1] && p1[8 * q + 2] == p2[8 * q + 2] && p1[8 * q + 3] == p2[8 * q + 3] && p1[8 * q + 4] == p2[8 * q + 4]); } }
    lemma_d3(3 * q + 2, q);
    lemma_more(p1, p2, 3 * q + 2, u);
}
// one more unit
pub proof fn lemma_unit(e: Seq<u8>, b: int, k: int, u: int)
    requires kst(e.len() as int, b, k), all_dig(e), 0 <= u < 65536
    ensures ({ let e2 = e + udigs(b, k, u); let b2 = nextb(k, u); let k2 = nextk(k);
        kst(e2.len() as int, b2, k2) && all_dig(e2) && all_dig(udigs(b, k, u)) && bunits(pendd(e2, b2, k2), 44) == bunits(pendd(e, b, k), 44).push(u) }),
{
    reveal(udigs); lemma_u(u);
    if k == 10 { lemma_unit10(e, u); } else if k == 14 { lemma_unit14(e, b, u); lemma_b4(b, u / 16384); } else { lemma_unit12(e, b, u); lemma_b16(b, u / 4096); }
    let e2 = e + udigs(b, k, u); let d = udigs(b, k, u);
    if k == 10 { lemma_al(u / 1024); lemma_al(u / 16 % 64); } else if k == 14 { lemma_al(b + u / 16384); lemma_al(u / 256 % 64); lemma_al(u / 4 % 64); } else { lemma_al(b + u / 4096); lemma_al(u / 64 % 64); lemma_al(u % 64); }
    assert(all_dig(d));
    assert(d.len() == (if k == 10 { 2int } else { 3int }));
    assert forall|i: int| 0 <= i < e2.len() implies is_dig(#[trigger] e2[i], 44) by { if i >= e.len() { assert(e2[i] == d[i - e.len()]); } else { assert(e2[i] == e[i]); } }
}
pub proof fn lemma_bits(b: i32, u: i32) requires 0 <= u < 65536, 0 <= b < 64
    ensures u >> 10i32 == u / 1024, u >> 14i32 == u / 16384, u >> 12i32 == u / 4096, 0i32 | (u >> 10i32) == u / 1024,
        (u >> 4i32) & 63i32 == u / 16 % 64, (u << 2i32) & 63i32 == u % 16 * 4,
        b % 4 == 0 ==> (b | (u >> 14i32)) == b + u / 16384, (u >> 8i32) & 63i32 == u / 256 % 64, (u >> 2i32) & 63i32 == u / 4 % 64, (u << 4i32) & 63i32 == u % 4 * 16,
        b % 16 == 0 ==> (b | (u >> 12i32)) == b + u / 4096, (u >> 6i32) & 63i32 == u / 64 % 64, (u >> 0i32) & 63i32 == u % 64, (u << 6i32) & 63i32 == 0,
{
    assert(u >> 10i32 == u / 1024 && u >> 14i32 == u / 16384 && u >> 12i32 == u / 4096 && 0i32 | (u >> 10i32) == u / 1024) by(bit_vector) requires 0 <= u < 65536;
    assert((u >> 4i32) & 63i32 == u / 16 % 64 && (u << 2i32) & 63i32 == (u % 16) * 4 && (u >> 8i32) & 63i32 == u / 256 % 64 && (u >> 2i32) & 63i32 == u / 4 % 64 && (u << 4i32) & 63i32 == (u % 4) * 16) by(bit_vector) requires 0 <= u < 65536;
    assert((u >> 6i32) & 63i32 == u / 64 % 64 && (u >> 0i32) & 63i32 == u % 64 && (u << 6i32) & 63i32 == 0) by(bit_vector) requires 0 <= u < 65536;
    if b % 4 == 0 { assert((b | (u >> 14i32)) == b + (u >> 14i32)) by(bit_vector) requires 0 <= u < 65536, 0 <= b < 64, b % 4 == 0; }
    if b % 16 == 0 { assert((b | (u >> 12i32)) == b + (u >> 12i32)) by(bit_vector) requires 0 <= u < 65536, 0 <= b < 64, b % 16 == 0; }
}
// a run goes on with digits
pub proof fn lemma_m_digs(o: Seq<u8>, d: Seq<u8>)
    requires mrun(o).b64, all_dig(d)
    ensures mrun(o + d) == (MSt { d: mrun(o).d + d, ..mrun(o) })
    decreases d.len()
{
    if d.len() == 0 { assert(o + d =~= o); assert(mrun(o).d + d =~= mrun(o).d); }
    else {
        let e = d.drop_last(); assert(all_dig(e)) by { assert forall|i: int| 0 <= i < e.len() implies is_dig(#[trigger] e[i], 44) by { assert(e[i] == d[i]); } }
        lemma_m_digs(o, e); assert(o + d =~= (o + e).push(d.last())); lemma_m_push(o + e, d.last()); assert(is_dig(d[d.len() - 1], 44));
        assert(mrun(o).d + d =~= (mrun(o).d + e).push(d.last()));
    }
}
// the end of a run
pub open spec fn closed_run(o: Seq<u8>, b: int, k: int) -> Seq<u8> { (if k > 10 { o.push(al(b)) } else { o }).push(45) }
pub proof fn lemma_m_close(o: Seq<u8>, b: int, k: int)
    requires mrun(o).b64, mrun(o).d.len() > 0, kst(mrun(o).d.len() as int, b, k)
    ensures mrun(closed_run(o, b, k)) == (MSt { b64: false, d: Seq::empty(), o: mrun(o).o + bunits(pendd(mrun(o).d, b, k), 44), ..mrun(o) })
{
    if k > 10 { lemma_m_push(o, al(b)); lemma_al(b); lemma_m_push(o.push(al(b)), 45); } else { lemma_m_push(o, 45); }
}
pub proof fn lemma_m_sep(o: Seq<u8>, hs: u8)
    requires !mrun(o).b64
    ensures ({ let e = o.push(38).push(al(0)).push(al(hs as int / 16)).push(al(hs as int % 16 * 4)).push(45);
        mrun(e) == (MSt { o: mrun(o).o.push(hs as int), b64: false, d: Seq::empty(), ..mrun(o) }) })
{
    let a = hs as int / 16; let c = hs as int % 16 * 4; lemma_al(0); lemma_al(a); lemma_al(c);
    let o1 = o.push(38); let o2 = o1.push(al(0)); let o3 = o2.push(al(a)); let o4 = o3.push(al(c));
    lemma_m_push(o, 38); lemma_m_push(o1, al(0)); lemma_m_push(o2, al(a)); lemma_m_push(o3, al(c)); lemma_m_push(o4, 45);
    let d = mrun(o4).d; assert(d =~= seq![al(0), al(a), al(c)]);
    reveal(bunits); assert(bunit(d, 0, 44) == hs as int); assert(bunits(d, 44) =~= seq![hs as int]);
    assert(mrun(o).o + seq![hs as int] =~= mrun(o).o.push(hs as int));
}
pub open spec fn dirb(ch: u8) -> Seq<u8> { if ch == 38 { seq![38u8, 45] } else { seq![ch] } }
pub proof fn lemma_m_dir(o: Seq<u8>, ch: u8)
    requires !mrun(o).b64, mrun(o).d.len() == 0, 0x20 <= ch < 0x7f
    ensures mrun(o + dirb(ch)) == (MSt { o: mrun(o).o.push(ch as int), ..mrun(o) })
{
    if ch == 38 { lemma_m_push(o, 38); lemma_m_push(o.push(38), 45); assert(o + dirb(ch) =~= o.push(38).push(45)); assert(mrun(o).o + seq![38int] =~= mrun(o).o.push(38)); assert(mrun(o).d =~= Seq::empty()); }
    else { lemma_m_push(o, ch); assert(o + dirb(ch) =~= o.push(ch)); }
}
// ---- UTF-8
pub open spec fn hor(s: Seq<u8>, i: int, x: int, j: int) -> int decreases j { if j <= 0 { x } else { hor(s, i, x, j - 1) * 64 + (s[i + j] - 0x80) } }
pub open spec fn lead(c: u8) -> int { if c < 0x80 { c as int } else if c < 0xe0 { c - 0xc0 } else if c < 0xf0 { c - 0xe0 } else { c - 0xf0 } }
pub open spec fn pw(j: int) -> int { if j == 0 { 1 } else if j == 1 { 64 } else if j == 2 { 4096 } else if j == 3 { 262144 } else if j == 4 { 16777216 } else { 1073741824 } }
pub open spec fn lim(n: int, j: int) -> int { (if n == 0 { 128int } else if n == 1 { 32 } else if n == 2 { 16 } else if n == 3 { 8 } else if n == 4 { 4 } else { 2 }) * pw(j) }
pub proof fn lemma_lim(n: int, j: int, ch: int, x: int) requires 0 <= j < n <= 5, 0 <= ch < lim(n, j), 0 <= x < 64 ensures 0 <= ch * 64 + x < lim(n, j + 1), lim(n, j + 1) <= 0x8000_0000, ch < 0x200_0000
{
    if n == 1 { assert(j == 0); } else if n == 2 { assert(j == 0 || j == 1); } else if n == 3 { assert(j == 0 || j == 1 || j == 2); } else if n == 4 { assert(j == 0 || j == 1 || j == 2 || j == 3); } else { assert(j == 0 || j == 1 || j == 2 || j == 3 || j == 4); }
}
pub proof fn lemma_hor(s: Seq<u8>, i: int)
    requires clen(s, i) > 0
    ensures 1 <= clen(s, i) <= 4, i + clen(s, i) <= s.len(), cpt(s, i) == hor(s, i, lead(s[i]), clen(s, i) - 1), 0 <= cpt(s, i) <= 0x10ffff,
        forall|j: int| 1 <= j < clen(s, i) ==> cont(#[trigger] s[i + j]),
        clen(s, i) >= 2 ==> cpt(s, i) >= 0x80, clen(s, i) == 3 ==> cpt(s, i) >= 0x800, clen(s, i) == 4 ==> cpt(s, i) >= 0x10000, clen(s, i) == 1 ==> s[i] < 0x80, clen(s, i) == 2 ==> 0xc2 <= s[i] < 0xe0, clen(s, i) == 3 ==> 0xe0 <= s[i] < 0xf0, clen(s, i) == 4 ==> 0xf0 <= s[i] < 0xf5,
        clen(s, i) == 1 ==> cpt(s, i) == s[i],
{ reveal(clen); reveal(cpt); reveal_with_fuel(hor, 5); }
pub proof fn lemma_cont(c: u8) ensures forall|x: i32| x == sc2i(c) ==> (#[trigger] (x & 192i32) != 128i32 <==> !cont(c)), forall|x: i32| x == sc2i(c) ==> 0 <= #[trigger] (x & 63i32) < 64 && (cont(c) ==> x & 63i32 == c - 0x80)
{
    assert forall|x: i32| x == sc2i(c) implies (#[trigger] (x & 192i32) != 128i32 <==> !cont(c)) by {
        assert((x & 192i32) == 128i32 <==> (-128 <= x < -64)) by(bit_vector) requires -128 <= x < 128;
    }
    assert forall|x: i32| x == sc2i(c) implies 0 <= #[trigger] (x & 63i32) < 64 && (cont(c) ==> x & 63i32 == c - 0x80) by {
        if x < -64 { assert(x & 63i32 == x + 128) by(bit_vector) requires -128 <= x < -64; }
        assert(0 <= x & 63i32 < 64) by(bit_vector);
    }
}
pub proof fn lemma_step(s: Seq<u8>, i: int)
    requires utf8_ok(s, i), i < s.len()
    ensures clen(s, i) > 0, utf8_ok(s, i + clen(s, i)), units(s, i) == units1(cpt(s, i)) + units(s, i + clen(s, i)), i >= 0
{ reveal_with_fuel(utf8_ok, 2); reveal_with_fuel(units, 2); }
pub proof fn lemma_no_ch(o: Seq<u8>, c: u8, b: int, k: int)
    requires no_ch(o, c), sep_ok(c), 0 <= b < 64
    ensures no_ch(closed_run(o, b, k), c), forall|x: u8| x != c ==> no_ch(#[trigger] o.push(x), c)
{ lemma_al(b); }
pub proof fn lemma_units1(cp: int) requires 0 <= cp <= 0x10ffff ensures units1(cp).len() == (if cp < 0x10000 { 1int } else { 2 }), cp < 0x10000 ==> units1(cp)[0] == cp, cp >= 0x10000 ==> units1(cp)[0] == 0xd7c0 + cp / 1024 && units1(cp)[1] == 0xdc00 + cp % 1024
{ reveal(units1); }

@fn vmime::net::imap::IMAPUtils::toModifiedUTF7 as to_mutf7
@isolate
@rlimit 40
@ensures
    sep_ok(hierarchySeparator) && utf8_ok(comp_utf8(*text), 0) ==> mutf7_ok(res@) && mutf7(res@) == units(comp_utf8(*text), 0) && no_ch(res@, hierarchySeparator),
@hint start
    proof {
        assert forall|v: int| 0 <= v < 64 implies #[trigger] tb_base64alphabet(v) == al(v) by {}
        let h = hierarchySeparator as u32;
        assert((h & 240u32) >> 4i32 == h / 16 && (h & 15u32) << 2i32 == (h % 16) * 4) by(bit_vector) requires h < 256;
    }
@hint loop 1 pre
    let ghost good = sep_ok(hierarchySeparator) && utf8_ok(cvt@, 0);
    let ghost mut of = out@; let ghost mut wf = false; let ghost mut bf = 0int; let ghost mut kf = 0int;
    let ghost total = units(cvt@, 0); let ghost sep = hierarchySeparator;
    proof { assert(cvt@ == comp_utf8(*text)); reveal(mrun); assert(hsUTF7@ =~= seq![al(0), al(sep as int / 16), al(sep as int % 16 * 4)]); assert(mrun(out@).o + total =~= total); }
@loop 1 invariant
    forall|v: int| 0 <= v < 64 ==> #[trigger] tb_base64alphabet(v) == al(v), sep == hierarchySeparator, good == (sep_ok(hierarchySeparator) && utf8_ok(comp_utf8(*text), 0)), 
    i <= len, len == cvt.len(), remaining == len - i, 0 <= b < 64, mrun(out@).ok, mrun(out@).b64 == base64,
    !base64 ==> mrun(out@).d.len() == 0,
    base64 ==> mrun(out@).d.len() > 0 && all_dig(mrun(out@).d) && kst(mrun(out@).d.len() as int, b as int, k as int),
    hsUTF7@ == seq![al(0), al(sep as int / 16), al(sep as int % 16 * 4)],
    good ==> utf8_ok(cvt@, i as int) && no_ch(out@, sep),
    good && !base64 ==> mrun(out@).o + units(cvt@, i as int) == total,
    good && base64 ==> mrun(out@).o + bunits(pendd(mrun(out@).d, b as int, k as int), 44) + units(cvt@, i as int) == total,
@loop 1 decreases
    len - i
@hint loop 1 begin
    let ghost i0 = i as int; let ghost o0 = out@; let ghost b0 = b as int; let ghost k0 = k as int; let ghost was = base64; let ghost mut dirx = false; let ghost mut oe = o0;
    proof {
        if good { lemma_step(cvt@, i0); lemma_hor(cvt@, i0); if was { lemma_no_ch(o0, sep, b0, k0); } }
        if was { lemma_m_close(o0, b0, k0); }
    }
@hint before ~str_append\(&mut out~
    proof { if was { assert(out@ == closed_run(o0, b0, k0)); } }
    let ghost o1 = out@;
@hint after ~str_append\(&mut out~
    proof {
        let hh = sep; let e = o1.push(38).push(al(0)).push(al(hh as int / 16)).push(al(hh as int % 16 * 4)).push(45);
        assert(out@ =~= e); lemma_m_sep(o1, hh);
        if good {
            reveal(clen); reveal(cpt); reveal(units1); assert(units1(sep as int) == seq![sep as int]);
            assert(units(cvt@, i0) == seq![sep as int] + units(cvt@, i0 + 1));
            lemma_no_ch(o1, sep, 0, 0); lemma_no_ch(o1.push(38), sep, 0, 0);
            assert forall|q: int| 0 <= q < e.len() implies #[trigger] e[q] != sep by { if q < o1.len() { assert(o1[q] != sep); } else { lemma_al(0); lemma_al(hh as int / 16); lemma_al(hh as int % 16 * 4); } }
            assert(mrun(o1).o + (seq![sep as int] + units(cvt@, i0 + 1)) =~= mrun(o1).o.push(sep as int) + units(cvt@, i0 + 1));
        }
    }
@hint before ~if \(n > remaining\)~
    proof {
        let ci = c as i32;
        if 192 <= ci < 224 { assert(ci & 31i32 == ci - 192) by(bit_vector) requires 192 <= ci < 224; }
        else if 224 <= ci < 240 { assert(ci & 15i32 == ci - 224) by(bit_vector) requires 224 <= ci < 240; }
        else if 240 <= ci < 248 { assert(ci & 7i32 == ci - 240) by(bit_vector) requires 240 <= ci < 248; }
        else if 248 <= ci < 252 { assert(ci & 3i32 == ci - 248) by(bit_vector) requires 248 <= ci < 252; }
        else if 252 <= ci < 254 { assert(ci & 1i32 == ci - 252) by(bit_vector) requires 252 <= ci < 254; }
    }
@hint loop 2 pre
    proof { reveal_with_fuel(hor, 1); }
@hint loop 1 end
    proof { if dirx { assert(out@ =~= oe); } }
@loop 2 invariant
    good == (sep_ok(hierarchySeparator) && utf8_ok(comp_utf8(*text), 0)), len == cvt.len(), i0 >= 0, good ==> i0 + clen(cvt@, i0) <= len, good ==> forall|j: int| 1 <= j < clen(cvt@, i0) ==> cont(#[trigger] cvt@[i0 + j]),
    i == i0 + 1, n <= 5, j <= n, remaining == len - i, 0 <= ch < lim(n as int, j as int), i0 < len, i + j <= len,
    good ==> n + 1 == clen(cvt@, i0) && ch == hor(cvt@, i0, lead(cvt@[i0]), j as int),
@loop 2 decreases
    n - j
@hint loop 2 begin
    let ghost ch2 = ch as int; let ghost j2 = j as int; let ghost x2 = scz(cvt@, i + j);
    proof { lemma_cont(x2); if good { assert(cont(cvt@[i0 + (j + 1)])); } }
@hint loop 2 end
    proof {
        let y = (sc2i(x2) as i32) & 63i32; lemma_lim(n as int, j2, ch2, y as int);
        let z = ch2 as i32; assert((z << 6i32) | y == z * 64 + y) by(bit_vector) requires 0 <= z < 0x200_0000, 0 <= y < 64;
    }
@hint before ~if \(\(n > 1usize\)~
    proof {
        let c3 = ch;
        assert(c3 >> 11usize == c3 / 2048 && c3 >> 16usize == c3 / 65536) by(bit_vector) requires 0 <= c3;
    }
@hint before ~unit = \(if~
    proof { assert(ch >> 10i32 == ch / 1024 && (56320i32 | (ch & 1023i32)) == 56320 + ch % 1024) by(bit_vector) requires 0 <= ch <= 0x10ffff; }
@hint loop 3 pre
    let ghost base = if was { mrun(o0).o + bunits(pendd(mrun(o0).d, b0, k0), 44) } else { mrun(o0).o };
    proof {
        if !was { lemma_m_push(o0, 38); reveal(bunits); assert(mrun(out@).o + bunits(Seq::empty(), 44) =~= base); }
        lemma_units1(ch as int); assert(base + units1(ch as int).take(0) =~= base);
    }
@loop 3 invariant
    forall|v: int| 0 <= v < 64 ==> #[trigger] tb_base64alphabet(v) == al(v), good ==> sep_ok(sep),
    0 <= u <= unitCount, 0 <= ch <= 0x10ffff, unitCount == (if ch > 0xffff { 2int } else { 1 }), base64, 0 <= b < 64,
    mrun(out@).ok, mrun(out@).b64, all_dig(mrun(out@).d), kst(mrun(out@).d.len() as int, b as int, k as int), u > 0 ==> mrun(out@).d.len() > 0,
    good ==> no_ch(out@, sep) && mrun(out@).o + bunits(pendd(mrun(out@).d, b as int, k as int), 44) == base + units1(ch as int).take(u as int),
@loop 3 decreases
    unitCount - u
@hint loop 3 begin
    let ghost o3 = out@; let ghost kk = k as int; let ghost bb = b as int; let ghost u3 = u as int;
@hint before ~out.push\(tget_base64alphabet\(idx_i32\(\(b \|~
    let ghost dd = udigs(bb, kk, unit as int);
    proof {
        assert(ch >> 10i32 == ch / 1024 && (56320i32 | (ch & 1023i32)) == 56320 + ch % 1024) by(bit_vector) requires 0 <= ch <= 0x10ffff;
        lemma_units1(ch as int); assert(0 <= unit < 65536 && unit == units1(ch as int)[u3]);
        lemma_bits(b, unit); lemma_u(unit as int); if kk == 14 { lemma_b4(bb, unit as int / 16384); } if kk == 12 { lemma_b16(bb, unit as int / 4096); }
        lemma_unit(mrun(o3).d, bb, kk, unit as int); lemma_m_digs(o3, dd); reveal(udigs);
    }
@loop 4 invariant
    forall|v: int| 0 <= v < 64 ==> #[trigger] tb_base64alphabet(v) == al(v), dd == udigs(bb, kk, unit as int), 
    kk == 10 || kk == 14 || kk == 12, b == bb, 0 <= b < 64, 0 <= unit < 65536,
    (k == kk - 6 && out@ == o3.push(dd[0])) || (k == kk - 12 && out@ == o3.push(dd[0]).push(dd[1])) || (kk != 10 && k == kk - 18 && out@ == o3.push(dd[0]).push(dd[1]).push(dd[2])),
@loop 4 decreases
    k + 18
@hint loop 4 begin
    proof { lemma_bits(b, unit); lemma_u(unit as int); reveal(udigs); }
@hint loop 3 end
    proof {
        assert(out@ =~= o3 + dd) by { reveal(udigs); }
        lemma_bits(bb as i32, unit);
        assert(k == nextk(kk) && b == nextb(kk, unit as int));
        if good {
            assert(units1(ch as int).take(u3 + 1) =~= units1(ch as int).take(u3).push(unit as int));
            assert((base + units1(ch as int).take(u3)).push(unit as int) =~= base + units1(ch as int).take(u3 + 1));
            assert((mrun(o3).o + bunits(pendd(mrun(o3).d, bb, kk), 44)).push(unit as int) =~= mrun(o3).o + bunits(pendd(mrun(o3).d, bb, kk), 44).push(unit as int));
            assert forall|q: int| 0 <= q < out@.len() implies #[trigger] out@[q] != sep by { if q < o3.len() { assert(o3[q] != sep); } else { assert(is_dig(dd[q - o3.len()], 44)); } }
        }
    }
@hint before ~out.push\(i32_to_u8\(ch\)\)~
    let ghost o1 = out@;
    proof {
        if was { assert(out@ == closed_run(o0, b0, k0)); }
        dirx = true; oe = o1 + dirb(ch as u8);
        lemma_m_dir(o1, ch as u8); lemma_units1(ch as int);
        assert(i == i0 + 1 + n); assert(mrun(o1).ok);
        if good {
            assert(units1(ch as int) =~= seq![ch as int]);
            lemma_no_ch(o1, sep, 0, 0); lemma_no_ch(o1.push(38), sep, 0, 0); assert(ch != sep); assert(o1 + dirb(ch as u8) =~= if ch == 38 { o1.push(38).push(45) } else { o1.push(ch as u8) });
            assert(mrun(o1).o + (seq![ch as int] + units(cvt@, i as int)) =~= mrun(o1).o.push(ch as int) + units(cvt@, i as int));
        }
    }
@hint loop 1 post
    proof { of = out@; wf = base64; bf = b as int; kf = k as int; reveal(units); if base64 { lemma_m_close(of, bf, kf); assert(mrun(of).o + bunits(pendd(mrun(of).d, bf, kf), 44) + Seq::empty() =~= mrun(of).o + bunits(pendd(mrun(of).d, bf, kf), 44)); } else { assert(mrun(of).o + Seq::empty() =~= mrun(of).o); } }
@hint before ~return str_clone\(&out\)~
    proof { if out@.len() > 0 { if wf { assert(out@ =~= closed_run(of, bf, kf)); } } }
@rust
pub open spec fn cm(d: Seq<u8>) -> Seq<u8> { Seq::new(d.len(), |i: int| if d[i] == 44 { 47u8 } else { d[i] }) }
pub proof fn lemma_cm(d: Seq<u8>) requires all_dig(d) ensures bunits(cm(d), 47) == bunits(d, 44)
{
    reveal(bunits);
    let e = cm(d);
    assert forall|i: int| 0 <= i < d.len() implies dig(#[trigger] e[i], 47) == dig(d[i], 44) by { assert(is_dig(d[i], 44)); }
    assert forall|j: int| 0 <= j < (6 * d.len()) / 16 implies bunit(e, j, 47) == bunit(d, j, 44) by {
        let q = j / 3; assert(j == 3 * q + j % 3);
        assert(0 <= 8 * q && 8 * q + (if j % 3 == 0 { 3int } else if j % 3 == 1 { 6int } else { 8int }) <= d.len());
    }
    assert(bunits(e, 47) =~= bunits(d, 44));
}
// '+', '\' and '~' in UTF-7
pub open spec fn esc(c: u8) -> Seq<u8> { if c == 92 { seq![43u8, 65, 70, 119, 45] } else if c == 126 { seq![43u8, 65, 72, 52, 45] } else { seq![43u8, 45] } }
pub proof fn lemma_esc(o: Seq<u8>, c: u8)
    requires !urun(o).b64, c == 43 || c == 92 || c == 126
    ensures urun(o + esc(c)) == (MSt { o: urun(o).o.push(c as int), b64: false, d: Seq::empty(), ..urun(o) })
{
    let o1 = o.push(43); lemma_u_push(o, 43);
    if c == 43 { lemma_u_push(o1, 45); assert(o + esc(c) =~= o1.push(45)); assert(urun(o).o + seq![43int] =~= urun(o).o.push(43)); }
    else {
        let x = esc(c); let o2 = o1.push(x[1]); let o3 = o2.push(x[2]); let o4 = o3.push(x[3]);
        lemma_u_push(o1, x[1]); lemma_u_push(o2, x[2]); lemma_u_push(o3, x[3]); lemma_u_push(o4, 45);
        assert(o + x =~= o4.push(45));
        let d = urun(o4).d; assert(d =~= seq![x[1], x[2], x[3]]);
        reveal(bunits); assert(bunit(d, 0, 47) == c as int); assert(bunits(d, 47) =~= seq![c as int]);
        assert(urun(o).o + seq![c as int] =~= urun(o).o.push(c as int));
    }
}
pub open spec fn rel(m: MSt, o: Seq<u8>, inb: bool, plus: bool, prev: u8) -> bool {
    let u = urun(o);
    &&& inb == m.b64 && u.ok && u.o == m.o
    &&& if !m.b64 { !u.b64 && m.d.len() == 0 } else if m.d.len() == 0 { !u.b64 && !plus && prev == 38 } else { u.b64 && plus && u.d == cm(m.d) && all_dig(m.d) && prev != 38 }
}
@rust
// "+-" between encoded characters is understood as "+" (tests/net/imap/IMAPUtilsTest.cpp asks for it): names with "+-" are left out
pub open spec fn no_pm(o: Seq<int>) -> bool { forall|i: int| 0 <= i < o.len() - 1 && #[trigger] o[i] == 43 ==> o[i + 1] != 45 }
pub open spec fn from_ok(t: Seq<u8>, c: Comp) -> bool { mutf7_ok(t) && no_pm(mutf7(t)) ==> forall|w: Seq<u8>| #[trigger] utf8_ok(w, 0) && units(w, 0) == mutf7(t) ==> comp_utf8(c) == w }
// what has been read stays read
pub proof fn lemma_m_mono(t: Seq<u8>, n: int)
    requires 0 <= n <= t.len()
    ensures mrun(t.take(n)).o.len() <= mrun(t).o.len(), mrun(t.take(n)).o == mrun(t).o.take(mrun(t.take(n)).o.len() as int), mrun(t).ok ==> mrun(t.take(n)).ok
    decreases t.len() - n
{
    if n < t.len() {
        lemma_m_mono(t, n + 1); assert(t.take(n + 1) =~= t.take(n).push(t[n])); lemma_m_push(t.take(n), t[n]);
        let a = mrun(t.take(n)).o; let b = mrun(t.take(n + 1)).o;
        assert(b.take(a.len() as int) =~= a);
        assert(mrun(t).o.take(a.len() as int) =~= b.take(a.len() as int));
    } else { assert(t.take(n) =~= t); assert(mrun(t).o.take(mrun(t).o.len() as int) =~= mrun(t).o); }
}
// '+' on its own, then '-' on its own
pub proof fn lemma_pm(t: Seq<u8>, n: int)
    requires 0 <= n, n + 1 < t.len(), mrun(t).ok, !mrun(t.take(n)).b64, t[n] == 43, t[n + 1] == 45
    ensures !no_pm(mrun(t).o)
{
    lemma_m_mono(t, n + 2); assert(t.take(n + 1) =~= t.take(n).push(t[n])); assert(t.take(n + 2) =~= t.take(n + 1).push(t[n + 1]));
    lemma_m_push(t.take(n), t[n]); lemma_m_push(t.take(n + 1), t[n + 1]);
    let k = mrun(t.take(n)).o.len() as int; let b = mrun(t.take(n + 2)).o; let o = mrun(t).o;
    assert(b[k] == 43 && b[k + 1] == 45); assert(o.take(b.len() as int)[k] == o[k]); assert(o.take(b.len() as int)[k + 1] == o[k + 1]);
}
@fn vmime::net::imap::IMAPUtils::fromModifiedUTF7 as from_mutf7
@ensures
    from_ok(text@, res),
@hint loop 1 pre
    let ghost good = mutf7_ok(text@) && no_pm(mutf7(text@));
    proof { reveal(mrun); reveal(urun); assert(text@.take(0).len() == 0); assert(text@.take(text.len() as int) =~= text@); }
@loop 1 invariant
    it <= text.len(), good == (mutf7_ok(text@) && no_pm(mutf7(text@))), good ==> mrun(text@.take(it as int)).ok && rel(mrun(text@.take(it as int)), out@, inB64sequence, plusOutput, prev),
@loop 1 decreases
    text.len() - it
@hint loop 1 begin
    let ghost i0 = it as int; let ghost o0 = out@; let ghost m0 = mrun(text@.take(i0)); let ghost inb = inB64sequence; let ghost pl = plusOutput; let ghost m1 = mrun(text@.take(i0 + 1));
    proof { assert(text@.take(i0 + 1) =~= text@.take(i0).push(text@[i0])); lemma_m_push(text@.take(i0), text@[i0]); if good && inb { lemma_cm(m0.d); } if good { lemma_m_mono(text@, i0 + 1); if !inb && text@[i0] == 43 && i0 + 1 < text.len() && text@[i0 + 1] == 45 { lemma_pm(text@, i0); } } }
@hint loop 1 end
    proof {
        if good {
            assert(m0.ok && m1.ok);
            if !inb {
                if c == 43 || c == 92 || c == 126 { lemma_esc(o0, c); assert(out@ =~= o0 + esc(c)); } else if c != 38 { lemma_u_push(o0, c); assert(out@ =~= o0.push(c)); }
            } else if c == 45 {
                if m0.d.len() == 0 { lemma_u_push(o0, 38); assert(m0.o + seq![38int] =~= m0.o.push(38)); } else { lemma_u_push(o0, 45); assert(m0.o =~= urun(o0).o); }
            } else {
                let cc = if c == 44 { 47u8 } else { c };
                if !pl { lemma_u_push(o0, 43); lemma_u_push(o0.push(43), cc); assert(out@ =~= o0.push(43).push(cc)); } else { lemma_u_push(o0, cc); assert(out@ =~= o0.push(cc)); }
                if m0.d.len() == 0 { assert(m0.d =~= Seq::empty()); assert(cm(m0.d) =~= Seq::empty()); }
                assert(cm(m1.d) =~= cm(m0.d).push(cc));
                assert(all_dig(m1.d));
            }
        }
    }
@rust
// PROPERTY: a folder name (valid UTF-8) is sent as printable ASCII without the separator, and read back as it was
fn property_mutf7(sep: u8, c: &Comp) -> (r: Comp)
    requires sep_ok(sep), utf8_ok(comp_utf8(*c), 0), no_pm(units(comp_utf8(*c), 0))
    ensures comp_utf8(r) == comp_utf8(*c)
{ let t = to_mutf7(sep, c); from_mutf7(&t) }
@source src/vmime/utility/path.cpp
@type (const )?(.*::path|path) = stru:Path
@type .*std::vector<.*(component|word).*> = vec:stru:Comp
@type (.*::)?list = vec:stru:Comp
@struct vmime::utility::path as Path
@rust
#[verifier::external_body]
pub fn clone_Comp(c: &Comp) -> (r: Comp) ensures r == *c { unimplemented!() }
pub fn clone_Path(p: &Path) -> (r: Path) ensures r.m_list@ == p.m_list@
{
    let mut v: Vec<Comp> = Vec::new();
    for i in 0..p.m_list.len() invariant v@ == p.m_list@.take(i as int) { v.push(clone_Comp(&p.m_list[i])); proof { assert(v@ =~= p.m_list@.take(i as int + 1)); } }
    proof { assert(p.m_list@.take(p.m_list.len() as int) =~= p.m_list@); }
    Path { m_list: v }
}
// how one component is written, and what a written component stands for
pub open spec fn to_ok(sep: u8, c: Comp, t: Seq<u8>) -> bool { sep_ok(sep) && utf8_ok(comp_utf8(c), 0) ==> mutf7_ok(t) && mutf7(t) == units(comp_utf8(c), 0) && no_ch(t, sep) }
#[verifier::opaque]
pub open spec fn joined(sep: u8, p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() { if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { joined(sep, p.drop_last()).push(sep) + p.last() } }
pub struct Sp { pub done: Seq<Seq<u8>>, pub cur: Seq<u8> }
#[verifier::opaque]
pub open spec fn splitat(sep: u8, s: Seq<u8>) -> Sp decreases s.len() {
    if s.len() == 0 { Sp { done: Seq::empty(), cur: Seq::empty() } } else {
        let p = splitat(sep, s.drop_last());
        if s.last() == sep { Sp { done: p.done.push(p.cur), cur: Seq::empty() } } else { Sp { done: p.done, cur: p.cur.push(s.last()) } }
    }
}
// the components written in s: the last one does not count when it is empty
pub open spec fn pieces(sep: u8, s: Seq<u8>) -> Seq<Seq<u8>> { let p = splitat(sep, s); if p.cur.len() > 0 { p.done.push(p.cur) } else { p.done } }
pub proof fn lemma_sp_push(sep: u8, s: Seq<u8>, c: u8)
    ensures splitat(sep, s.push(c)) == (if c == sep { Sp { done: splitat(sep, s).done.push(splitat(sep, s).cur), cur: Seq::empty() } } else { Sp { done: splitat(sep, s).done, cur: splitat(sep, s).cur.push(c) } })
{ reveal_with_fuel(splitat, 2); assert(s.push(c).drop_last() =~= s); }
pub proof fn lemma_sp_add(sep: u8, s: Seq<u8>, t: Seq<u8>)
    requires no_ch(t, sep)
    ensures splitat(sep, s + t).done == splitat(sep, s).done, splitat(sep, s + t).cur == splitat(sep, s).cur + t
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); assert(splitat(sep, s).cur + t =~= splitat(sep, s).cur); }
    else { let u = t.drop_last(); lemma_sp_add(sep, s, u); assert(s + t =~= (s + u).push(t.last())); lemma_sp_push(sep, s + u, t.last()); assert(splitat(sep, s).cur + t =~= (splitat(sep, s).cur + u).push(t.last())); }
}
pub proof fn lemma_join_split(sep: u8, p: Seq<Seq<u8>>)
    requires p.len() > 0, forall|i: int| 0 <= i < p.len() ==> no_ch(#[trigger] p[i], sep)
    ensures splitat(sep, joined(sep, p)).done == p.drop_last(), splitat(sep, joined(sep, p)).cur == p.last()
    decreases p.len()
{
    reveal_with_fuel(joined, 2); reveal_with_fuel(splitat, 1);
    let e = Seq::<u8>::empty();
    if p.len() == 1 { lemma_sp_add(sep, e, p[0]); assert(e + p[0] =~= p[0]); assert(p.drop_last() =~= Seq::empty()); }
    else {
        let q = p.drop_last(); let a = joined(sep, q);
        assert forall|i: int| 0 <= i < q.len() implies no_ch(#[trigger] q[i], sep) by { assert(q[i] == p[i]); }
        lemma_join_split(sep, q); lemma_sp_push(sep, a, sep); lemma_sp_add(sep, a.push(sep), p.last());
        assert(q.drop_last().push(q.last()) =~= q); assert(e + p.last() =~= p.last());
        assert(joined(sep, p) == a.push(sep) + p.last());
        assert(splitat(sep, a.push(sep)).cur + p.last() =~= p.last()) by { assert(splitat(sep, a.push(sep)).cur =~= e); }
    }
}
pub open spec fn written(sep: u8, l: Seq<Comp>, n: int, t: Seq<u8>, p: Seq<Seq<u8>>) -> bool { p.len() == n && n <= l.len() && t == joined(sep, p) && forall|i: int| 0 <= i < n ==> to_ok(sep, l[i], #[trigger] p[i]) }
@ctor Path 0 = path_new
@fn vmime::utility::path::path ~void ()~ as path_new
@ensures
    res.m_list@ == Seq::<Comp>::empty(),
@fn vmime::utility::path::getSize as path_size
@ensures
    res == this.m_list.len(),
@fn vmime::utility::path::operator[] ~(const size_t) const~ as path_at
@requires
    x < this.m_list.len(),
@ensures
    res == this.m_list@[x as int],
@fn vmime::utility::path::operator/= ~component &)~ as path_append
@ensures
    final(this).m_list@ == old(this).m_list@.push(*c),
@source src/vmime/net/imap/IMAPUtils.cpp
@fn vmime::net::imap::IMAPUtils::pathToString as path_to
@ensures
    exists|p: Seq<Seq<u8>>| #[trigger] written(hierarchySeparator, path.m_list@, path.m_list.len() as int, res@, p),
@hint loop 1 pre
    let ghost mut pc = Seq::<Seq<u8>>::empty(); let ghost sep = hierarchySeparator;
    proof { reveal(joined); assert(result@ =~= joined(sep, pc)); }
@loop 1 invariant
    i <= path.m_list.len(), written(hierarchySeparator, path.m_list@, i as int, result@, pc),
@loop 1 decreases
    path.m_list.len() - i
@hint loop 1 begin
    let ghost r0 = result@; let ghost p0 = pc;
@hint after ~str_append~
    proof {
        pc = p0.push(t5__@); reveal_with_fuel(joined, 2);
        assert(pc.drop_last() =~= p0);
        assert(joined(sep, pc) =~= result@);
        assert forall|j: int| 0 <= j < pc.len() implies to_ok(sep, path.m_list@[j], #[trigger] pc[j]) by { if j < p0.len() { assert(pc[j] == p0[j]); } }
    }
@hint end
    proof { assert(written(sep, path.m_list@, path.m_list.len() as int, result@, pc)); }
@fn vmime::net::imap::IMAPUtils::stringToPath as path_from
@ensures
    res.m_list.len() == pieces(hierarchySeparator, str@).len(),
    forall|i: int| 0 <= i < res.m_list.len() ==> from_ok(pieces(hierarchySeparator, str@)[i], #[trigger] res.m_list@[i]),
@hint loop 1 pre
    proof { reveal(splitat); assert(str@.take(0) =~= Seq::empty()); assert(str@.take(str.len() as int) =~= str@); }
@loop 1 invariant
    begin <= it <= str.len(), ({ let p = splitat(hierarchySeparator, str@.take(it as int)); p.cur == str@.subrange(begin as int, it as int) && result.m_list.len() == p.done.len() && forall|i: int| 0 <= i < p.done.len() ==> from_ok(#[trigger] p.done[i], result.m_list@[i]) }),
@loop 1 decreases
    str.len() - it
@hint loop 1 begin
    let ghost i0 = it as int; let ghost b0 = begin as int; let ghost l0 = result.m_list@; let ghost sep = hierarchySeparator;
    proof { lemma_sp_push(sep, str@.take(i0), str@[i0]); assert(str@.take(i0 + 1) =~= str@.take(i0).push(str@[i0])); }
@hint loop 1 end
    proof {
        let p = splitat(sep, str@.take(i0)); let q = splitat(sep, str@.take(i0 + 1));
        if str@[i0] == sep {
            assert(q.cur =~= str@.subrange(begin as int, i0 + 1));
            assert forall|i: int| 0 <= i < q.done.len() implies from_ok(#[trigger] q.done[i], result.m_list@[i]) by { if i < p.done.len() { assert(q.done[i] == p.done[i]); assert(result.m_list@[i] == l0[i]); } }
        } else { assert(q.cur =~= str@.subrange(b0, i0 + 1)); }
    }
@hint loop 1 post
    let ghost l1 = result.m_list@;
@rust
// PROPERTY: the name of a folder on the server is turned back into the path it was made from
fn property_path(sep: u8, p: &Path) -> (r: Path)
    requires sep_ok(sep), forall|i: int| 0 <= i < p.m_list.len() ==> utf8_ok(comp_utf8(#[trigger] p.m_list@[i]), 0) && no_pm(units(comp_utf8(p.m_list@[i]), 0)) && comp_utf8(p.m_list@[i]).len() > 0
    ensures r.m_list.len() == p.m_list.len(), forall|i: int| 0 <= i < p.m_list.len() ==> comp_utf8(#[trigger] r.m_list@[i]) == comp_utf8(p.m_list@[i])
{
    let t = path_to(sep, p);
    let r = path_from(sep, &t);
    proof {
        let w = choose|w: Seq<Seq<u8>>| #[trigger] written(sep, p.m_list@, p.m_list.len() as int, t@, w);
        assert forall|i: int| 0 <= i < w.len() implies no_ch(#[trigger] w[i], sep) && w[i].len() > 0 by {
            assert(to_ok(sep, p.m_list@[i], w[i]));
            let c = comp_utf8(p.m_list@[i]);
            assert(utf8_ok(c, 0) && c.len() > 0);
            reveal(mrun); reveal_with_fuel(units, 2); reveal_with_fuel(utf8_ok, 2);
            assert(units(c, 0) == units1(cpt(c, 0)) + units(c, clen(c, 0)));
            let a1 = units1(cpt(c, 0)); let a2 = units(c, clen(c, 0)); reveal(units1); assert(a1.len() > 0); assert((a1 + a2).len() == a1.len() + a2.len()); assert(units(c, 0).len() > 0);
            if w[i].len() == 0 { assert(w[i] =~= Seq::empty()); assert(mrun(w[i]).o.len() == 0); }
        }
        if w.len() > 0 { lemma_join_split(sep, w); assert(w.drop_last().push(w.last()) =~= w); assert(pieces(sep, t@) =~= w); }
        else { reveal(joined); reveal(splitat); }
        assert forall|i: int| 0 <= i < p.m_list.len() implies comp_utf8(#[trigger] r.m_list@[i]) == comp_utf8(p.m_list@[i]) by {
            assert(from_ok(pieces(sep, t@)[i], r.m_list@[i])); assert(to_ok(sep, p.m_list@[i], w[i]));
            assert(utf8_ok(comp_utf8(p.m_list@[i]), 0));
        }
    }
    r
}
