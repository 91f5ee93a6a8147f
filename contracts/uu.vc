@unit uu
@use strings streams
@rlimit 40
@source src/vmime/utility/encoder/uuEncoder.cpp
@struct vmime::utility::encoder::uuEncoder as UU
@extrafield UU.props props
@extrafield UU.results props

@rust
pub open spec fn uch(v: int) -> u8 { (v % 64 + 32) as u8 }
pub open spec fn uv(c: u8) -> int { (c as int + 32) % 64 }   // (c - 32) mod 64
pub open spec fn at0(d: Seq<u8>, i: int) -> int { if i < d.len() { d[i] as int } else { 0 } }
// one group of three bytes (missing bytes are zero)
pub open spec fn ugrp(a: int, b: int, c: int) -> Seq<u8> { seq![uch(a / 4), uch((a % 4) * 16 + b / 16), uch((b % 16) * 4 + c / 64), uch(c % 64)] }
pub open spec fn ugroups(d: Seq<u8>, i: int) -> Seq<u8> decreases (if i <= d.len() { d.len() - i } else { 0 }) {
    if i >= d.len() || i < 0 { Seq::empty() } else { ugrp(at0(d, i), at0(d, i + 1), at0(d, i + 2)) + ugroups(d, i + 3) }
}
pub open spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
pub open spec fn uline(d: Seq<u8>) -> Seq<u8> { seq![uch(d.len() as int)] + ugroups(d, 0) + crlf() }
pub open spec fn ubody(ls: Seq<Seq<u8>>) -> Seq<u8> decreases ls.len() { if ls.len() == 0 { Seq::empty() } else { ubody(ls.drop_last()) + uline(ls.last()) } }
pub open spec fn uflat(ls: Seq<Seq<u8>>) -> Seq<u8> decreases ls.len() { if ls.len() == 0 { Seq::empty() } else { uflat(ls.drop_last()) + ls.last() } }
pub open spec fn uhead(m: Seq<u8>, f: Seq<u8>) -> Seq<u8> {
    if f.len() == 0 { slit_begin() + crlf() } else { slit_begin() + seq![32u8] + m + seq![32u8] + f + crlf() }
}
pub open spec fn uend() -> Seq<u8> { seq![101u8, 110u8, 100u8, 13u8, 10u8] }
pub open spec fn lines_ok(ls: Seq<Seq<u8>>) -> bool { forall|k: int| 0 <= k < ls.len() ==> #[trigger] ls[k].len() <= 45 }
// the text written for data d: header, lines of at most 45 bytes, trailer
pub open spec fn u_text(t: Seq<u8>, ls: Seq<Seq<u8>>, d: Seq<u8>, m: Seq<u8>, f: Seq<u8>) -> bool { lines_ok(ls) && uflat(ls) == d && t == uhead(m, f) + ubody(ls) + uend() }

// ---- decoder
pub open spec fn tlf(t: Seq<u8>, n: int) -> Seq<u8> { t.subrange(n, t.len() as int) }
pub open spec fn usp(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 13 }
pub open spec fn ub0(t: Seq<u8>, i: int) -> u8 { ((uv(t[i]) * 4) % 256 + uv(t[i + 1]) / 16) as u8 }
pub open spec fn ub1(t: Seq<u8>, i: int) -> u8 { ((uv(t[i + 1]) * 16) % 256 + uv(t[i + 2]) / 4) as u8 }
pub open spec fn ub2(t: Seq<u8>, i: int) -> u8 { ((uv(t[i + 2]) * 64) % 256 + uv(t[i + 3])) as u8 }
pub open spec fn ubyte(t: Seq<u8>, k: int) -> u8 { if k % 3 == 0 { ub0(t, k / 3 * 4) } else if k % 3 == 1 { ub1(t, k / 3 * 4) } else { ub2(t, k / 3 * 4) } }
pub open spec fn ubytes(t: Seq<u8>, n: int) -> Seq<u8> { Seq::new(n as nat, |k: int| ubyte(t, k)) }
pub open spec fn glen(n: int) -> int { (n + 2) / 3 * 4 }
pub open spec fn is_begin(t: Seq<u8>) -> bool { t.len() >= 6 && t[0] == 98 && t[1] == 101 && t[2] == 103 && t[3] == 105 && t[4] == 110 && usp(t[5]) }
pub open spec fn is_end(t: Seq<u8>) -> bool { t.len() >= 4 && t[0] == 101 && t[1] == 110 && t[2] == 100 && (t[3] == 13 || t[3] == 10) }
pub open spec fn lf(t: Seq<u8>, i: int) -> int decreases t.len() - i { if i >= t.len() || i < 0 { -1 } else if t[i] == 10 { i } else { lf(t, i + 1) } }
// position after the header line, 0 when the header never ends (or is longer than the 510 characters supported)
pub open spec fn after_head(t: Seq<u8>) -> int { let k = lf(t, 6); if k < 0 || k - 6 >= 511 { 0 } else { k + 1 } }
#[verifier::opaque]
pub open spec fn u_dec(t: Seq<u8>) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else if usp(t[0]) { u_dec(tlf(t, 1)) }
    else if is_begin(t) { let k = after_head(t); if 0 < k <= t.len() { u_dec(tlf(t, k)) } else { Seq::empty() } }
    else if is_end(t) { Seq::empty() }
    else { let n = glen(uv(t[0])); if t.len() < 1 + n { Seq::empty() } else { ubytes(tlf(t, 1), uv(t[0])) + u_dec(tlf(t, 1 + n)) } }
}
// no line starts like a header or a trailer without being one
#[verifier::opaque]
pub open spec fn u_ok(t: Seq<u8>) -> bool decreases t.len() {
    if t.len() == 0 { true }
    else if usp(t[0]) { u_ok(tlf(t, 1)) }
    else if is_begin(t) { let k = after_head(t); 0 < k <= t.len() && u_ok(tlf(t, k)) }
    else if is_end(t) { true }
    else { let n = glen(uv(t[0])); t[0] != 98 && t[0] != 101 && (t.len() < 1 + n || u_ok(tlf(t, 1 + n))) }
}
// header parsing: `mode name`
pub open spec fn ws_end(h: Seq<u8>, i: int) -> int decreases h.len() - i { if i >= h.len() || i < 0 || h[i] == 0 || !usp(h[i]) { i } else { ws_end(h, i + 1) } }
pub open spec fn tok_end(h: Seq<u8>, i: int) -> int decreases h.len() - i { if i >= h.len() || i < 0 || h[i] == 0 || usp(h[i]) { i } else { tok_end(h, i + 1) } }
pub open spec fn nl_end(h: Seq<u8>, i: int) -> int decreases h.len() - i { if i >= h.len() || i < 0 || h[i] == 0 || h[i] == 13 || h[i] == 10 { i } else { nl_end(h, i + 1) } }
pub open spec fn h_mode(h: Seq<u8>) -> Seq<u8> { h.subrange(ws_end(h, 0), tok_end(h, ws_end(h, 0))) }
pub open spec fn h_name(h: Seq<u8>) -> Seq<u8> { let a = ws_end(h, tok_end(h, ws_end(h, 0))); h.subrange(a, nl_end(h, a)) }
pub open spec fn u_head_of(t: Seq<u8>) -> Seq<u8> { t.subrange(6, after_head(t) - 1) }
// (mode, name) of the last header line
#[verifier::opaque]
pub open spec fn u_name(t: Seq<u8>, cur: Option<Seq<u8>>) -> Option<Seq<u8>> decreases t.len() {
    if t.len() == 0 { cur }
    else if usp(t[0]) { u_name(tlf(t, 1), cur) }
    else if is_begin(t) { let k = after_head(t); if 0 < k <= t.len() { u_name(tlf(t, k), Some(if k == 7 { slit_untitled() } else { h_name(u_head_of(t)) })) } else { cur } }
    else if is_end(t) { cur }
    else { let n = glen(uv(t[0])); if t.len() < 1 + n { cur } else { u_name(tlf(t, 1 + n), cur) } }
}
pub proof fn lemma_ends(h: Seq<u8>, i: int) requires 0 <= i <= h.len()
    ensures i <= ws_end(h, i) <= h.len(), i <= tok_end(h, i) <= h.len(), i <= nl_end(h, i) <= h.len() decreases h.len() - i
{ if i < h.len() { lemma_ends(h, i + 1); } }
pub proof fn lemma_lf(t: Seq<u8>, i: int) requires 0 <= i <= t.len()
    ensures lf(t, i) == -1 || (i <= lf(t, i) < t.len() && t[lf(t, i)] == 10), forall|k: int| i <= k < t.len() && (lf(t, i) < 0 || k < lf(t, i)) ==> t[k] != 10
    decreases t.len() - i
{ if i < t.len() { lemma_lf(t, i + 1); } }
pub proof fn lemma_lf_at(t: Seq<u8>, i: int, k: int) requires 0 <= i <= k < t.len(), t[k] == 10, forall|j: int| i <= j < k ==> t[j] != 10 ensures lf(t, i) == k decreases k - i
{ if i < k { lemma_lf_at(t, i + 1, k); } }

pub open spec fn ubits_ok() -> bool {
        (forall|c: u8| #[trigger] ((c as i32) >> 2i32) == c / 4)
        && (forall|c: u8| #[trigger] ((c as i32) & 63i32) == c % 64)
        && (forall|x: u32| #[trigger] (x & 63u32) == x % 64)
}
pub proof fn lemma_ubits()
    ensures ubits_ok(),
        forall|c: u8| #[trigger] ((c as i32) >> 2i32) == c / 4,
        forall|c: u8| #[trigger] (((c as i32) << 4i32) & 48i32) == (c % 4) * 16,
        forall|c: u8| #[trigger] (((c as i32) >> 4i32) & 15i32) == c / 16,
        forall|c: u8| #[trigger] (((c as i32) << 2i32) & 60i32) == (c % 16) * 4,
        forall|c: u8| #[trigger] (((c as i32) >> 6i32) & 3i32) == c / 64,
        forall|c: u8| #[trigger] ((c as i32) & 63i32) == c % 64,
        forall|x: u32| #[trigger] (x & 63u32) == x % 64,
{
    assert forall|c: u8| #[trigger] ((c as i32) >> 2i32) == c / 4 by { assert((c as i32) >> 2i32 == (c / 4) as i32) by(bit_vector); }
    assert forall|c: u8| #[trigger] (((c as i32) << 4i32) & 48i32) == (c % 4) * 16 by { let x = (c as i32) << 4i32; let m = c % 4; let p = (m as i32); assert(((c as i32) << 4i32) & 48i32 == ((c % 4) as i32) << 4i32) by(bit_vector); assert(p << 4i32 == p * 16) by(bit_vector) requires 0 <= p < 4; }
    assert forall|c: u8| #[trigger] (((c as i32) >> 4i32) & 15i32) == c / 16 by { assert(((c as i32) >> 4i32) & 15i32 == (c / 16) as i32) by(bit_vector); }
    assert forall|c: u8| #[trigger] (((c as i32) << 2i32) & 60i32) == (c % 16) * 4 by { let m = c % 16; let p = (m as i32); assert(((c as i32) << 2i32) & 60i32 == ((c % 16) as i32) << 2i32) by(bit_vector); assert(p << 2i32 == p * 4) by(bit_vector) requires 0 <= p < 16; }
    assert forall|c: u8| #[trigger] (((c as i32) >> 6i32) & 3i32) == c / 64 by { assert(((c as i32) >> 6i32) & 3i32 == (c / 64) as i32) by(bit_vector); }
    assert forall|c: u8| #[trigger] ((c as i32) & 63i32) == c % 64 by { assert((c as i32) & 63i32 == (c % 64) as i32) by(bit_vector); }
    assert forall|x: u32| #[trigger] (x & 63u32) == x % 64 by { assert(x & 63u32 == x % 64) by(bit_vector); }
}
pub proof fn lemma_or(a: u8, b: u8, c: u8)
    ensures ((((a as i32) << 4i32) & 48i32) | (((b as i32) >> 4i32) & 15i32)) == (a % 4) * 16 + b / 16,
        ((((b as i32) << 2i32) & 60i32) | (((c as i32) >> 6i32) & 3i32)) == (b % 16) * 4 + c / 64,
{
    lemma_ubits();
    let x = ((a as i32) << 4i32) & 48i32; let y = ((b as i32) >> 4i32) & 15i32;
    assert((((a as i32) << 4i32) & 48i32) | (((b as i32) >> 4i32) & 15i32) == (((a as i32) << 4i32) & 48i32) + (((b as i32) >> 4i32) & 15i32)) by(bit_vector);
    assert((((b as i32) << 2i32) & 60i32) | (((c as i32) >> 6i32) & 3i32) == (((b as i32) << 2i32) & 60i32) + (((c as i32) >> 6i32) & 3i32)) by(bit_vector);
}
pub proof fn lemma_dec_or(x: u32, y: u32) requires x < 64, y < 64
    ensures ((x << 6i32) | y) == x * 64 + y, ((x << 4i32) | (y >> 2i32)) == x * 16 + y / 4, ((x << 2i32) | (y >> 4i32)) == x * 4 + y / 16
{
    assert(((x << 6i32) | y) == x * 64 + y) by(bit_vector) requires x < 64, y < 64;
    assert(((x << 4i32) | (y >> 2i32)) == x * 16 + y / 4) by(bit_vector) requires x < 64, y < 64;
    assert(((x << 2i32) | (y >> 4i32)) == x * 4 + y / 16) by(bit_vector) requires x < 64, y < 64;
}

pub proof fn lemma_uv(c: u8) ensures (usub32(c as int) & 63u32) == uv(c), uv(c) < 64 { let x = usub32(c as int); assert((x & 63u32) == x % 64) by(bit_vector); }
pub open spec fn usub32(c: int) -> u32 { if c >= 32 { (c - 32) as u32 } else { (c - 32 + 0x1_0000_0000) as u32 } }
pub proof fn lemma_udec(x: u32, y: u32) requires x < 64, y < 64
    ensures ((x << 6i32) | y) % 256 == (x * 64) % 256 + y, ((x << 4i32) | (y >> 2i32)) % 256 == (x * 16) % 256 + y / 4, ((x << 2i32) | (y >> 4i32)) % 256 == x * 4 + y / 16
{
    assert(((x << 6i32) | y) % 256 == add((x * 64) as u32 % 256, y)) by(bit_vector) requires x < 64, y < 64;
    assert(((x << 4i32) | (y >> 2i32)) % 256 == add((x * 16) as u32 % 256, y / 4)) by(bit_vector) requires x < 64, y < 64;
    assert(((x << 2i32) | (y >> 4i32)) % 256 == add((x * 4) as u32, y / 16)) by(bit_vector) requires x < 64, y < 64;
}
pub proof fn lemma_tl(d: Seq<u8>, p: int, q: int) requires 0 <= p <= q <= d.len() ensures tlf(tlf(d, p), q - p) == tlf(d, q), tlf(d, p).len() == d.len() - p, p < q ==> tlf(d, p)[0] == d[p] { assert(tlf(tlf(d, p), q - p) =~= tlf(d, q)); }
pub open spec fn same3(a: Seq<u8>, b: Seq<u8>) -> bool { u_dec(a) == u_dec(b) && u_ok(a) == u_ok(b) && forall|c: Option<Seq<u8>>| u_name(a, c) == #[trigger] u_name(b, c) }
pub proof fn lemma_space(t: Seq<u8>) requires t.len() > 0, usp(t[0]) ensures same3(t, tlf(t, 1))
{ reveal(u_dec); reveal(u_ok); reveal(u_name); assert forall|c: Option<Seq<u8>>| u_name(t, c) == #[trigger] u_name(tlf(t, 1), c) by {} }
pub proof fn lemma_begin(t: Seq<u8>, c: Option<Seq<u8>>) requires is_begin(t)
    ensures u_ok(t) ==> { let k = after_head(t); 0 < k <= t.len() && u_ok(tlf(t, k)) && u_dec(t) == u_dec(tlf(t, k))
        && u_name(t, c) == u_name(tlf(t, k), Some(if k == 7 { slit_untitled() } else { h_name(u_head_of(t)) })) }
{ reveal(u_dec); reveal(u_ok); reveal(u_name); }
pub proof fn lemma_endt(t: Seq<u8>, c: Option<Seq<u8>>, o: Seq<u8>) requires is_end(t) || t.len() == 0 ensures o + u_dec(t) == o, u_name(t, c) == c
{ reveal(u_dec); reveal(u_name); assert(o + Seq::<u8>::empty() =~= o); }
pub proof fn lemma_data(t: Seq<u8>, c: Option<Seq<u8>>, o: Seq<u8>) requires t.len() > 0, !usp(t[0]), !is_begin(t), !is_end(t)
    ensures u_ok(t) ==> { let n = glen(uv(t[0])); t[0] != 98 && t[0] != 101
        && if t.len() < 1 + n { o + u_dec(t) == o && u_name(t, c) == c } else { u_ok(tlf(t, 1 + n)) && o + u_dec(t) == (o + ubytes(tlf(t, 1), uv(t[0]))) + u_dec(tlf(t, 1 + n)) && u_name(t, c) == u_name(tlf(t, 1 + n), c) } }
{ reveal(u_dec); reveal(u_ok); reveal(u_name); assert(o + Seq::<u8>::empty() =~= o); if t.len() >= 1 + glen(uv(t[0])) { lemma_assoc(o, ubytes(tlf(t, 1), uv(t[0])), u_dec(tlf(t, 1 + glen(uv(t[0]))))); } }
pub open spec fn q0(a: u8, b: u8) -> u8 { ((uv(a) * 4) % 256 + uv(b) / 16) as u8 }
pub open spec fn q1(a: u8, b: u8) -> u8 { ((uv(a) * 16) % 256 + uv(b) / 4) as u8 }
pub open spec fn q2(a: u8, b: u8) -> u8 { ((uv(a) * 64) % 256 + uv(b)) as u8 }
pub proof fn lemma_ub(t: Seq<u8>, g: int) requires g >= 0
    ensures ubyte(t, 3 * g) == q0(t[4 * g], t[4 * g + 1]), ubyte(t, 3 * g + 1) == q1(t[4 * g + 1], t[4 * g + 2]), ubyte(t, 3 * g + 2) == q2(t[4 * g + 2], t[4 * g + 3]) {}
pub proof fn lemma_quad(a: u8, b: u8, c: u8, d: u8)
    ensures ({ let x = usub32(a as int) & 63u32; let y = usub32(b as int) & 63u32; let z = usub32(c as int) & 63u32; let w = usub32(d as int) & 63u32;
        ((x << 2i32) | (y >> 4i32)) % 256 == q0(a, b) && ((y << 4i32) | (z >> 2i32)) % 256 == q1(b, c) && ((z << 6i32) | w) % 256 == q2(c, d) })
{
    lemma_uv(a); lemma_uv(b); lemma_uv(c); lemma_uv(d);
    lemma_udec(usub32(a as int) & 63u32, usub32(b as int) & 63u32); lemma_udec(usub32(b as int) & 63u32, usub32(c as int) & 63u32); lemma_udec(usub32(c as int) & 63u32, usub32(d as int) & 63u32);
}
// ---- the round trip over the two contracts
pub proof fn lemma_groups(d: Seq<u8>, i: int) requires 0 <= i, i % 3 == 0
    ensures ugroups(d, i).len() == (if i >= d.len() { 0 } else { glen(d.len() - i) }), forall|k: int| 0 <= k < ugroups(d, i).len() ==> 32 <= #[trigger] ugroups(d, i)[k] <= 95
    decreases (if i <= d.len() { d.len() - i } else { 0 })
{ if i < d.len() { lemma_groups(d, i + 3); } }
pub proof fn lemma_group_at(d: Seq<u8>, i: int, g: int)
    requires 0 <= i, i % 3 == 0, 0 <= g, i + 3 * g < d.len()
    ensures 4 * g + 4 <= ugroups(d, i).len(),
        ugroups(d, i)[4 * g] == ugrp(at0(d, i + 3 * g), at0(d, i + 3 * g + 1), at0(d, i + 3 * g + 2))[0],
        ugroups(d, i)[4 * g + 1] == ugrp(at0(d, i + 3 * g), at0(d, i + 3 * g + 1), at0(d, i + 3 * g + 2))[1],
        ugroups(d, i)[4 * g + 2] == ugrp(at0(d, i + 3 * g), at0(d, i + 3 * g + 1), at0(d, i + 3 * g + 2))[2],
        ugroups(d, i)[4 * g + 3] == ugrp(at0(d, i + 3 * g), at0(d, i + 3 * g + 1), at0(d, i + 3 * g + 2))[3],
    decreases g
{ lemma_groups(d, i); lemma_groups(d, i + 3); if g > 0 { lemma_group_at(d, i + 3, g - 1); } }
pub proof fn lemma_grp_dec(a: int, b: int, c: int, g: Seq<u8>)
    requires 0 <= a < 256, 0 <= b < 256, 0 <= c < 256, g == ugrp(a, b, c) ensures ub0(g, 0) == a, ub1(g, 0) == b, ub2(g, 0) == c
{
    let v0 = uv(g[0]); let v1 = uv(g[1]); let v2 = uv(g[2]); let v3 = uv(g[3]);
    assert(v0 == a / 4); assert(v1 == (a % 4) * 16 + b / 16); assert(v2 == (b % 16) * 4 + c / 64); assert(v3 == c % 64);
    assert((a / 4) * 4 + (a % 4) == a);
    assert((v1 * 16) % 256 == (b / 16) * 16) by { assert(v1 * 16 == (a % 4) * 256 + (b / 16) * 16); }
    assert((v2 * 64) % 256 == (c / 64) * 64) by { assert(v2 * 64 == (b % 16) * 256 + (c / 64) * 64); }
}
pub proof fn lemma_line_bytes(d: Seq<u8>, t: Seq<u8>)
    requires t.len() >= ugroups(d, 0).len(), t.subrange(0, ugroups(d, 0).len() as int) == ugroups(d, 0)
    ensures ubytes(t, d.len() as int) == d
{
    let u = ugroups(d, 0);
    lemma_groups(d, 0);
    assert forall|k: int| 0 <= k < d.len() implies ubytes(t, d.len() as int)[k] == d[k] by {
        let g = k / 3;
        lemma_group_at(d, 0, g);
        let p = ugrp(at0(d, 3 * g), at0(d, 3 * g + 1), at0(d, 3 * g + 2));
        lemma_grp_dec(at0(d, 3 * g), at0(d, 3 * g + 1), at0(d, 3 * g + 2), p);
        assert(t[4 * g] == u[4 * g] && t[4 * g + 1] == u[4 * g + 1] && t[4 * g + 2] == u[4 * g + 2] && t[4 * g + 3] == u[4 * g + 3]) by { let s = t.subrange(0, u.len() as int); assert(s[4 * g] == t[4 * g] && s[4 * g + 1] == t[4 * g + 1] && s[4 * g + 2] == t[4 * g + 2] && s[4 * g + 3] == t[4 * g + 3]); }
    }
    assert(ubytes(t, d.len() as int) =~= d);
}
pub proof fn lemma_skip_crlf(r: Seq<u8>)
    ensures u_dec(crlf() + r) == u_dec(r), u_ok(crlf() + r) == u_ok(r), forall|c: Option<Seq<u8>>| u_name(crlf() + r, c) == #[trigger] u_name(r, c)
{
    reveal(u_dec); reveal(u_ok); reveal(u_name);
    let a = crlf() + r;
    assert(tlf(tlf(a, 1), 1) =~= r);
    assert(a[0] == 13 && tlf(a, 1)[0] == 10);
    assert(u_dec(a) == u_dec(tlf(a, 1))); assert(u_dec(tlf(a, 1)) == u_dec(tlf(tlf(a, 1), 1)));
    assert(u_ok(a) == u_ok(tlf(a, 1))); assert(u_ok(tlf(a, 1)) == u_ok(tlf(tlf(a, 1), 1)));
    assert forall|c: Option<Seq<u8>>| u_name(a, c) == #[trigger] u_name(r, c) by { assert(u_name(a, c) == u_name(tlf(a, 1), c)); assert(u_name(tlf(a, 1), c) == u_name(tlf(tlf(a, 1), 1), c)); }
}
pub proof fn lemma_line_dec(d: Seq<u8>, r: Seq<u8>)
    requires d.len() <= 45
    ensures u_dec(uline(d) + r) == d + u_dec(r), u_ok(uline(d) + r) == u_ok(r), forall|c: Option<Seq<u8>>| u_name(uline(d) + r, c) == #[trigger] u_name(r, c)
{
    reveal(u_dec); reveal(u_ok); reveal(u_name);
    let t = uline(d) + r; let u = ugroups(d, 0);
    lemma_groups(d, 0);
    lemma_skip_crlf(r);
    assert(t[0] == uch(d.len() as int));
    if d.len() == 0 {
        assert(tlf(t, 1) =~= crlf() + r);
        assert(t[0] == 32);
        assert(d + u_dec(r) =~= u_dec(r));
        assert forall|c: Option<Seq<u8>>| u_name(t, c) == #[trigger] u_name(r, c) by { assert(u_name(t, c) == u_name(tlf(t, 1), c)); }
    } else {
        let n = glen(d.len() as int);
        assert(uv(t[0]) == d.len());
        assert(33 <= t[0] <= 77);
        assert(tlf(t, 1 + n) =~= crlf() + r);
        assert(tlf(t, 1).subrange(0, u.len() as int) =~= u);
        lemma_line_bytes(d, tlf(t, 1));
        assert forall|c: Option<Seq<u8>>| u_name(t, c) == #[trigger] u_name(r, c) by { assert(u_name(t, c) == u_name(tlf(t, 1 + n), c)); }
    }
}
pub proof fn lemma_body_dec(ls: Seq<Seq<u8>>, r: Seq<u8>)
    requires lines_ok(ls)
    ensures u_dec(ubody(ls) + r) == uflat(ls) + u_dec(r), u_ok(ubody(ls) + r) == u_ok(r), forall|c: Option<Seq<u8>>| u_name(ubody(ls) + r, c) == #[trigger] u_name(r, c)
    decreases ls.len()
{
    if ls.len() == 0 { assert(ubody(ls) + r =~= r); assert(uflat(ls) + u_dec(r) =~= u_dec(r)); }
    else {
        let p = ls.drop_last();
        assert(lines_ok(p)) by { assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k].len() <= 45 by { assert(p[k] == ls[k]); } }
        assert(ls.last().len() <= 45) by { assert(ls[ls.len() - 1].len() <= 45); }
        lemma_body_dec(p, uline(ls.last()) + r);
        lemma_line_dec(ls.last(), r);
        assert(ubody(ls) + r =~= ubody(p) + (uline(ls.last()) + r));
        assert(uflat(ls) + u_dec(r) =~= uflat(p) + (ls.last() + u_dec(r)));
        assert forall|c: Option<Seq<u8>>| u_name(ubody(ls) + r, c) == #[trigger] u_name(r, c) by { assert(u_name(uline(ls.last()) + r, c) == u_name(r, c)); }
    }
}
pub open spec fn m_ok(m: Seq<u8>) -> bool { m.len() > 0 && forall|k: int| 0 <= k < m.len() ==> !usp(#[trigger] m[k]) && m[k] != 0 }
pub open spec fn f_ok(f: Seq<u8>) -> bool { (f.len() > 0 ==> !usp(f[0])) && forall|k: int| 0 <= k < f.len() ==> #[trigger] f[k] != 0 && f[k] != 10 && f[k] != 13 }
pub proof fn lemma_tok_run(h: Seq<u8>, i: int, e: int)
    requires 0 <= i <= e <= h.len(), forall|k: int| i <= k < e ==> h[k] != 0 && !usp(#[trigger] h[k]), e < h.len() ==> usp(h[e]) || h[e] == 0 ensures tok_end(h, i) == e decreases e - i
{ if i < e { assert(!usp(h[i])); lemma_tok_run(h, i + 1, e); } }
pub proof fn lemma_nl_run(h: Seq<u8>, i: int, e: int)
    requires 0 <= i <= e < h.len(), forall|k: int| i <= k < e ==> #[trigger] h[k] != 0 && h[k] != 10 && h[k] != 13, h[e] == 13 ensures nl_end(h, i) == e decreases e - i
{ if i < e { assert(h[i] != 0); lemma_nl_run(h, i + 1, e); } }
pub proof fn lemma_head(m: Seq<u8>, f: Seq<u8>, r: Seq<u8>, c: Option<Seq<u8>>)
    requires m_ok(m), f_ok(f), m.len() + f.len() <= 500
    ensures u_dec(uhead(m, f) + r) == u_dec(r), u_ok(uhead(m, f) + r) == u_ok(r), u_name(uhead(m, f) + r, c) == u_name(r, Some(if f.len() == 0 { slit_untitled() } else { f }))
{
    reveal(u_dec); reveal(u_ok); reveal(u_name);
    let t = uhead(m, f) + r;
    assert(t[0] == 98 && t[1] == 101 && t[2] == 103 && t[3] == 105 && t[4] == 110);
    if f.len() == 0 {
        assert(t[5] == 13 && t[6] == 10);
        lemma_lf_at(t, 6, 6);
        assert(tlf(t, 7) =~= r);
    } else {
        let n = m.len() + f.len();
        let h = m + seq![32u8] + f + seq![13u8]; let hl = h.len() as int;
        assert(t[5] == 32);
        assert forall|k: int| 0 <= k < h.len() implies t[6 + k] == h[k] by {}
        assert forall|k: int| 0 <= k < h.len() implies #[trigger] h[k] != 10 by {
            if k < m.len() { assert(h[k] == m[k]); assert(!usp(m[k])); } else if k > m.len() && k < m.len() + 1 + f.len() { assert(h[k] == f[k - m.len() - 1]); } }
        assert forall|j: int| 6 <= j < 6 + h.len() implies t[j] != 10 by { assert(t[j] == h[j - 6]); }
        assert(t[6 + hl] == 10);
        lemma_lf_at(t, 6, 6 + hl);
        assert(after_head(t) == 7 + hl);
        assert(tlf(t, 7 + hl) =~= r);
        assert(u_head_of(t) =~= h);
        assert(h[0] == m[0]); assert(!usp(m[0]) && m[0] != 0);
        assert(ws_end(h, 0) == 0);
        assert forall|k: int| 0 <= k < m.len() implies h[k] != 0 && !usp(#[trigger] h[k]) by { assert(h[k] == m[k]); assert(!usp(m[k])); }
        let ml = m.len() as int;
        lemma_tok_run(h, 0, ml);
        assert(h[ml] == 32 && h[ml + 1] == f[0]);
        assert(ws_end(h, ml) == ml + 1) by { assert(ws_end(h, ml + 1) == ml + 1); }
        let e = ml + 1 + f.len();
        assert forall|k: int| ml + 1 <= k < e implies #[trigger] h[k] != 0 && h[k] != 10 && h[k] != 13 by { assert(h[k] == f[k - ml - 1]); }
        lemma_nl_run(h, ml + 1, e);
        assert(h_name(h) =~= f);
    }
}
// PROPERTY: the text written for any data, under any division in lines, decodes to the data, with the file name kept
pub proof fn property_roundtrip(t: Seq<u8>, ls: Seq<Seq<u8>>, d: Seq<u8>, m: Seq<u8>, f: Seq<u8>, c: Option<Seq<u8>>)
    requires u_text(t, ls, d, m, f), m_ok(m), f_ok(f), m.len() + f.len() <= 500
    ensures u_dec(t) == d, u_ok(t), u_name(t, c) == Some(if f.len() == 0 { slit_untitled() } else { f })
{
    assert(t =~= uhead(m, f) + (ubody(ls) + uend()));
    lemma_head(m, f, ubody(ls) + uend(), c);
    lemma_body_dec(ls, uend());
    reveal(u_dec); reveal(u_ok); reveal(u_name);
    assert(is_end(uend()));
    let nm = Some(if f.len() == 0 { slit_untitled() } else { f });
    assert(u_name(uend(), nm) == nm);
    assert(u_name(ubody(ls) + uend(), nm) == u_name(uend(), nm));
    assert(u_dec(uend()) =~= Seq::<u8>::empty());
    assert(uflat(ls) + u_dec(uend()) =~= d);
}
pub open spec fn p_name(p: Props) -> Seq<u8> { prop_str_or(p, sPROP_filename(), Seq::empty()) }
pub open spec fn p_mode(p: Props) -> Seq<u8> { prop_str_or(p, sPROP_mode(), slit_644()) }

@fn vmime::utility::encoder::readFully as uu_read_fully
@isolate
@requires
    old(in_).wf(), data_o + count <= old(data).len(), old(data).len() < 0x1_0000_0000,
@ensures
    final(in_).wf(), final(in_).data() == old(in_).data(), res <= count, final(in_).pos() == old(in_).pos() + res,
    final(data).len() == old(data).len(),
    forall|k: int| 0 <= k < final(data).len() ==> #[trigger] final(data)@[k] == (if data_o <= k < data_o + res { old(in_).data()[old(in_).pos() + k - data_o] } else { old(data)@[k] }),
    res < count ==> final(in_).pos() == final(in_).data().len(),
@loop 1 invariant
    in_.wf(), in_.data() == old(in_).data(), pos <= count, in_.pos() == old(in_).pos() + pos,
    data.len() == old(data).len(), data_o + count <= data.len(), data.len() < 0x1_0000_0000,
    forall|k: int| 0 <= k < data.len() ==> #[trigger] data@[k] == (if data_o <= k < data_o + pos { old(in_).data()[old(in_).pos() + k - data_o] } else { old(data)@[k] }),
@loop 1 ensures
    pos < count ==> in_.pos() == in_.data().len(),
@loop 1 decreases
    count - pos

@fn vmime::utility::encoder::uuEncoder::encode as uu_encode
@isolate
@requires
    old(in_).wf(),
@ensures
    exists|ls: Seq<Seq<u8>>, t: Seq<u8>| #![trigger u_text(t, ls, old(in_).data(), p_mode(old(this).props), p_name(old(this).props))] u_text(t, ls, old(in_).data(), p_mode(old(this).props), p_name(old(this).props)) && final(out).data() == old(out).data() + t,
@hint start
    let ghost d0 = in_.data(); let ghost w0 = out.data();
    let ghost mut ls = Seq::<Seq<u8>>::empty();
    proof { lemma_ubits(); }
@hint loop 1 pre
    proof {
        assert(out.data() =~= w0 + uhead(p_mode(this.props), p_name(this.props)));
        assert(out.data() + ubody(ls) =~= out.data());
        assert(d0.subrange(0, 0) =~= uflat(ls));
    }
    let ghost w1 = out.data();
@loop 1 invariant
    in_.wf(), in_.data() == d0, 2 <= maxLineLength <= 46, inBuffer.len() == 64, outBuffer.len() == 64,
    lines_ok(ls), uflat(ls) == d0.subrange(0, in_.pos()), out.data() == w1 + ubody(ls),
    w1 == w0 + uhead(p_mode(this.props), p_name(this.props)),
    ubits_ok(),
@loop 1 ensures
    in_.pos() == d0.len(),
@loop 1 decreases
    d0.len() - in_.pos(), (if in_.hit() { 0int } else { 1int })
@hint loop 1 begin
    let ghost pos0 = in_.pos();
@hint loop 2 pre
    let ghost ln = d0.subrange(pos0, in_.pos());
    proof { lemma_groups(ln, 0); assert(outBuffer@.subrange(1, 1) + ugroups(ln, 0) =~= ugroups(ln, 0)); }
@loop 2 invariant
    ln.len() == inLength, inLength <= 45, inBuffer.len() == 64, outBuffer.len() == 64, ubits_ok(),
    forall|k: int| 0 <= k < 64 ==> #[trigger] inBuffer@[k] == at0(ln, k),
    i % 3 == 0, 0 <= i <= inLength + 2, j == 1 + i / 3 * 4,
    outBuffer@[0] == uch(inLength as int),
    outBuffer@.subrange(1, j as int) + ugroups(ln, i as int) == ugroups(ln, 0),
@loop 2 decreases
    inLength + 3 - i
@hint loop 2 begin
    let ghost b0 = outBuffer@; let ghost j0 = j as int; let ghost i0 = i as int;
    proof { lemma_or(inBuffer@[i as int], inBuffer@[i + 1], inBuffer@[i + 2]); }
@hint loop 2 end
    proof {
        let g = ugrp(at0(ln, i0), at0(ln, i0 + 1), at0(ln, i0 + 2));
        assert(outBuffer@ == b0.update(j0, g[0]).update(j0 + 1, g[1]).update(j0 + 2, g[2]).update(j0 + 3, g[3]));
        assert(outBuffer@.subrange(1, j0 + 4) =~= b0.subrange(1, j0) + g);
        lemma_assoc(b0.subrange(1, j0), g, ugroups(ln, i0 + 3));
    }
@hint loop 2 post
    proof { assert(ugroups(ln, i as int) =~= Seq::<u8>::empty()); assert(outBuffer@.subrange(1, j as int) =~= ugroups(ln, 0)); }
@hint loop 1 end
    proof {
        assert(outBuffer@.subrange(0, j + 2) =~= uline(ln));
        let l2 = ls.push(ln);
        assert(l2.drop_last() =~= ls);
        assert(w1 + ubody(ls) + uline(ln) =~= w1 + ubody(l2));
        assert(d0.subrange(0, pos0) + ln =~= d0.subrange(0, in_.pos()));
        ls = l2;
    }
@hint end
    proof {
        let t = uhead(p_mode(this.props), p_name(this.props)) + ubody(ls) + uend();
        assert(d0.subrange(0, d0.len() as int) =~= d0);
        assert(slit_56ac7bbf() =~= uend());
        assert(out.data() =~= w0 + t);
        assert(u_text(t, ls, d0, p_mode(this.props), p_name(this.props)));
    }

@fn vmime::utility::encoder::uuEncoder::decode as uu_decode
@isolate
@requires
    old(in_).wf(),
@ensures
    u_ok(old(in_).data()) ==> final(out).data() == old(out).data() + u_dec(old(in_).data())
        && prop_str(final(this).results, sPROP_filename()) == u_name(old(in_).data(), prop_str(old(this).results, sPROP_filename())),
@hint start
    let ghost d0 = in_.data(); let ghost w0 = out.data(); let ghost nm0 = prop_str(this.results, sPROP_filename());
    proof { lemma_ubits(); }
@hint loop 1 pre
    proof { assert(tlf(d0, 0) =~= d0); }
@loop 1 invariant
    in_.wf(), in_.data() == d0, inBuffer.len() == 84, outBuffer.len() == 63, ubits_ok(),
    d0 == old(in_).data(), w0 == old(out).data(), nm0 == prop_str(old(this).results, sPROP_filename()),
@loop 1 xinvariant
    !stop && u_ok(d0) ==> u_ok(tlf(d0, in_.pos())) && out.data() + u_dec(tlf(d0, in_.pos())) == w0 + u_dec(d0)
        && u_name(tlf(d0, in_.pos()), prop_str(this.results, sPROP_filename())) == u_name(d0, nm0),
    stop && u_ok(d0) ==> out.data() == w0 + u_dec(d0) && prop_str(this.results, sPROP_filename()) == u_name(d0, nm0),
@loop 1 ensures
    in_.wf(), in_.data() == d0,
    u_ok(d0) ==> (out.data() == w0 + u_dec(d0) && prop_str(this.results, sPROP_filename()) == u_name(d0, nm0))
        || (in_.pos() == d0.len() && out.data() + u_dec(tlf(d0, in_.pos())) == w0 + u_dec(d0) && u_name(tlf(d0, in_.pos()), prop_str(this.results, sPROP_filename())) == u_name(d0, nm0)),
@hint loop 1 post
    proof { if in_.pos() == d0.len() { lemma_endt(tlf(d0, in_.pos()), prop_str(this.results, sPROP_filename()), out.data()); } }
@hint before `inTotal = uadd_usize(inTotal, 5usize);`
    proof { assert(inBuffer@[0] == d0[p0 + 1] && inBuffer@[1] == d0[p0 + 2] && inBuffer@[2] == d0[p0 + 3] && inBuffer@[3] == d0[p0 + 4] && inBuffer@[4] == d0[p0 + 5]); assert(is_begin(rem)); lemma_begin(rem, nm); }
@hint before `stop = true;`
    proof { assert(inBuffer@[0] == d0[p0 + 1] && inBuffer@[1] == d0[p0 + 2] && inBuffer@[2] == d0[p0 + 3]); assert(is_end(rem)); lemma_endt(rem, nm, o0); }
@loop 1 decreases
    d0.len() - in_.pos(), (if stop { 0int } else if in_.hit() { 1int } else { 2int })
@hint loop 1 begin
    let ghost p0 = in_.pos(); let ghost rem = tlf(d0, p0); let ghost o0 = out.data();
    let ghost nm = prop_str(this.results, sPROP_filename());
    proof { lemma_lf(rem, if rem.len() >= 6 { 6 } else { rem.len() as int }); if p0 < d0.len() { lemma_tl(d0, p0, p0 + 1); } }
@hint before ~^.*let mut outLength: usize~
    proof { lemma_tl(d0, p0, p0 + 1); assert(lengthChar == rem[0]); lemma_uv(lengthChar); }
@hint before ~^\s*continue~ #1
    proof { lemma_space(rem); }
@loop 2 invariant
    in_.wf(), in_.data() == d0, buffer.len() == 512, count <= 511, rem == tlf(d0, p0), 0 <= p0, p0 + 6 + count <= d0.len(),
    forall|k: int| 0 <= k < count ==> #[trigger] buffer@[k] == rem[6 + k] && buffer@[k] != 10,
@loop 2 xinvariant
    in_.pos() == p0 + 6 + count, c != 10,
@loop 2 ensures
    c == 10 ==> in_.pos() == p0 + 7 + count && in_.pos() <= d0.len() && rem[6 + count] == 10 && count < 511,
    c != 10 ==> in_.pos() == p0 + 6 + count && (count == 511 || in_.pos() == d0.len()),
@loop 2 decreases
    511 - count
@hint loop 2 post
    proof {
        if c == 10 {
            assert(forall|k: int| 6 <= k < 6 + count ==> rem[k] != 10) by { assert forall|k: int| 6 <= k < 6 + count implies rem[k] != 10 by { assert(buffer@[k - 6] != 10); } }
            lemma_lf_at(rem, 6, 6 + count as int);
            assert(after_head(rem) == 7 + count);
            lemma_tl(d0, p0, p0 + 7 + count as int);
        } else {
            assert(forall|k: int| 6 <= k < 6 + count ==> rem[k] != 10) by { assert forall|k: int| 6 <= k < 6 + count implies rem[k] != 10 by { assert(buffer@[k - 6] != 10); } }
            assert(after_head(rem) == 0);
        }
    }
@hint after ~PROP_filename\(\), &t~ #1
    proof { assert(p == nl_end(hd, a3)); assert(a3 == ws_end(hd, tok_end(hd, ws_end(hd, 0)))); assert(buffer@.subrange(a3, p as int) =~= h_name(hd)); }
@hint before ~^\s*continue~ #2
    proof {
        assert(in_.pos() == p0 + 7 + count);
        assert(u_ok(d0) ==> u_ok(rem));
        if count > 0 {
            assert(prop_str(this.results, sPROP_filename()) == Some(h_name(hd)));
        } else { assert(prop_str(this.results, sPROP_filename()) == Some(slit_untitled())); }
    }
@hint before `if (count > 0usize)`
    let ghost hd = rem.subrange(6, 6 + count as int);
    proof { lemma_ends(hd, 0); lemma_ends(hd, ws_end(hd, 0)); lemma_ends(hd, tok_end(hd, ws_end(hd, 0))); lemma_ends(hd, ws_end(hd, tok_end(hd, ws_end(hd, 0)))); assert(hd == u_head_of(rem)); }
@hint loop 3 pre
@loop 3 invariant
    buffer.len() == 512, count < 511, buffer@[count as int] == 0, hd.len() == count, forall|k: int| 0 <= k < count ==> #[trigger] buffer@[k] == hd[k],
    p <= count,     ws_end(hd, p as int) == ws_end(hd, 0),
@loop 3 ensures
    p == ws_end(hd, 0),
@loop 3 decreases
    count - p
@hint loop 4 pre
    let ghost a1 = p as int;
@loop 4 invariant
    buffer.len() == 512, count < 511, buffer@[count as int] == 0, hd.len() == count, forall|k: int| 0 <= k < count ==> #[trigger] buffer@[k] == hd[k],
    p <= count,     tok_end(hd, p as int) == tok_end(hd, a1), a1 <= p,
@loop 4 ensures
    p == tok_end(hd, a1),
@loop 4 decreases
    count - p
@hint loop 5 pre
    let ghost a2 = p as int;
@loop 5 invariant
    buffer.len() == 512, count < 511, buffer@[count as int] == 0, hd.len() == count, forall|k: int| 0 <= k < count ==> #[trigger] buffer@[k] == hd[k],
    p <= count,     ws_end(hd, p as int) == ws_end(hd, a2),
@loop 5 ensures
    p == ws_end(hd, a2),
@loop 5 decreases
    count - p
@hint loop 6 pre
    let ghost a3 = p as int;
@loop 6 invariant
    buffer.len() == 512, count < 511, buffer@[count as int] == 0, hd.len() == count, forall|k: int| 0 <= k < count ==> #[trigger] buffer@[k] == hd[k],
    p <= count,     nl_end(hd, p as int) == nl_end(hd, a3), a3 <= p,
@loop 6 ensures
    p == nl_end(hd, a3),
@loop 6 decreases
    count - p
@hint before `if (inPos > inLength)`
    proof {
        if lengthChar == 98 || lengthChar == 101 { assert forall|k: int| 0 <= k < inPos implies inBuffer@[k] == rem[1 + k] by { assert(inBuffer@[k] == d0[p0 + 1 + k]); } }
        assert(!is_begin(rem)); assert(!is_end(rem));
        lemma_data(rem, nm, o0);
    }
@hint loop 7 pre
    let ghost ln = tlf(rem, 1);
    proof {
        lemma_tl(d0, p0, p0 + 1 + inLength as int);
        assert(u_ok(d0) ==> inPos == 0);
        assert forall|k: int| 0 <= k < inLength && u_ok(d0) implies #[trigger] inBuffer@[k] == ln[k] by { assert(ln[k] == d0[p0 + 1 + k]); }
    }
@loop 7 invariant
    inBuffer.len() == 84, outBuffer.len() == 63, ubits_ok(), outLength <= 63, inLength == glen(outLength as int),
    i % 4 == 0, i <= inLength, j == i / 4 * 3,
    u_ok(d0) ==> ln.len() >= inLength && forall|k: int| 0 <= k < inLength ==> #[trigger] inBuffer@[k] == ln[k],
    u_ok(d0) ==> forall|k: int| 0 <= k < j && k < outLength ==> #[trigger] outBuffer@[k] == ubyte(ln, k),
@loop 7 decreases
    inLength - i
@hint loop 7 begin
    let ghost i0 = i as int; let ghost j0 = j as int; let ghost b0 = outBuffer@;
    proof { lemma_quad(inBuffer@[i0], inBuffer@[i0 + 1], inBuffer@[i0 + 2], inBuffer@[i0 + 3]); }
@hint loop 7 end
    proof {
        let x = inBuffer@;
        assert(j0 < outLength);
        assert(outBuffer@[j0] == q0(x[i0], x[i0 + 1]));
        assert(j0 + 1 < outLength ==> outBuffer@[j0 + 1] == q1(x[i0 + 1], x[i0 + 2]));
        assert(j0 + 2 < outLength ==> outBuffer@[j0 + 2] == q2(x[i0 + 2], x[i0 + 3]));
        assert forall|k: int| 0 <= k < j0 implies outBuffer@[k] == b0[k] by {}
        if u_ok(d0) {
            assert(x[i0] == ln[i0] && x[i0 + 1] == ln[i0 + 1] && x[i0 + 2] == ln[i0 + 2] && x[i0 + 3] == ln[i0 + 3]);
            lemma_ub(ln, i0 / 4);
            assert forall|k: int| 0 <= k < j && k < outLength implies #[trigger] outBuffer@[k] == ubyte(ln, k) by {
                if k < j0 { assert(b0[k] == ubyte(ln, k)); assert(outBuffer@[k] == b0[k]); }
                else if k == j0 {} else if k == j0 + 1 {} else { assert(k == j0 + 2); }
            }
        }
    }
@hint loop 7 post
    proof {
        if u_ok(d0) {
            assert(outBuffer@.subrange(0, outLength as int) =~= ubytes(ln, outLength as int));
        }
    }
