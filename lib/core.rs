// ---- core: C++ scalar semantics (all verified, nothing trusted except nondet_* and arr_*)
global size_of usize == 8;

pub open spec fn tdiv(a: int, b: int) -> int {
    if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
}
pub open spec fn trem(a: int, b: int) -> int {
    let m = if b >= 0 { b } else { -b };
    if a >= 0 { a % m } else { -((-a) % m) }
}
pub proof fn lemma_div_le(a: int, b: int) requires a >= 0, b > 0 ensures 0 <= a / b <= a {
    assert(0 <= a / b <= a) by(nonlinear_arith) requires a >= 0, b > 0;
}
pub proof fn lemma_div_lt(a: int, b: int) requires a > 0, b > 1 ensures 0 <= a / b < a {
    assert(0 <= a / b < a) by(nonlinear_arith) requires a > 0, b > 1;
}
pub proof fn lemma_mod_le(a: int, b: int) requires a >= 0, b > 0 ensures 0 <= a % b < b, a % b <= a {
    assert(0 <= a % b < b && a % b <= a) by(nonlinear_arith) requires a >= 0, b > 0;
}
// value of a C++ char (signed on this platform) held in a byte
pub open spec fn sc2i(x: u8) -> int { if x < 128 { x as int } else { x as int - 256 } }
pub fn c2i(x: u8) -> (r: i32) ensures r as int == sc2i(x) { if x < 128 { x as i32 } else { x as i32 - 256 } }

// pointer arithmetic: offsets into one object; leaving [0, 2^62) would be undefined behaviour
pub fn ptr_add(p: usize, d: i64) -> (r: usize)
    requires 0 <= p + d < 0x4000_0000_0000_0000 ensures r as int == p + d { ((p as i128) + (d as i128)) as usize }
pub fn ptr_sub(p: usize, d: i64) -> (r: usize)
    requires 0 <= p - d < 0x4000_0000_0000_0000 ensures r as int == p - d { ((p as i128) - (d as i128)) as usize }
pub fn ptr_plus(p: usize, n: usize) -> (r: usize) requires p + n <= usize::MAX ensures r as int == p + n { p + n }
pub fn ptr_diff(a: usize, b: usize) -> (r: i64)
    requires a <= 0x7fff_ffff_ffff_ffff, b <= 0x7fff_ffff_ffff_ffff ensures r as int == a - b { (a as i64) - (b as i64) }

// uninitialised scalars: any value
#[verifier::external_body] pub fn nondet_i32() -> i32 { 0 }
#[verifier::external_body] pub fn nondet_i64() -> i64 { 0 }
#[verifier::external_body] pub fn nondet_u32() -> u32 { 0 }
#[verifier::external_body] pub fn nondet_u16() -> u16 { 0 }
#[verifier::external_body] pub fn nondet_i16() -> i16 { 0 }
#[verifier::external_body] pub fn nondet_usize() -> usize { 0 }
#[verifier::external_body] pub fn nondet_u8() -> u8 { 0 }
#[verifier::external_body] pub fn nondet_i8() -> i8 { 0 }
#[verifier::external_body] pub fn nondet_bool() -> bool { true }
// uninitialised local arrays: known length, any contents
#[verifier::external_body] pub fn arr_u8(n: usize) -> (r: Vec<u8>) ensures r.len() == n { unimplemented!() }
#[verifier::external_body] pub fn arr_u32(n: usize) -> (r: Vec<u32>) ensures r.len() == n { unimplemented!() }
#[verifier::external_body] pub fn arr_i32(n: usize) -> (r: Vec<i32>) ensures r.len() == n { unimplemented!() }
#[verifier::external_body] pub fn arr_usize(n: usize) -> (r: Vec<usize>) ensures r.len() == n { unimplemented!() }
#[verifier::external_body] pub fn arr_fill_u8(n: usize, x: u8) -> (r: Vec<u8>) ensures r.len() == n, forall|k: int| 0 <= k < n ==> r@[k] == x { unimplemented!() }
#[verifier::external_body] pub fn arr_fill_i32(n: usize, x: i32) -> (r: Vec<i32>) ensures r.len() == n, forall|k: int| 0 <= k < n ==> r@[k] == x { unimplemented!() }
// memory
#[verifier::external_body]
pub fn buf_copy(d: &mut Vec<u8>, dof: usize, s: &Vec<u8>, sof: usize, n: usize)
    requires dof + n <= old(d).len(), sof + n <= s.len(),
    ensures final(d).len() == old(d).len(),
        forall|k: int| 0 <= k < final(d).len() ==> #[trigger] final(d)@[k] == (if dof <= k < dof + n { s@[sof + k - dof] } else { old(d)@[k] }),
{ unimplemented!() }
#[verifier::external_body]
pub fn buf_move(d: &mut Vec<u8>, dof: usize, sof: usize, n: usize)
    requires dof + n <= old(d).len(), sof + n <= old(d).len(),
    ensures final(d).len() == old(d).len(),
        forall|k: int| 0 <= k < final(d).len() ==> #[trigger] final(d)@[k] == (if dof <= k < dof + n { old(d)@[sof + k - dof] } else { old(d)@[k] }),
{ unimplemented!() }
// memcpy inside one array: the two ranges may not overlap
#[verifier::external_body]
pub fn buf_move_apart(d: &mut Vec<u8>, dof: usize, sof: usize, n: usize)
    requires dof + n <= old(d).len(), sof + n <= old(d).len(), n == 0 || dof + n <= sof || sof + n <= dof,
    ensures final(d).len() == old(d).len(),
        forall|k: int| 0 <= k < final(d).len() ==> #[trigger] final(d)@[k] == (if dof <= k < dof + n { old(d)@[sof + k - dof] } else { old(d)@[k] }),
{ unimplemented!() }
#[verifier::external_body]
pub fn buf_cmp(a: &Vec<u8>, ao: usize, b: &Vec<u8>, bo: usize, n: usize) -> (r: i32)
    requires ao + n <= a.len(), bo + n <= b.len(),
    ensures (r == 0) == (a@.subrange(ao as int, ao + n) == b@.subrange(bo as int, bo + n)),
{ unimplemented!() }
#[verifier::external_body]
pub fn buf_set(d: &mut Vec<u8>, dof: usize, c: u8, n: usize)
    requires dof + n <= old(d).len(),
    ensures final(d).len() == old(d).len(),
        forall|k: int| 0 <= k < final(d).len() ==> #[trigger] final(d)@[k] == (if dof <= k < dof + n { c } else { old(d)@[k] }),
{ unimplemented!() }
// memset of words to zero, length in bytes
#[verifier::external_body]
pub fn buf_zero_u32(d: &mut Vec<u32>, dof: usize, n: usize)
    requires n % 4 == 0, dof + n / 4 <= old(d).len(),
    ensures final(d).len() == old(d).len(),
        forall|k: int| 0 <= k < final(d).len() ==> #[trigger] final(d)@[k] == (if dof <= k < dof + n / 4 { 0u32 } else { old(d)@[k] }),
{ unimplemented!() }
// assert() of the source
pub fn cassert(b: bool) requires b { }
#[verifier::external_body]
pub fn buf_fill_range(d: &mut Vec<u8>, from: usize, to: usize, c: u8)
    requires from <= to <= old(d).len(),
    ensures final(d).len() == old(d).len(),
        forall|k: int| 0 <= k < final(d).len() ==> #[trigger] final(d)@[k] == (if from <= k < to { c } else { old(d)@[k] }),
{ unimplemented!() }
// std::copy(first, last, dest)
#[verifier::external_body]
pub fn buf_copy_range(d: &mut Vec<u8>, dof: usize, s: &Vec<u8>, from: usize, to: usize)
    requires from <= to <= s.len(), dof + (to - from) <= old(d).len(),
    ensures final(d).len() == old(d).len(),
        forall|k: int| 0 <= k < final(d).len() ==> #[trigger] final(d)@[k] == (if dof <= k < dof + (to - from) { s@[from + k - dof] } else { old(d)@[k] }),
{ unimplemented!() }

// std::equal(first, last, first2)
#[verifier::external_body]
pub fn buf_equal(a: &Vec<u8>, from: usize, to: usize, b: &Vec<u8>, bo: usize) -> (r: bool)
    requires from <= to <= a.len(), bo + (to - from) <= b.len(),
    ensures r == (a@.subrange(from as int, to as int) == b@.subrange(bo as int, bo + (to - from))),
{ unimplemented!() }

// std::find(first, last, c)
#[verifier::external_body]
pub fn buf_find(d: &Vec<u8>, from: usize, to: usize, c: u8) -> (r: usize)
    requires from <= to <= d.len(),
    ensures from <= r <= to, r < to ==> d@[r as int] == c, forall|k: int| from <= k < r ==> #[trigger] d@[k] != c,
{ unimplemented!() }

pub struct Exc { pub kind: u64 }
pub struct Opaque { }

// component properties (propertySet): per-name optional value, arbitrary
#[verifier::external_body] pub struct Props { x: u8 }
pub uninterp spec fn prop_usize(p: Props, name: u64) -> Option<usize>;
pub uninterp spec fn prop_bool(p: Props, name: u64) -> Option<bool>;
pub uninterp spec fn prop_str(p: Props, name: u64) -> Option<Seq<u8>>;
pub open spec fn prop_usize_or(p: Props, name: u64, d: usize) -> usize { match prop_usize(p, name) { Some(v) => v, None => d } }
pub open spec fn prop_bool_or(p: Props, name: u64, d: bool) -> bool { match prop_bool(p, name) { Some(v) => v, None => d } }
pub open spec fn prop_str_or(p: Props, name: u64, d: Seq<u8>) -> Seq<u8> { match prop_str(p, name) { Some(v) => v, None => d } }
#[verifier::external_body]
pub fn getprop_usize(p: &Props, name: u64, d: usize) -> (r: usize) ensures r == prop_usize_or(*p, name, d) { unimplemented!() }
#[verifier::external_body]
pub fn getprop_bool(p: &Props, name: u64, d: bool) -> (r: bool) ensures r == prop_bool_or(*p, name, d) { unimplemented!() }

#[verifier::external_body]
pub fn getprop_str(p: &Props, name: u64, d: Vec<u8>) -> (r: Vec<u8>) ensures r@ == prop_str_or(*p, name, d@) { unimplemented!() }
pub open spec fn props_same_but(a: Props, b: Props, name: u64) -> bool {
    forall|n: u64| n != name ==> prop_usize(a, n) == prop_usize(b, n) && prop_bool(a, n) == prop_bool(b, n) && prop_str(a, n) == #[trigger] prop_str(b, n)
}
#[verifier::external_body]
pub fn setprop_str(p: &mut Props, name: u64, v: &Vec<u8>) ensures prop_str(*final(p), name) == Some(v@), props_same_but(*old(p), *final(p), name) { unimplemented!() }
#[verifier::external_body]
pub fn setprop_i32(p: &mut Props, name: u64, v: i32) ensures props_same_but(*old(p), *final(p), name) { unimplemented!() }

// <cctype> in the "C" locale; the argument must be an unsigned char value or EOF
pub open spec fn c_space(c: int) -> bool { c == 32 || 9 <= c <= 13 }
#[verifier::external_body]
pub fn isspace_i32(c: i32) -> (r: i32) requires -1 <= c <= 255 ensures (r != 0) == c_space(c as int) { unimplemented!() }
#[verifier::external_body]
pub fn isdigit_i32(c: i32) -> (r: i32) requires -1 <= c <= 255 ensures (r != 0) == (48 <= c <= 57) { unimplemented!() }
