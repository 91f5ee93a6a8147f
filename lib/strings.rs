// ---- std::string as Vec<u8>: assumed contracts of the C++ standard library (trusted)
pub const NPOS: usize = 0xffff_ffff_ffff_ffff;
#[verifier::external_body]
pub fn str_clone(s: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vec_clone_u8(s: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
// s[i] / c_str()[i]: position size() is the terminating NUL
pub open spec fn scz(s: Seq<u8>, i: int) -> u8 { if i < s.len() { s[i] } else { 0 } }
pub fn cz_at(s: &Vec<u8>, i: usize) -> (r: u8) requires i <= s.len() ensures r == scz(s@, i as int), i < s.len() ==> r == s@[i as int] { if i < s.len() { s[i] } else { 0 } }
#[verifier::external_body]
pub fn str_eq(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@), r == (a@ =~= b@) { unimplemented!() }
#[verifier::external_body]
pub fn str_append(a: &mut Vec<u8>, b: &Vec<u8>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn str_append_range(a: &mut Vec<u8>, b: &Vec<u8>, from: usize, to: usize)
    requires from <= to <= b.len() ensures final(a)@ == old(a)@ + b@.subrange(from as int, to as int) { unimplemented!() }
pub open spec fn sfill(n: int, c: u8) -> Seq<u8> { Seq::new(n as nat, |i: int| c) }
#[verifier::external_body]
pub fn str_append_fill(a: &mut Vec<u8>, n: usize, c: u8) ensures final(a)@ == old(a)@ + sfill(n as int, c) { unimplemented!() }
#[verifier::external_body]
pub fn str_range(b: &Vec<u8>, from: usize, to: usize) -> (r: Vec<u8>)
    requires from <= to <= b.len() ensures r@ == b@.subrange(from as int, to as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_repeat(n: usize, c: u8) -> (r: Vec<u8>) ensures r@ == sfill(n as int, c) { unimplemented!() }
#[verifier::external_body]
pub fn str_concat(a: &Vec<u8>, b: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn str_concat_ch(a: &Vec<u8>, c: u8) -> (r: Vec<u8>) ensures r@ == a@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn str_ch_concat(c: u8, a: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == seq![c] + a@ { unimplemented!() }
// substr throws std::out_of_range when pos > size(): that is an obligation here
#[verifier::external_body]
pub fn str_substr(s: &Vec<u8>, pos: usize, n: usize) -> (r: Vec<u8>)
    requires pos <= s.len() ensures r@ == s@.subrange(pos as int, if pos + n <= s.len() { pos + n } else { s.len() as int }) { unimplemented!() }
pub open spec fn first_ch(s: Seq<u8>, c: u8, from: int, r: int) -> bool { from <= r < s.len() && s[r] == c && forall|k: int| from <= k < r ==> s[k] != c }
#[verifier::external_body]
pub fn str_find_ch(s: &Vec<u8>, c: u8, from: usize) -> (r: usize)
    ensures r == NPOS ==> forall|k: int| from <= k < s.len() ==> s@[k] != c,
        r != NPOS ==> first_ch(s@, c, from as int, r as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_rfind_ch(s: &Vec<u8>, c: u8, from: usize) -> (r: usize)
    ensures r == NPOS ==> forall|k: int| 0 <= k < s.len() && k <= from ==> s@[k] != c,
        r != NPOS ==> r < s.len() && r <= from && s@[r as int] == c && forall|k: int| r < k < s.len() && k <= from ==> s@[k] != c { unimplemented!() }
pub open spec fn occurs_at(s: Seq<u8>, p: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
#[verifier::external_body]
pub fn str_find(s: &Vec<u8>, p: &Vec<u8>, from: usize) -> (r: usize)
    ensures r == NPOS ==> forall|k: int| from <= k ==> !occurs_at(s@, p@, k),
        r != NPOS ==> from <= r && occurs_at(s@, p@, r as int) && r + p.len() <= s.len() && forall|k: int| from <= k < r ==> !occurs_at(s@, p@, k) { unimplemented!() }
#[verifier::external_body]
pub fn str_rfind(s: &Vec<u8>, p: &Vec<u8>, from: usize) -> (r: usize)
    ensures r == NPOS ==> forall|k: int| 0 <= k <= from ==> !occurs_at(s@, p@, k),
        r != NPOS ==> r <= from && occurs_at(s@, p@, r as int) && r + p.len() <= s.len() && forall|k: int| r < k <= from ==> !occurs_at(s@, p@, k) { unimplemented!() }
pub open spec fn in_set(c: u8, set: Seq<u8>) -> bool { exists|j: int| 0 <= j < set.len() && set[j] == c }
#[verifier::external_body]
pub fn str_find_first_of(s: &Vec<u8>, p: &Vec<u8>, from: usize) -> (r: usize)
    ensures r == NPOS ==> forall|k: int| from <= k < s.len() ==> !in_set(s@[k], p@),
        r != NPOS ==> from <= r < s.len() && in_set(s@[r as int], p@) && forall|k: int| from <= k < r ==> !in_set(s@[k], p@) { unimplemented!() }
#[verifier::external_body]
pub fn str_find_first_not_of(s: &Vec<u8>, p: &Vec<u8>, from: usize) -> (r: usize)
    ensures r == NPOS ==> forall|k: int| from <= k < s.len() ==> in_set(s@[k], p@),
        r != NPOS ==> from <= r < s.len() && !in_set(s@[r as int], p@) && forall|k: int| from <= k < r ==> in_set(s@[k], p@) { unimplemented!() }
#[verifier::external_body]
pub fn str_erase(s: &mut Vec<u8>, pos: usize, n: usize)
    requires pos <= old(s).len()
    ensures final(s)@ == old(s)@.subrange(0, pos as int) + (if pos + n <= old(s).len() { old(s)@.subrange(pos + n, old(s).len() as int) } else { Seq::empty() }) { unimplemented!() }
#[verifier::external_body]
pub fn str_erase_range(s: &mut Vec<u8>, from: usize, to: usize)
    requires from <= to <= old(s).len()
    ensures final(s)@ == old(s)@.subrange(0, from as int) + old(s)@.subrange(to as int, old(s).len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn str_insert(s: &mut Vec<u8>, pos: usize, t: &Vec<u8>)
    requires pos <= old(s).len()
    ensures final(s)@ == old(s)@.subrange(0, pos as int) + t@ + old(s)@.subrange(pos as int, old(s).len() as int) { unimplemented!() }
// decimal formatting of integers by iostreams
pub open spec fn dec_digits(n: nat) -> Seq<u8> decreases n {
    if n < 10 { seq![(48 + n) as u8] } else { dec_digits(n / 10).push((48 + n % 10) as u8) }
}
#[verifier::external_body]
pub fn str_append_udec(s: &mut Vec<u8>, n: usize) ensures final(s)@ == old(s)@ + dec_digits(n as nat) { unimplemented!() }
pub open spec fn sdec(n: int) -> Seq<u8> { if n >= 0 { dec_digits(n as nat) } else { seq![45u8] + dec_digits((-n) as nat) } }
#[verifier::external_body]
pub fn str_append_sdec(s: &mut Vec<u8>, n: i64) ensures final(s)@ == old(s)@ + sdec(n as int) { unimplemented!() }
// the same after setw(w) and setfill(c) (right adjusted)
pub open spec fn padl(s: Seq<u8>, w: int, c: u8) -> Seq<u8> { sfill(if s.len() < w { w - s.len() } else { 0 }, c) + s }
#[verifier::external_body]
pub fn str_append_sdec_w(s: &mut Vec<u8>, n: i64, w: usize, c: u8) ensures final(s)@ == old(s)@ + padl(sdec(n as int), w as int, c) { unimplemented!() }
// NUL-terminated range starting at off
pub open spec fn cz_end(s: Seq<u8>, off: int) -> int decreases s.len() - off { if off >= s.len() || off < 0 { s.len() as int } else if s[off] == 0 { off } else { cz_end(s, off + 1) } }
pub proof fn lemma_cz_full(s: Seq<u8>, off: int)
    requires 0 <= off <= s.len(), forall|k: int| off <= k < s.len() ==> #[trigger] s[k] != 0
    ensures cz_end(s, off) == s.len()
    decreases s.len() - off
{ if off < s.len() { lemma_cz_full(s, off + 1); } }
#[verifier::external_body]
pub fn str_append_cz(a: &mut Vec<u8>, b: &Vec<u8>, off: usize) requires off <= b.len() ensures final(a)@ == old(a)@ + b@.subrange(off as int, cz_end(b@, off as int)) { unimplemented!() }
#[verifier::external_body]
pub fn str_from_cz(b: &Vec<u8>, off: usize) -> (r: Vec<u8>) requires off <= b.len() ensures r@ == b@.subrange(off as int, cz_end(b@, off as int)) { unimplemented!() }
#[verifier::external_body]
pub fn cz_len(b: &Vec<u8>) -> (r: usize) ensures r as int == cz_end(b@, 0) { unimplemented!() }
// "C"-locale ctype functions
pub open spec fn lower_i(x: int) -> int { if 65 <= x <= 90 { x + 32 } else { x } }
pub open spec fn upper_i(x: int) -> int { if 97 <= x <= 122 { x - 32 } else { x } }
#[verifier::external_body] pub fn tolower_i32(x: i32) -> (r: i32) ensures r as int == lower_i(x as int) { unimplemented!() }
#[verifier::external_body] pub fn toupper_i32(x: i32) -> (r: i32) ensures r as int == upper_i(x as int) { unimplemented!() }

// std::istringstream as the text still to be read; after a failed extraction (overflow) every later read fails, as at the end of the text
pub open spec fn digit_run(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 || !(48 <= s[0] <= 57) { 0 } else { 1 + digit_run(s.skip(1)) } }
#[verifier::external_body] pub fn iss_peek(s: &Vec<u8>) -> (r: i32) ensures r == (if s.len() == 0 { -1int } else { s@[0] as int }) { unimplemented!() }
#[verifier::external_body] pub fn iss_get(s: &mut Vec<u8>) -> (r: i32) ensures r == (if old(s).len() == 0 { -1int } else { old(s)@[0] as int }), final(s)@ == (if old(s).len() == 0 { old(s)@ } else { old(s)@.skip(1) }) { unimplemented!() }
#[verifier::external_body]
pub fn iss_read_u16(s: &mut Vec<u8>) -> (r: u16)
    ensures digit_run(old(s)@) > 0 ==> ({ let n = digit_run(old(s)@); let v = dec_val(old(s)@.take(n)) as int; if v <= 65535 { r == v && final(s)@ == old(s)@.skip(n) } else { r == 65535 && final(s).len() == 0 } }) { unimplemented!() }
// std::getline: the text up to the delimiter (which is taken out too) or all that is left; fails, leaving the string empty, when nothing is left
pub open spec fn del_at(s: Seq<u8>, c: u8, e: int) -> bool { 0 <= e < s.len() && s[e] == c && forall|k: int| 0 <= k < e ==> #[trigger] s[k] != c }
#[verifier::external_body]
pub fn iss_getline(s: &mut Vec<u8>, d: &mut Vec<u8>, c: u8) -> (r: bool)
    ensures r == (old(s).len() > 0),
        !r ==> final(d).len() == 0 && final(s).len() == 0,
        r ==> (exists|e: int| #[trigger] del_at(old(s)@, c, e) && final(d)@ == old(s)@.take(e) && final(s)@ == old(s)@.skip(e + 1))
            || ((forall|k: int| 0 <= k < old(s).len() ==> #[trigger] old(s)@[k] != c) && final(d)@ == old(s)@ && final(s).len() == 0) { unimplemented!() }
// std::istringstream >> unsigned short on a string of digits (failure gives 0, overflow gives 65535)
pub open spec fn all_digits(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> 48 <= #[trigger] s[k] <= 57 }
pub open spec fn dec_val(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() - 48) as nat } }
#[verifier::external_body]
pub fn str_read_u16(s: &Vec<u8>) -> (r: u16) ensures all_digits(s@) ==> r as int == (if dec_val(s@) <= 65535 { dec_val(s@) as int } else { 65535 }) { unimplemented!() }
// std::map<string,string> as the sequence of its elements in key order
pub struct SPair { pub first: Vec<u8>, pub second: Vec<u8> }
pub uninterp spec fn key_lt(a: Seq<u8>, b: Seq<u8>) -> bool;
pub open spec fn smap_keys_lt(m: Seq<SPair>, k: Seq<u8>) -> bool { forall|i: int| 0 <= i < m.len() ==> key_lt((#[trigger] m[i]).first@, k) }
#[verifier::external_body]
pub fn smap_set(m: &mut Vec<SPair>, k: &Vec<u8>, v: &Vec<u8>)
    ensures smap_keys_lt(old(m)@, k@) ==> final(m).len() == old(m).len() + 1 && final(m)@.last().first@ == k@ && final(m)@.last().second@ == v@ && final(m)@.drop_last() == old(m)@
{ unimplemented!() }

// std::ctype<char>::tolower / toupper of the classic locale
pub open spec fn lower_c(c: u8) -> u8 { if 65 <= c <= 90 { (c + 32) as u8 } else { c } }
pub open spec fn upper_c(c: u8) -> u8 { if 97 <= c <= 122 { (c - 32) as u8 } else { c } }
#[verifier::external_body] pub fn tolower_ch(c: u8) -> (r: u8) ensures r == lower_c(c) { unimplemented!() }
#[verifier::external_body] pub fn toupper_ch(c: u8) -> (r: u8) ensures r == upper_c(c) { unimplemented!() }
#[verifier::external_body]
pub fn vec_resize_u8z(s: &mut Vec<u8>, n: usize)
    ensures final(s).len() == n, forall|k: int| 0 <= k < n ==> #[trigger] final(s)@[k] == (if k < old(s).len() { old(s)@[k] } else { 0u8 }) { unimplemented!() }
