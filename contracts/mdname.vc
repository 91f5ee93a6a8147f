@unit mdname
@use strings
@type (const )?(.*::component|vmime::word|word) = stru:Comp
@type .*charset.* = stru:Cs
@struct vmime::word as Comp
@field Comp.m_buffer str
@struct vmime::net::maildir::maildirUtils::messageIdComparator as Cmp
@method vmime::word::operator== = comp_eq bool ref ref
@method vmime::word::getBuffer = .m_buffer str
@extern vmime::charset::getLocalCharset = cs_local stru:Cs
@source src/vmime/word.cpp
@rust
#[verifier::external_body] pub struct Cs { x: u8 }
#[verifier::external_body] pub fn cs_local() -> (r: Cs) { unimplemented!() }
#[verifier::external_body] pub fn clone_Cs(c: &Cs) -> (r: Cs) ensures r == *c { unimplemented!() }
// two words are the same when their texts, their charsets and their languages are
#[verifier::external_body] pub fn comp_eq(a: &Comp, b: &Comp) -> (r: bool) ensures r ==> a.m_buffer@ == b.m_buffer@, a.m_buffer@ == b.m_buffer@ && a.m_charset == b.m_charset && a.m_lang@ == b.m_lang@ ==> r { unimplemented!() }
// where the flags begin: the last colon, or else the last "-2,"
pub fn clone_Comp(c: &Comp) -> (r: Comp) ensures r.m_buffer@ == c.m_buffer@ { comp_copy(c) }
pub open spec fn dash() -> Seq<u8> { seq![45u8, 50, 44] }
pub open spec fn last_ch(s: Seq<u8>, c: u8, r: int) -> bool { 0 <= r < s.len() && s[r] == c && forall|k: int| r < k < s.len() ==> #[trigger] s[k] != c }
pub open spec fn has_ch(s: Seq<u8>, c: u8) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == c }
pub open spec fn has_dash(s: Seq<u8>) -> bool { exists|k: int| #[trigger] occurs_at(s, dash(), k) }
pub open spec fn last_dash(s: Seq<u8>, r: int) -> bool { occurs_at(s, dash(), r) && forall|k: int| r < k ==> !#[trigger] occurs_at(s, dash(), k) }
pub open spec fn parts(s: Seq<u8>, id: Seq<u8>, fl: Seq<u8>) -> bool {
    if has_ch(s, 58) { exists|r: int| #[trigger] last_ch(s, 58, r) && id == s.take(r) && fl == s.skip(r + 1) }
    else if has_dash(s) { exists|r: int| #[trigger] last_dash(s, r) && id == s.take(r) && fl == s.skip(r + 1) }
    else { id == s && fl.len() == 0 }
}
pub open spec fn bit(c: u8) -> i32 { if c == 82 || c == 114 { 8 } else if c == 83 || c == 115 { 1 } else if c == 84 || c == 116 { 4 } else if c == 70 || c == 102 { 16 } else if c == 80 || c == 112 { 32 } else if c == 68 || c == 100 { 64 } else { 0 } }
#[verifier::opaque]
pub open spec fn bits(s: Seq<u8>) -> i32 decreases s.len() { if s.len() == 0 { 0 } else { bits(s.drop_last()) | bit(s.last()) } }
pub proof fn lemma_bits_zero() ensures bits(Seq::empty()) == 0 { reveal_with_fuel(bits, 1); }
pub proof fn lemma_bits_push(s: Seq<u8>, c: u8) ensures bits(s.push(c)) == bits(s) | bit(c) { reveal_with_fuel(bits, 2); assert(s.push(c).drop_last() =~= s); }
pub open spec fn one(f: i32, b: i32, c: u8) -> Seq<u8> { if f & b != 0 { seq![c] } else { Seq::empty() } }
pub open spec fn flag_text(f: i32) -> Seq<u8> { seq![50u8, 44] + one(f, 16, 70) + one(f, 32, 80) + one(f, 8, 82) + one(f, 1, 83) + one(f, 4, 84) + one(f, 64, 68) }
pub open spec fn name_of(id: Seq<u8>, f: i32) -> Seq<u8> { if f == 2 { id } else { id.push(58) + flag_text(f) } }
pub open spec fn sep_at(s: Seq<u8>, sep: usize) -> bool { if has_ch(s, 58) { last_ch(s, 58, sep as int) } else if has_dash(s) { last_dash(s, sep as int) } else { sep == NPOS } }
pub proof fn lemma_parts(s: Seq<u8>, sep: usize)
    requires sep_at(s, sep), s.len() < NPOS
    ensures sep == NPOS ==> parts(s, s, Seq::empty()), sep != NPOS ==> sep < s.len() && parts(s, s.take(sep as int), s.skip(sep + 1))
{ if has_ch(s, 58) { } else if has_dash(s) { assert(occurs_at(s, dash(), sep as int)); } }
@fn vmime::word::word ~void (const string &)~ as comp_str
@ensures
    res.m_buffer@ == buffer@,
@fn vmime::word::word ~void (const word &)~ as comp_copy
@ensures
    res.m_buffer@ == w.m_buffer@,
@source src/vmime/net/maildir/maildirUtils.cpp
@fn vmime::net::maildir::maildirUtils::extractId as extract_id
@requires
    filename.m_buffer.len() < 0x1000_0000_0000_0000,
@ensures
    exists|fl: Seq<u8>| #[trigger] parts(filename.m_buffer@, res.m_buffer@, fl),
@hint decl sep
    let ghost tx = filename.m_buffer@;
    proof { if sep != NPOS { assert(tx[sep as int] == 58); assert(has_ch(tx, 58)); assert(last_ch(tx, 58, sep as int)); } else { assert(!has_ch(tx, 58)); } }
@hint after ~sep = ~
    proof { if sep != NPOS { assert(occurs_at(tx, dash(), sep as int)); assert(has_dash(tx)); assert(last_dash(tx, sep as int)); } else { assert(!has_dash(tx)); } }
@hint before `return`
    proof { lemma_parts(filename.m_buffer@, sep); }
@fn vmime::net::maildir::maildirUtils::extractFlags as extract_flags
@requires
    comp.m_buffer.len() < 0x1000_0000_0000_0000,
@ensures
    exists|id: Seq<u8>, fl: Seq<u8>| #[trigger] parts(comp.m_buffer@, id, fl) && res == bits(fl),
@hint decl sep
    let ghost tx = comp.m_buffer@;
    proof { if sep != NPOS { assert(tx[sep as int] == 58); assert(has_ch(tx, 58)); assert(last_ch(tx, 58, sep as int)); } else { assert(!has_ch(tx, 58)); } }
@hint after ~sep = ~
    proof { if sep != NPOS { assert(occurs_at(tx, dash(), sep as int)); assert(has_dash(tx)); assert(last_dash(tx, sep as int)); } else { assert(!has_dash(tx)); } }
@hint before `return`
    proof { lemma_bits_zero(); lemma_parts(comp.m_buffer@, sep); }
@hint loop 1 pre
    proof { lemma_bits_zero(); assert(flagsString@.take(0) =~= Seq::empty()); assert(flagsString@.take(flagsString.len() as int) =~= flagsString@); }
@loop 1 invariant
    i <= count, count == flagsString.len(), flags == bits(flagsString@.take(i as int)),
@loop 1 decreases
    count - i
@hint loop 1 begin
    let ghost i0 = i as int; let ghost g0 = flags;
    proof { lemma_bits_push(flagsString@.take(i0), flagsString@[i0]); assert(flagsString@.take(i0 + 1) =~= flagsString@.take(i0).push(flagsString@[i0])); assert(g0 | 0 == g0) by (bit_vector); }
@fn vmime::net::maildir::maildirUtils::buildFlags as build_flags
@ensures
    res.m_buffer@ == flag_text(flags),
@hint before `return`
    proof { assert(str@ =~= flag_text(flags)); }
@fn vmime::net::maildir::maildirUtils::buildFilename ~component &, const int~ as build_name
@ensures
    res.m_buffer@ == name_of(id.m_buffer@, flags),
@fn vmime::net::maildir::maildirUtils::buildFilename ~component &, const utility~ as join_name
@ensures
    res.m_buffer@ == id.m_buffer@.push(58) + flags.m_buffer@,
@hint before `return`
    proof { assert(id.m_buffer@ + seq![58u8] =~= id.m_buffer@.push(58)); }
@fn vmime::net::maildir::maildirUtils::messageIdComparator::messageIdComparator ~component~ as cmp_new
@requires
    comp.m_buffer.len() < 0x1000_0000_0000_0000,
@ensures
    exists|fl: Seq<u8>| #[trigger] parts(comp.m_buffer@, res.m_comp.m_buffer@, fl),
@hint end
    proof { let mb = this.m_comp.m_buffer@; assert(exists|fl: Seq<u8>| #[trigger] parts(comp.m_buffer@, mb, fl)); }
@fn vmime::net::maildir::maildirUtils::messageIdComparator::operator() as cmp_call
@requires
    other.m_buffer.len() < 0x1000_0000_0000_0000,
@ensures
    res ==> exists|fl: Seq<u8>| #[trigger] parts(other.m_buffer@, this.m_comp.m_buffer@, fl),
@rustpost

pub proof fn lemma_bits_cat(a: Seq<u8>, b: Seq<u8>) ensures bits(a + b) == bits(a) | bits(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); lemma_bits_zero(); assert(b =~= Seq::<u8>::empty()); let x = bits(a); assert(x | 0 == x) by (bit_vector); }
    else { let d = b.drop_last(); let c = b.last(); lemma_bits_cat(a, d); assert(a + b =~= (a + d).push(c)); assert(b =~= d.push(c)); lemma_bits_push(a + d, c); lemma_bits_push(d, c); let x = bits(a); let y = bits(d); let z = bit(c); assert((x | y) | z == x | (y | z)) by (bit_vector); }
}
pub proof fn lemma_one(f: i32, b: i32, c: u8) ensures bits(one(f, b, c)) == (if f & b != 0 { bit(c) } else { 0 })
{ lemma_bits_zero(); if f & b != 0 { lemma_bits_push(Seq::<u8>::empty(), c); assert(Seq::<u8>::empty().push(c) =~= one(f, b, c)); let z = bit(c); assert(0 | z == z) by (bit_vector); } else { assert(one(f, b, c) =~= Seq::<u8>::empty()); } }
pub proof fn lemma_flag_text(f: i32) ensures bits(flag_text(f)) == f & 0x7d, forall|k: int| 0 <= k < flag_text(f).len() ==> #[trigger] flag_text(f)[k] != 58
{
    let p = seq![50u8, 44]; let a = one(f, 16, 70); let b = one(f, 32, 80); let c = one(f, 8, 82); let d = one(f, 1, 83); let e = one(f, 4, 84); let g = one(f, 64, 68);
    lemma_bits_zero(); lemma_bits_push(Seq::<u8>::empty(), 50); lemma_bits_push(seq![50u8], 44); assert(Seq::<u8>::empty().push(50) =~= seq![50u8]); assert(seq![50u8].push(44) =~= p); assert(0i32 | 0 == 0) by (bit_vector); assert(bits(p) == 0);
    lemma_one(f, 16, 70); lemma_one(f, 32, 80); lemma_one(f, 8, 82); lemma_one(f, 1, 83); lemma_one(f, 4, 84); lemma_one(f, 64, 68);
    lemma_bits_cat(p, a); lemma_bits_cat(p + a, b); lemma_bits_cat(p + a + b, c); lemma_bits_cat(p + a + b + c, d); lemma_bits_cat(p + a + b + c + d, e); lemma_bits_cat(p + a + b + c + d + e, g);
    let x1 = bits(a); let x2 = bits(b); let x3 = bits(c); let x4 = bits(d); let x5 = bits(e); let x6 = bits(g);
    assert(((((((0i32 | x1) | x2) | x3) | x4) | x5) | x6) == f & 0x7d) by (bit_vector) requires x1 == (if f & 16 != 0 { 16i32 } else { 0 }), x2 == (if f & 32 != 0 { 32i32 } else { 0 }), x3 == (if f & 8 != 0 { 8i32 } else { 0 }), x4 == (if f & 1 != 0 { 1i32 } else { 0 }), x5 == (if f & 4 != 0 { 4i32 } else { 0 }), x6 == (if f & 64 != 0 { 64i32 } else { 0 });
}
// a name gives back the identifier and the flags it was made from
pub proof fn property_maildir_name(id: Seq<u8>, f: i32, i2: Seq<u8>, fl: Seq<u8>)
    requires !has_ch(id, 58), f == 2 ==> !has_dash(id), parts(name_of(id, f), i2, fl)
    ensures i2 == id, bits(fl) == f & 0x7d
{
    let n = name_of(id, f);
    if f == 2 { lemma_bits_zero(); assert(fl =~= Seq::<u8>::empty()); assert(2i32 & 0x7d == 0) by (bit_vector); }
    else {
        let t = flag_text(f); lemma_flag_text(f); assert(n[id.len() as int] == 58); assert(has_ch(n, 58));
        let r = choose|r: int| #[trigger] last_ch(n, 58, r) && i2 == n.take(r) && fl == n.skip(r + 1);
        assert(r == id.len()) by { if r > id.len() { assert(n[r] == t[r - id.len() - 1]); } }
        assert(n.take(r) =~= id); assert(n.skip(r + 1) =~= t);
    }
}
// to change the flags of a message keeps its identifier
pub fn property_maildir_flags(name: &Comp, f: i32, g: i32) -> (r: Comp)
    requires name.m_buffer.len() < 0x0100_0000_0000_0000, exists|id: Seq<u8>| !has_ch(id, 58) && !has_dash(id) && name.m_buffer@ == #[trigger] name_of(id, f)
    ensures forall|id: Seq<u8>| !has_ch(id, 58) && !has_dash(id) && name.m_buffer@ == #[trigger] name_of(id, f) ==> r.m_buffer@ == name_of(id, g)
{
    let i = extract_id(name);
    let r = build_name(&i, g);
    proof {
        let fl = choose|fl: Seq<u8>| #[trigger] parts(name.m_buffer@, i.m_buffer@, fl);
        assert forall|id: Seq<u8>| !has_ch(id, 58) && !has_dash(id) && name.m_buffer@ == #[trigger] name_of(id, f) implies r.m_buffer@ == name_of(id, g) by { property_maildir_name(id, f, i.m_buffer@, fl); }
    }
    r
}
