@unit hdr
@use strings
@exc other
@obj HF
@type (const )?(std::|vmime::)?shared_ptr ?<(vmime::)?headerField> = stru:HF
@type (vmime::)?headerField = stru:HF
@type .*(parsingContext).* = drop
@method vmime::headerFieldFactory::create = hf_create stru:HF drop ref
@method vmime::component::parse = hf_parse void mut drop drop val val drop
@method vmime::component::setParsedBounds = comp_bounds void mut val val
@method vmime::header::removeAllFields = hdr_clear void mut
@struct vmime::header as Hdr
@method vmime::parsingContext::getHeaderParseErrorRecoveryMethod = recovery i32 drop
@rust
pub struct HF { pub set: bool, pub name: Vec<u8>, pub cs: usize, pub ce: usize, pub b: usize, pub e: usize }
pub fn HF_null() -> (r: HF) ensures !r.set { HF { set: false, name: Vec::new(), cs: 0, ce: 0, b: 0, e: 0 } }
pub fn HF_isset(f: &HF) -> (r: bool) ensures r == f.set { f.set }
#[verifier::external_body]
pub fn clone_HF(f: &HF) -> (r: HF) ensures r == *f { unimplemented!() }
#[verifier::external_body]
pub fn hf_create(name: &Vec<u8>) -> (r: HF) ensures r.set, r.name@ == name@ { unimplemented!() }
pub fn hf_parse(f: &mut HF, a: usize, z: usize) ensures *final(f) == (HF { cs: a, ce: z, ..*old(f) }) { f.cs = a; f.ce = z; }
pub trait Comp: Sized {
    spec fn bounded(self, o: Self, a: usize, z: usize) -> bool;
    fn set_bounds(&mut self, a: usize, z: usize) ensures final(self).bounded(*old(self), a, z);
}
impl Comp for HF {
    open spec fn bounded(self, o: Self, a: usize, z: usize) -> bool { self == (HF { b: a, e: z, ..o }) }
    fn set_bounds(&mut self, a: usize, z: usize) { self.b = a; self.e = z; }
}
impl Comp for Hdr {
    open spec fn bounded(self, o: Self, a: usize, z: usize) -> bool { self == o }
    fn set_bounds(&mut self, a: usize, z: usize) { }
}
pub fn comp_bounds<T: Comp>(f: &mut T, a: usize, z: usize) ensures final(f).bounded(*old(f), a, z) { f.set_bounds(a, z); }
pub fn hdr_clear(h: &mut Hdr) ensures final(h).m_fields@.len() == 0 { h.m_fields = Vec::new(); }
pub uninterp spec fn recm() -> i32;
#[verifier::external_body]
pub fn recovery() -> (r: i32) ensures r == recm(), r == 0 || r == 2 { unimplemented!() }
// ---- classes: 0 blanks, 1 characters of a name, 2 colons, 3 anything but LF
pub open spec fn blank(x: u8) -> bool { x == 32 || x == 9 }
pub open spec fn sp(x: u8) -> bool { x == 32 || x == 9 || x == 10 || x == 13 }
pub open spec fn isc(c: int, x: u8) -> bool { if c == 0 { blank(x) } else if c == 1 { x != 58 && !sp(x) } else if c == 2 { x == 58 } else { x != 10 } }
#[verifier::opaque]
pub open spec fn skipc(c: int, b: Seq<u8>, p: int, e: int) -> int decreases e - p { if p < e && isc(c, b[p]) { skipc(c, b, p + 1, e) } else { p } }
pub proof fn lemma_skip1(c: int, b: Seq<u8>, p: int, e: int)
    ensures skipc(c, b, p, e) == (if p < e && isc(c, b[p]) { skipc(c, b, p + 1, e) } else { p }), p <= e ==> p <= skipc(c, b, p, e) <= e,
        skipc(c, b, p, e) < e ==> !isc(c, b[skipc(c, b, p, e)])
    decreases e - p
{ reveal(skipc); if p < e && isc(c, b[p]) { lemma_skip1(c, b, p + 1, e); } }
pub proof fn lemma_run(c: int, b: Seq<u8>, p: int, q: int, e: int)
    requires p <= q <= e, forall|k: int| p <= k < q ==> isc(c, #[trigger] b[k]), q == e || !isc(c, b[q])
    ensures skipc(c, b, p, e) == q
    decreases q - p
{ reveal(skipc); if p < q { lemma_run(c, b, p + 1, q, e); } }
// the position after the line at p
pub open spec fn eolp(b: Seq<u8>, p: int, e: int) -> int { let q = skipc(3, b, p, e); if q < e { q + 1 } else { e } }
// the position after a value which starts at p: lines starting with a blank continue it
#[verifier::opaque]
pub open spec fn fold_end(b: Seq<u8>, p: int, e: int) -> int decreases e - p { let q = eolp(b, p, e); if p < q < e && blank(b[q]) { fold_end(b, q, e) } else { q } }
#[verifier::opaque]
pub open spec fn strip(b: Seq<u8>, s: int, z: int) -> int decreases z - s { if z > s && sp(b[z - 1]) { strip(b, s, z - 1) } else { z } }
pub proof fn lemma_fold1(b: Seq<u8>, p: int, e: int)
    requires p <= e
    ensures fold_end(b, p, e) == (if p < eolp(b, p, e) < e && blank(b[eolp(b, p, e)]) { fold_end(b, eolp(b, p, e), e) } else { eolp(b, p, e) }), p <= fold_end(b, p, e) <= e, p < e ==> p < fold_end(b, p, e)
    decreases e - p
{ reveal(fold_end); lemma_skip1(3, b, p, e); let q = eolp(b, p, e); if p < q < e && blank(b[q]) { lemma_fold1(b, q, e); } }
pub proof fn lemma_strip1(b: Seq<u8>, s: int, z: int)
    ensures strip(b, s, z) == (if z > s && sp(b[z - 1]) { strip(b, s, z - 1) } else { z }), s <= z ==> s <= strip(b, s, z) <= z
    decreases z - s
{ reveal(strip); if z > s && sp(b[z - 1]) { lemma_strip1(b, s, z - 1); } }
// ---- what follows a position of a header: the end of the header, a field, or (only if the program asks for it) nothing usable
pub enum Ev { End(int), Field(int, int, int, int, int), Stop }
pub open spec fn field_at(b: Seq<u8>, p: int, e: int) -> Ev {
    let n = skipc(1, b, p, e); let s = skipc(0, b, skipc(2, b, skipc(0, b, n, e), e), e); let z = fold_end(b, s, e);
    Ev::Field(p, n, s, strip(b, s, z), z)
}
#[verifier::opaque]
pub open spec fn nextf(b: Seq<u8>, p: int, e: int) -> Ev decreases e - p {
    if p >= e { Ev::End(p) }
    else if b[p] == 10 { Ev::End(p + 1) }
    else if b[p] == 13 && p + 1 < e && b[p + 1] == 10 { Ev::End(p + 2) }
    else {
        let q = if sp(b[p]) { skipc(0, b, p, e) } else { skipc(0, b, skipc(1, b, p, e), e) };
        if sp(b[p]) && q < e && b[q] == 10 { Ev::End(q + 1) }
        else if sp(b[p]) && q + 1 < e && b[q] == 13 && b[q + 1] == 10 { Ev::End(q + 2) }
        else if !sp(b[p]) && q < e && b[q] == 58 { field_at(b, p, e) }
        else if !sp(b[p]) && recm() == 2 { Ev::Stop }
        else if eolp(b, p, e) > p { nextf(b, eolp(b, p, e), e) } else { Ev::Stop }
    }
}
pub proof fn lemma_nextf(b: Seq<u8>, p: int, e: int)
    ensures nextf(b, p, e) == (
    if p >= e { Ev::End(p) }
    else if b[p] == 10 { Ev::End(p + 1) }
    else if b[p] == 13 && p + 1 < e && b[p + 1] == 10 { Ev::End(p + 2) }
    else {
        let q = if sp(b[p]) { skipc(0, b, p, e) } else { skipc(0, b, skipc(1, b, p, e), e) };
        if sp(b[p]) && q < e && b[q] == 10 { Ev::End(q + 1) }
        else if sp(b[p]) && q + 1 < e && b[q] == 13 && b[q + 1] == 10 { Ev::End(q + 2) }
        else if !sp(b[p]) && q < e && b[q] == 58 { field_at(b, p, e) }
        else if !sp(b[p]) && recm() == 2 { Ev::Stop }
        else if eolp(b, p, e) > p { nextf(b, eolp(b, p, e), e) } else { Ev::Stop }
    })
{ reveal(nextf); }
// skipping blanks first does not change where the line ends
pub proof fn lemma_skip_eol(c: int, b: Seq<u8>, p: int, e: int)
    requires p <= e, c == 0 || c == 1
    ensures eolp(b, skipc(c, b, p, e), e) == eolp(b, p, e)
    decreases e - p
{ lemma_skip1(c, b, p, e); lemma_skip1(3, b, p, e); if p < e && isc(c, b[p]) { lemma_skip_eol(c, b, p + 1, e); } }
// ---- a whole header
#[verifier::opaque]
pub open spec fn hparse(b: Seq<u8>, p: int, e: int) -> (Seq<Ev>, int) decreases e - p {
    if p >= e { (Seq::empty(), p) } else {
        match nextf(b, p, e) {
            Ev::End(q) => (Seq::empty(), q),
            Ev::Stop => (Seq::empty(), p),
            Ev::Field(a, n, s, z, q) => if p < q <= e { let r = hparse(b, q, e); (seq![Ev::Field(a, n, s, z, q)] + r.0, r.1) } else { (Seq::empty(), p) },
        }
    }
}
pub proof fn lemma_hparse1(b: Seq<u8>, p: int, e: int)
    ensures hparse(b, p, e) == (if p >= e { (Seq::empty(), p) } else {
        match nextf(b, p, e) {
            Ev::End(q) => (Seq::empty(), q),
            Ev::Stop => (Seq::empty(), p),
            Ev::Field(a, n, s, z, q) => if p < q <= e { let r = hparse(b, q, e); (seq![Ev::Field(a, n, s, z, q)] + r.0, r.1) } else { (Seq::empty(), p) },
        }
    })
{ reveal(hparse); }
// a field is found at or after the position, and takes at least a character
pub proof fn lemma_next_pos(b: Seq<u8>, p: int, e: int)
    requires 0 <= p <= e
    ensures match nextf(b, p, e) { Ev::Field(a, n, s, z, q) => p <= a <= n < s <= z <= q <= e, Ev::End(q) => p <= q <= e, Ev::Stop => true }
    decreases e - p
{
    lemma_nextf(b, p, e); lemma_skip1(1, b, p, e); lemma_skip1(3, b, p, e); let n = skipc(1, b, p, e); lemma_skip1(0, b, n, e); lemma_skip1(0, b, p, e); let c = skipc(0, b, n, e);
    lemma_skip1(2, b, c, e); let c2 = skipc(2, b, c, e); lemma_skip1(2, b, c + 1, e); lemma_skip1(0, b, c2, e); let s = skipc(0, b, c2, e); lemma_fold1(b, s, e); lemma_strip1(b, s, fold_end(b, s, e));
    if p < e && eolp(b, p, e) > p { lemma_next_pos(b, eolp(b, p, e), e); }
}
pub open spec fn isf(f: HF, b: Seq<u8>, v: Ev) -> bool { match v { Ev::Field(a, n, s, z, q) => f.set && f.name@ == b.subrange(a, n) && f.cs == s && f.ce == z && f.b == a && f.e == q, _ => false } }
// ---- the text of a header: NAME ": " VALUE CRLF for each field
pub struct FS { pub name: Seq<u8>, pub value: Seq<u8> }
pub open spec fn htext(fs: Seq<FS>) -> Seq<u8> decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { ftext(fs[0]) + htext(fs.drop_first()) } }
pub open spec fn ftext(f: FS) -> Seq<u8> { f.name + seq![58u8, 32u8] + f.value + seq![13u8, 10u8] }
// names without colon or white space; values which neither start nor end with white space and where line ends are followed by a blank
pub open spec fn legal(f: FS) -> bool {
    f.name.len() >= 1 && (forall|k: int| 0 <= k < f.name.len() ==> isc(1, #[trigger] f.name[k]))
    && (f.value.len() > 0 ==> !sp(f.value[0]) && !sp(f.value.last()))
    && (forall|k: int| 0 <= k < f.value.len() && #[trigger] f.value[k] == 10 ==> blank(f.value[k + 1]))
}
pub proof fn lemma_fold(b: Seq<u8>, p: int, v: int, e: int)
    requires 0 <= p <= v, v + 2 < e <= b.len(), b[v] == 13, b[v + 1] == 10, !blank(b[v + 2]), forall|k: int| p <= k < v && #[trigger] b[k] == 10 ==> k + 1 < v && blank(b[k + 1])
    ensures fold_end(b, p, e) == v + 2
    decreases v - p
{
    lemma_fold1(b, p, e); lemma_skip1(3, b, p, e);
    let q = skipc(3, b, p, e);
    lemma_skip_le(b, p, v + 1, e);
    if q < v { assert(b[q] == 10); lemma_fold(b, q + 1, v, e); } else { assert(q != v); }
}
// the first LF is not after a given one
pub proof fn lemma_skip_le(b: Seq<u8>, p: int, z: int, e: int)
    requires 0 <= p <= z < e, b[z] == 10
    ensures p <= skipc(3, b, p, e) <= z, b[skipc(3, b, p, e)] == 10
    decreases z - p
{ lemma_skip1(3, b, p, e); if p < z && b[p] != 10 { lemma_skip_le(b, p + 1, z, e); } }
pub proof fn lemma_field(b: Seq<u8>, p: int, e: int, f: FS)
    requires legal(f), 0 <= p, e <= b.len(), p + ftext(f).len() < e, b.subrange(p, p + ftext(f).len()) == ftext(f), !blank(b[p + ftext(f).len()])
    ensures nextf(b, p, e) == Ev::Field(p, p + f.name.len(), p + f.name.len() + 2, p + f.name.len() + 2 + f.value.len(), p + ftext(f).len()), b.subrange(p, p + f.name.len()) == f.name,
        b.subrange(p + f.name.len() + 2, p + f.name.len() + 2 + f.value.len()) == f.value
{
    let n = p + f.name.len(); let v = n + 2 + f.value.len(); let t = ftext(f);
    assert(t.len() == f.name.len() + 2 + f.value.len() + 2);
    assert forall|k: int| 0 <= k < t.len() implies b[p + k] == #[trigger] t[k] by { assert(b.subrange(p, p + t.len())[k] == b[p + k]); }
    assert forall|k: int| p <= k < n implies #[trigger] b[k] == f.name[k - p] by { assert(b[p + (k - p)] == t[k - p]); }
    assert forall|k: int| n + 2 <= k < v implies #[trigger] b[k] == f.value[k - n - 2] by { assert(b[p + (k - p)] == t[k - p]); }
    assert(b[n] == 58 && b[n + 1] == 32 && b[v] == 13 && b[v + 1] == 10) by { assert(b[n] == t[n - p]); assert(b[n + 1] == t[n + 1 - p]); assert(b[v] == t[v - p]); assert(b[v + 1] == t[v + 1 - p]); }
    assert(b.subrange(p, n) =~= f.name);
    assert(b.subrange(n + 2, v) =~= f.value);
    assert forall|k: int| p <= k < n implies isc(1, #[trigger] b[k]) by { assert(isc(1, f.name[k - p])); }
    lemma_run(1, b, p, n, e); lemma_run(0, b, n, n, e); lemma_run(2, b, n, n + 1, e);
    assert(f.value.len() > 0 ==> b[n + 2] == f.value[0]);
    lemma_run(0, b, n + 1, n + 2, e);
    assert forall|k: int| n + 2 <= k < v && #[trigger] b[k] == 10 implies k + 1 < v && blank(b[k + 1]) by { assert(f.value[k - n - 2] == 10); if k == v - 1 { assert(f.value.last() == 10); } }
    lemma_fold(b, n + 2, v, e);
    lemma_strip1(b, n + 2, v + 2); lemma_strip1(b, n + 2, v + 1); lemma_strip1(b, n + 2, v);
    if f.value.len() > 0 { assert(b[v - 1] == f.value.last()); }
    assert(b[p] == f.name[0]); assert(isc(1, b[p]));
    lemma_nextf(b, p, e);
}
pub open spec fn fields_of(b: Seq<u8>, v: Seq<Ev>, fs: Seq<FS>) -> bool { v.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> is_field(b, #[trigger] v[i], fs[i]) }
pub open spec fn is_field(b: Seq<u8>, v: Ev, f: FS) -> bool { match v { Ev::Field(a, n, s, z, q) => b.subrange(a, n) == f.name && b.subrange(s, z) == f.value, _ => false } }
// a header followed by an empty line and anything is read back as exactly its fields, and ends after the empty line
pub proof fn lemma_header(b: Seq<u8>, p: int, fs: Seq<FS>, rest: Seq<u8>)
    requires 0 <= p <= b.len(), b.subrange(p, b.len() as int) == htext(fs) + seq![13u8, 10u8] + rest, forall|i: int| 0 <= i < fs.len() ==> legal(#[trigger] fs[i])
    ensures fields_of(b, hparse(b, p, b.len() as int).0, fs), hparse(b, p, b.len() as int).1 == b.len() - rest.len()
    decreases fs.len()
{
    let e = b.len() as int; let t = b.subrange(p, e);
    assert forall|k: int| 0 <= k < t.len() implies b[p + k] == #[trigger] t[k] by {}
    lemma_hparse1(b, p, e); lemma_nextf(b, p, e);
    if fs.len() == 0 {
        assert(t[0] == 13 && t[1] == 10);
        assert(b[p] == 13 && b[p + 1] == 10);
    } else {
        let f = fs[0]; let x = ftext(f); let r = fs.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies legal(#[trigger] r[i]) by { assert(r[i] == fs[i + 1]); }
        assert(legal(fs[0]));
        assert(t == x + (htext(r) + seq![13u8, 10u8] + rest)) by { assert(t =~= x + (htext(r) + seq![13u8, 10u8] + rest)); }
        assert(b.subrange(p, p + x.len()) =~= x) by { assert forall|k: int| 0 <= k < x.len() implies b[p + k] == x[k] by { assert(t[k] == x[k]); } }
        let w = htext(r) + seq![13u8, 10u8] + rest;
        let q = p + x.len();
        assert(b.subrange(q, e) =~= w) by { assert forall|k: int| 0 <= k < w.len() implies b[q + k] == w[k] by { assert(t[x.len() + k] == w[k]); assert(b[p + (x.len() + k)] == t[x.len() + k]); } }
        assert(w.len() >= 2);
        assert(!blank(w[0])) by { if r.len() > 0 { assert(legal(r[0])); assert(isc(1, r[0].name[0])); assert(w[0] == htext(r)[0]); assert(htext(r)[0] == ftext(r[0])[0]); assert(ftext(r[0])[0] == r[0].name[0]); } else { assert(w[0] == 13); } }
        assert(b[q] == b.subrange(q, e)[0]);
        lemma_field(b, p, e, f);
        lemma_header(b, q, r, rest);
        let v = hparse(b, p, e).0; let v2 = hparse(b, q, e).0;
        assert forall|i: int| 0 <= i < fs.len() implies is_field(b, #[trigger] v[i], fs[i]) by { if i > 0 { assert(v[i] == v2[i - 1]); assert(fs[i] == r[i - 1]); } }
    }
}
@source src/vmime/header.cpp
@fn vmime::header::parseImpl as hdr_parse
@outptr newPosition
@requires
    position <= end <= buffer.len(), buffer.len() < 0x7fff_ffff_ffff_ffff,
@ensures
    *final(newPosition) == hparse(buffer@, position as int, end as int).1,
    final(this).m_fields@.len() == hparse(buffer@, position as int, end as int).0.len(),
    forall|i: int| 0 <= i < final(this).m_fields@.len() ==> isf(#[trigger] final(this).m_fields@[i], buffer@, hparse(buffer@, position as int, end as int).0[i]),
@hint start
    let ghost h = hparse(buffer@, position as int, end as int);
    let ghost mut g: Seq<Ev> = Seq::empty();
@loop 1 xinvariant
    h.0 == g + hparse(buffer@, pos as int, end as int).0, h.1 == hparse(buffer@, pos as int, end as int).1,
@loop 1 invariant
    position <= pos <= end,
    this.m_fields@.len() == g.len(), forall|i: int| 0 <= i < g.len() ==> isf(#[trigger] this.m_fields@[i], buffer@, g[i]),
@loop 1 ensures
    h.0 == g, h.1 == pos,
@loop 1 decreases
    end - pos
@hint loop 1 pre
    proof { assert(g + h.0 =~= h.0); }
@hint loop 1 head
    let ghost g0 = g;
    let ghost p0 = pos as int;
    proof { lemma_hparse1(buffer@, pos as int, end as int); lemma_next_pos(buffer@, pos as int, end as int); assert(g + Seq::<Ev>::empty() =~= g); }
@hint loop 1 end
    proof { let ev = nextf(buffer@, p0, end as int); g = g0.push(ev); assert(g + hparse(buffer@, pos as int, end as int).0 =~= g0 + (seq![ev] + hparse(buffer@, pos as int, end as int).0)); }
@source src/vmime/headerField.cpp
@fn vmime::headerField::parseNext as hf_next
@outptr newPosition
@requires
    position <= end <= buffer.len(), buffer.len() < 0x7fff_ffff_ffff_ffff,
@ensures
    match nextf(buffer@, position as int, end as int) {
        Ev::End(q) => !res.set && *final(newPosition) == q,
        Ev::Stop => !res.set && *final(newPosition) == *old(newPosition),
        Ev::Field(a, n, s, z, q) => res.set && res.name@ == buffer@.subrange(a, n) && res.cs == s && res.ce == z && res.b == a && res.e == q && *final(newPosition) == q,
    },
@loop 1 invariant
    position <= pos <= end, nextf(buffer@, pos as int, end as int) == nextf(buffer@, position as int, end as int), *newPosition == *old(newPosition),
@loop 1 decreases
    end - pos
@hint loop 1 begin
    let ghost p0 = pos as int;
    proof { lemma_nextf(buffer@, p0, end as int); lemma_skip1(1, buffer@, p0, end as int); lemma_skip1(0, buffer@, p0, end as int); lemma_skip_eol(0, buffer@, p0, end as int); lemma_skip1(3, buffer@, p0, end as int); }
@hint loop 1 after
    proof { lemma_nextf(buffer@, pos as int, end as int); }
@loop 2 invariant
    nameStart <= pos <= end, nameStart == p0, skipc(1, buffer@, pos as int, end as int) == skipc(1, buffer@, p0, end as int),
@loop 2 decreases
    end - pos
@hint loop 2 begin
    proof { lemma_skip1(1, buffer@, pos as int, end as int); }
@hint loop 2 after
    proof { lemma_skip1(1, buffer@, pos as int, end as int); }
    let ghost p1 = pos as int;
@loop 3 invariant
    nameEnd <= pos <= end, nameEnd == p1, skipc(0, buffer@, pos as int, end as int) == skipc(0, buffer@, p1, end as int),
@loop 3 decreases
    end - pos
@hint loop 3 begin
    proof { lemma_skip1(0, buffer@, pos as int, end as int); }
@hint loop 3 after
    proof { lemma_skip1(0, buffer@, pos as int, end as int); }
    let ghost p2 = pos as int;
@loop 4 invariant
    nameStart <= pos <= end, nameStart == p0, skipc(3, buffer@, pos as int, end as int) == skipc(3, buffer@, p0, end as int),
@loop 4 decreases
    end - pos
@hint loop 4 begin
    proof { lemma_skip1(3, buffer@, pos as int, end as int); }
@hint loop 4 after
    proof { lemma_skip1(3, buffer@, pos as int, end as int); }
@loop 5 invariant
    p2 <= pos <= end, skipc(2, buffer@, pos as int, end as int) == skipc(2, buffer@, p2, end as int),
@loop 5 decreases
    end - pos
@hint loop 5 begin
    proof { lemma_skip1(2, buffer@, pos as int, end as int); }
@hint loop 5 after
    proof { lemma_skip1(2, buffer@, pos as int, end as int); }
    let ghost p3 = pos as int;
@loop 6 invariant
    p3 <= pos <= end, skipc(0, buffer@, pos as int, end as int) == skipc(0, buffer@, p3, end as int),
@loop 6 decreases
    end - pos
@hint loop 6 begin
    proof { lemma_skip1(0, buffer@, pos as int, end as int); }
@hint loop 6 after
    proof { lemma_skip1(0, buffer@, pos as int, end as int); }
@hint loop 7 pre
    let ghost s = pos as int;
@loop 7 invariant
    s <= pos <= end, contentsEnd == (if firstLine { 0 } else { pos as int }), firstLine ==> pos == s, pos == s || s < pos,
    firstLine ==> fold_end(buffer@, s, end as int) == fold_end(buffer@, pos as int, end as int),
    !firstLine ==> s < pos && fold_end(buffer@, s, end as int) == (if pos < end && blank(buffer@[pos as int]) { fold_end(buffer@, pos as int, end as int) } else { pos as int }),
@loop 7 ensures
    s <= pos <= end, pos == fold_end(buffer@, s, end as int), contentsEnd == pos || (contentsEnd == 0 && pos == end),
@loop 7 decreases
    end - pos
@hint loop 7 head
    proof { lemma_fold1(buffer@, pos as int, end as int); lemma_skip1(3, buffer@, pos as int, end as int); }
@loop 8 invariant
    contentsStart <= contentsEnd <= end, contentsStart == s, strip(buffer@, s, contentsEnd as int) == strip(buffer@, s, pos as int),
@loop 8 decreases
    contentsEnd
@hint loop 8 begin
    proof { lemma_strip1(buffer@, s, contentsEnd as int); }
@hint loop 8 after
    proof { lemma_strip1(buffer@, s, contentsEnd as int); }
@loop 9 invariant
    p0 <= pos <= end, skipc(0, buffer@, pos as int, end as int) == skipc(0, buffer@, p0, end as int),
@loop 9 decreases
    end - pos
@hint loop 9 begin
    proof { lemma_skip1(0, buffer@, pos as int, end as int); }
@hint loop 9 after
    proof { lemma_skip1(0, buffer@, pos as int, end as int); }
    let ghost p4 = pos as int;
@loop 10 invariant
    p4 <= pos <= end, skipc(3, buffer@, pos as int, end as int) == skipc(3, buffer@, p4, end as int),
@loop 10 decreases
    end - pos
@hint loop 10 begin
    proof { lemma_skip1(3, buffer@, pos as int, end as int); }
@hint loop 10 after
    proof { lemma_skip1(3, buffer@, pos as int, end as int); }
@fn vmime::parserHelpers::findEOL as find_eol
@outptr eol
@requires
    currentPos <= end <= buffer.len(), buffer.len() < 0x7fff_ffff_ffff_ffff,
@ensures
    res == (currentPos < end), res ==> *final(eol) == eolp(buffer@, currentPos as int, end as int),
@loop 1 invariant
    currentPos <= pos <= end, skipc(3, buffer@, pos as int, end as int) == skipc(3, buffer@, currentPos as int, end as int),
@loop 1 decreases
    end - pos
@hint loop 1 begin
    proof { lemma_skip1(3, buffer@, pos as int, end as int); lemma_skip1(3, buffer@, pos + 1, end as int); }
@hint loop 1 after
    proof { lemma_skip1(3, buffer@, pos as int, end as int); }
@rustpost
// a header followed by an empty line and anything is read back as exactly its fields, and ends after the empty line
pub fn property_header(h: &mut Hdr, buf: &Vec<u8>, Ghost(fs): Ghost<Seq<FS>>, Ghost(rest): Ghost<Seq<u8>>) -> (np: usize)
    requires buf.len() < 0x7fff_ffff_ffff_ffff, buf@ == htext(fs) + seq![13u8, 10u8] + rest, forall|i: int| 0 <= i < fs.len() ==> legal(#[trigger] fs[i])
    ensures np == buf.len() - rest.len(), final(h).m_fields@.len() == fs.len(),
        forall|i: int| 0 <= i < fs.len() ==> (#[trigger] final(h).m_fields@[i]).name@ == fs[i].name && buf@.subrange(final(h).m_fields@[i].cs as int, final(h).m_fields@[i].ce as int) == fs[i].value
{
    let mut np: usize = 0;
    proof { assert(buf@.subrange(0, buf@.len() as int) =~= buf@); lemma_header(buf@, 0, fs, rest); }
    hdr_parse(h, buf, 0usize, buf.len(), &mut np);
    proof {
        let v = hparse(buf@, 0, buf.len() as int).0;
        assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] h.m_fields@[i]).name@ == fs[i].name && buf@.subrange(h.m_fields@[i].cs as int, h.m_fields@[i].ce as int) == fs[i].value by { assert(is_field(buf@, v[i], fs[i])); assert(isf(h.m_fields@[i], buf@, v[i])); }
    }
    np
}
