#[verifier::external_body]
pub fn cs_of(b: &Vec<u8>, off: usize) -> (r: Cs) requires off <= b.len() ensures off == 0 && (forall|i: int| 0 <= i < b.len() ==> #[trigger] b@[i] != 0) ==> r.name@ == b@ { unimplemented!() }

// the text of a component in a charset, and in UTF-8
pub uninterp spec fn comp_in(c: Comp, cs: Seq<u8>) -> Seq<u8>;
// two components are the same name: same text in UTF-8, whatever the charset they are stored in
pub open spec fn same_name(a: Comp, b: Comp) -> bool { comp_in(a, utf8_name()) == comp_in(b, utf8_name()) }
pub open spec fn utf8_name() -> Seq<u8> { seq![117u8, 116, 102, 45, 56] }
#[verifier::external_body] pub fn comp_text(c: &Comp, cs: &Cs) -> (r: Vec<u8>) ensures r@ == comp_in(*c, cs.name@) { unimplemented!() }
#[verifier::external_body] pub fn comp_make(t: &Vec<u8>, cs: &Cs) -> (r: Comp) ensures comp_in(r, cs.name@) == t@ { unimplemented!() }
#[verifier::external_body] pub fn comp_new() -> (r: Comp) { unimplemented!() }
#[verifier::external_body] pub fn clone_Comp(c: &Comp) -> (r: Comp) ensures r == *c { unimplemented!() }
pub fn clone_Path(p: &Path) -> (r: Path) ensures r.m_list@ == p.m_list@
{
    let mut v: Vec<Comp> = Vec::new();
    for i in 0..p.m_list.len() invariant v@ == p.m_list@.take(i as int) { v.push(clone_Comp(&p.m_list[i])); proof { assert(v@ =~= p.m_list@.take(i as int + 1)); } }
    proof { assert(p.m_list@.take(p.m_list.len() as int) =~= p.m_list@); }
    Path { m_list: v }
}
#[verifier::external_body]
pub fn vec_resize_Comp(s: &mut Vec<Comp>, n: usize) ensures final(s).len() == n, forall|k: int| 0 <= k < n && k < old(s).len() ==> #[trigger] final(s)@[k] == old(s)@[k] { unimplemented!() }
#[verifier::external_body]
pub fn vec_copy_Comp(d: &mut Vec<Comp>, dof: usize, s: &Vec<Comp>, from: usize, to: usize)
    requires from <= to <= s.len(), dof + (to - from) <= old(d).len()
    ensures final(d).len() == old(d).len(), forall|k: int| 0 <= k < old(d).len() ==> #[trigger] final(d)@[k] == (if dof <= k < dof + (to - from) { s@[from + k - dof] } else { old(d)@[k] }) { unimplemented!() }
