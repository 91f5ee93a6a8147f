pub open spec fn texts(l: Seq<Comp>, cs: Seq<u8>) -> Seq<Seq<u8>> { Seq::new(l.len(), |i: int| comp_in(l[i], cs)) }
#[verifier::opaque]
pub open spec fn joined(sep: Seq<u8>, p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() { if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { joined(sep, p.drop_last()) + sep + p.last() } }
pub proof fn lemma_join_push(sep: Seq<u8>, p: Seq<Seq<u8>>, t: Seq<u8>)
    ensures joined(sep, p.push(t)) == (if p.len() == 0 { t } else { joined(sep, p) + sep + t })
{ reveal_with_fuel(joined, 2); assert(p.push(t).drop_last() =~= p); }
// the first occurrence of the separator at or after i
pub open spec fn is_next(s: Seq<u8>, sep: Seq<u8>, i: int, e: int) -> bool { i <= e && occurs_at(s, sep, e) && forall|k: int| i <= k < e ==> !occurs_at(s, sep, k) }
pub open spec fn has_next(s: Seq<u8>, sep: Seq<u8>, i: int) -> bool { exists|e: int| #[trigger] is_next(s, sep, i, e) }
pub open spec fn next_sep(s: Seq<u8>, sep: Seq<u8>, i: int) -> int { choose|e: int| #[trigger] is_next(s, sep, i, e) }
pub open spec fn opt(t: Seq<u8>) -> Seq<Seq<u8>> { if t.len() > 0 { seq![t] } else { Seq::empty() } }
// the pieces between separators, empty ones left out
#[verifier::opaque]
pub open spec fn pieces(s: Seq<u8>, sep: Seq<u8>, i: int) -> Seq<Seq<u8>> decreases s.len() - i
    when 0 <= i <= s.len() && sep.len() > 0
{
    if has_next(s, sep, i) { let e = next_sep(s, sep, i); if i <= e && e + sep.len() <= s.len() { opt(s.subrange(i, e)) + pieces(s, sep, e + sep.len()) } else { Seq::empty() } } else { opt(s.subrange(i, s.len() as int)) }
}
pub proof fn lemma_next(s: Seq<u8>, sep: Seq<u8>, i: int, e: int)
    requires is_next(s, sep, i, e)
    ensures has_next(s, sep, i), next_sep(s, sep, i) == e
{ let f = next_sep(s, sep, i); if f < e { assert(!occurs_at(s, sep, f)); } else if e < f { assert(!occurs_at(s, sep, e)); } }
