// the list made from ranges in ascending order that do not touch: strictly ascending, exactly the numbers in the ranges
pub open spec fn asc_ranges(s: Seq<Rng>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Num && s[i]->Num_0.m_first <= s[i]->Num_0.m_last && s[i]->Num_0.m_last < usize::MAX && (i + 1 < s.len() ==> s[i + 1] is Num && s[i]->Num_0.m_last + 1 < s[i + 1]->Num_0.m_first) }
pub open spec fn in_ranges(s: Seq<Rng>, x: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])->Num_0.m_first <= x <= s[i]->Num_0.m_last }
pub open spec fn rising(l: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> #[trigger] l[i] < #[trigger] l[j] }
pub proof fn property_list(s: Seq<Rng>, c: nat) requires asc_ranges(s)
    ensures rising(all_list(s, c)), forall|x: usize| #[trigger] all_list(s, c).contains(x) <==> in_ranges(s, x as int), s.len() > 0 ==> all_list(s, c).len() > 0 && all_list(s, c).last() == s.last()->Num_0.m_last
    decreases s.len()
{
    let l = all_list(s, c);
    if s.len() > 0 {
        let d = s.drop_last(); let p = all_list(d, c); let r = s.last()->Num_0; let q = span(r.m_first as int, r.m_last as int);
        assert(s[s.len() - 1] is Num);
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is Num && d[i]->Num_0.m_first <= d[i]->Num_0.m_last && d[i]->Num_0.m_last < usize::MAX && (i + 1 < d.len() ==> d[i + 1] is Num && d[i]->Num_0.m_last + 1 < d[i + 1]->Num_0.m_first) by { assert(d[i] == s[i]); if i + 1 < d.len() { assert(d[i + 1] == s[i + 1]); } }
        property_list(d, c);
        assert(l =~= p + q);
        assert(q.len() == r.m_last - r.m_first + 1);
        if d.len() > 0 { assert(s[d.len() - 1] == d.last()); assert(p.last() < r.m_first); }
        else { assert(p.len() == 0); }
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] l[i] < #[trigger] l[j] by {
            if j < p.len() { } else if i < p.len() { assert(p[i] <= p.last()); } else { }
        }
        assert forall|x: usize| #[trigger] l.contains(x) <==> in_ranges(s, x as int) by {
            if l.contains(x) { let k = choose|k: int| 0 <= k < l.len() && l[k] == x; if k < p.len() { assert(p.contains(x)); let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i])->Num_0.m_first <= x <= d[i]->Num_0.m_last; assert(s[i] == d[i]); } else { assert(s[s.len() - 1]->Num_0.m_first <= x <= s[s.len() - 1]->Num_0.m_last); } }
            if in_ranges(s, x as int) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])->Num_0.m_first <= x <= s[i]->Num_0.m_last; if i < d.len() { assert(d[i] == s[i]); assert(in_ranges(d, x as int)); assert(p.contains(x)); let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(l[k] == x); } else { assert(l[p.len() + x - r.m_first] == x); } }
        }
    }
}
