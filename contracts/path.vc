@unit path
@use strings
@constants src/vmime/constants.cpp
@type (const )?(.*::component|vmime::word|word) = stru:Comp
@type .*charset.* = stru:Cs
@ctor Cs 1 = cs_of ptr
@type (const )?(.*::path|path) = stru:Path
@type (const )?(std::)?vector<[^_]*(component|word)[^_]*>( &)? = vec:stru:Comp
@type (.*::)?list = vec:stru:Comp
@struct vmime::word as Comp
@struct vmime::utility::path as Path
@method vmime::word::getConvertedText = comp_text str ref ref
@ctor Comp 2 = comp_make ref ref
@ctor Comp 0 = comp_new
@ctor Path 0 = path_new
@source src/vmime/word.cpp
@rust
pub struct Cs { pub name: Vec<u8> }
@include path_common.rs
@fn vmime::word::isEquivalent as comp_same
@ensures
    res == same_name(*this, *other),
@source src/vmime/utility/path.cpp
@rust
pub open spec fn is_prefix(a: Seq<Comp>, b: Seq<Comp>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> same_name(#[trigger] a[i], b[i]) }
@fn vmime::utility::path::path ~void ()~ as path_new
@ensures
    res.m_list@ == Seq::<Comp>::empty(),
@fn vmime::utility::path::path ~void (const path &)~ as path_copy
@ensures
    res.m_list@ == p.m_list@,
@fn vmime::utility::path::operator/= ~const path &)~ as path_join
@requires
    old(this).m_list.len() + p.m_list.len() < 0x1000_0000_0000_0000,
@ensures
    final(this).m_list@ == old(this).m_list@ + p.m_list@,
@fn vmime::utility::path::operator/= ~component &)~ as path_append
@ensures
    final(this).m_list@ == old(this).m_list@.push(*c),
@fn vmime::utility::path::operator/ ~const path &)~ as path_div
@requires
    this.m_list.len() + p.m_list.len() < 0x1000_0000_0000_0000,
@ensures
    res.m_list@ == this.m_list@ + p.m_list@,
@fn vmime::utility::path::operator/ ~component &)~ as path_divc
@ensures
    res.m_list@ == this.m_list@.push(*c),
@fn vmime::utility::path::path ~void (const component &)~ as path_of
@ensures
    res.m_list@ == seq![*c],
@fn vmime::utility::path::getLastComponent ~const~ as path_last
@requires
    this.m_list.len() > 0,
@ensures
    res == this.m_list@.last(),
@fn vmime::utility::path::getParent as path_parent
@ensures
    res.m_list@ == (if this.m_list.len() == 0 { this.m_list@ } else { this.m_list@.drop_last() }),
@fn vmime::utility::path::operator= ~const path &)~ as path_assign
@ensures
    final(this).m_list@ == p.m_list@,
@fn vmime::utility::path::operator== as path_eq
@ensures
    res == (this.m_list.len() == p.m_list.len() && is_prefix(this.m_list@, p.m_list@)),
@loop 1 invariant
    i == j, i <= this.m_list.len(), equal ==> forall|k: int| 0 <= k < i ==> same_name(#[trigger] this.m_list@[k], p.m_list@[k]), !equal ==> i > 0 && !same_name(this.m_list@[i - 1], p.m_list@[i - 1]),
@loop 1 decreases
    this.m_list.len() - i
@fn vmime::utility::path::operator!= as path_ne
@ensures
    res == !(this.m_list.len() == p.m_list.len() && is_prefix(this.m_list@, p.m_list@)),
@fn vmime::utility::path::isEmpty as path_empty
@ensures
    res == (this.m_list.len() == 0),
@fn vmime::utility::path::isRoot as path_root
@ensures
    res == (this.m_list.len() == 0),
@fn vmime::utility::path::getSize as path_size
@ensures
    res == this.m_list.len(),
@fn vmime::utility::path::isDirectParentOf as path_dparent
@requires
    this.m_list.len() < 0x1000_0000_0000_0000,
@ensures
    res == (p.m_list.len() == this.m_list.len() + 1 && is_prefix(this.m_list@, p.m_list@)),
@loop 1 invariant
    i <= this.m_list.len(), equal ==> forall|k: int| 0 <= k < i ==> same_name(#[trigger] this.m_list@[k], p.m_list@[k]), !equal ==> i > 0 && !same_name(this.m_list@[i - 1], p.m_list@[i - 1]),
@loop 1 decreases
    this.m_list.len() - i
@fn vmime::utility::path::isParentOf as path_isparent
@requires
    this.m_list.len() < 0x1000_0000_0000_0000,
@ensures
    res == (p.m_list.len() > this.m_list.len() && is_prefix(this.m_list@, p.m_list@)),
@loop 1 invariant
    i <= this.m_list.len(), equal ==> forall|k: int| 0 <= k < i ==> same_name(#[trigger] this.m_list@[k], p.m_list@[k]), !equal ==> i > 0 && !same_name(this.m_list@[i - 1], p.m_list@[i - 1]),
@loop 1 decreases
    this.m_list.len() - i
@fn vmime::utility::path::renameParent as path_rename
@ensures
    final(this).m_list@ == (if old(this).m_list.len() > 0 && is_prefix(oldPath.m_list@, old(this).m_list@) { newPath.m_list@ + old(this).m_list@.skip(oldPath.m_list.len() as int) } else { old(this).m_list@ }),
@hint start
    let ghost l0 = this.m_list@;
@loop 1 invariant
    i <= oldPath.m_list.len(), this.m_list@ == l0, oldPath.m_list.len() <= l0.len(), equal ==> forall|k: int| 0 <= k < i ==> same_name(#[trigger] oldPath.m_list@[k], l0[k]), !equal ==> i > 0 && !is_prefix(oldPath.m_list@, l0),
@loop 1 decreases
    oldPath.m_list.len() - i
@hint loop 1 end
    proof { assert(!equal ==> !same_name(oldPath.m_list@[i as int], l0[i as int])); }
@loop 2 invariant
    j <= newPath.m_list.len(), this.m_list@ == l0, newList@ == newPath.m_list@.take(j as int),
@loop 2 decreases
    newPath.m_list.len() - j
@hint loop 2 end
    proof { assert(newList@ =~= newPath.m_list@.take(j as int + 1)); }
@loop 3 invariant
    i <= j <= l0.len(), this.m_list@ == l0, newList@ == newPath.m_list@ + l0.subrange(i as int, j as int),
@loop 3 decreases
    l0.len() - j
@hint loop 3 pre
    proof { assert(newList@ =~= newPath.m_list@ + l0.subrange(i as int, i as int)); }
@hint loop 3 end
    proof { assert(newList@ =~= newPath.m_list@ + l0.subrange(i as int, j as int + 1)); }
@hint after ~vec_copy_Comp~
    proof { assert(this.m_list@ =~= newPath.m_list@ + l0.skip(oldPath.m_list.len() as int)); }
@fn vmime::utility::path::appendComponent as path_appendc
@ensures
    final(this).m_list@ == old(this).m_list@.push(*c),
@rust
// a text cut at every occurrence of a separator (of one character), the empty pieces left out
@include pathsplit.rs
@fn vmime::utility::path::toString as path_str
@ensures
    res@ == joined(sep@, texts(this.m_list@, cset.name@)),
@hint loop 1 pre
    proof { reveal(joined); assert(texts(this.m_list@, cset.name@).take(0) =~= Seq::<Seq<u8>>::empty()); assert(str@ =~= joined(sep@, texts(this.m_list@, cset.name@).take(0))); }
@loop 1 invariant
    i <= this.m_list.len(), str@ == joined(sep@, texts(this.m_list@, cset.name@).take(i as int)),
@loop 1 decreases
    this.m_list.len() - i
@hint loop 1 end
    proof { let t = texts(this.m_list@, cset.name@); lemma_join_push(sep@, t.take(i as int), t[i as int]); assert(t.take(i as int + 1) =~= t.take(i as int).push(t[i as int])); }
@hint end
    proof { let t = texts(this.m_list@, cset.name@); assert(t.take(t.len() as int) =~= t); }
@fn vmime::utility::path::fromString as path_parse
@requires
    sep.len() > 0, str.len() + sep.len() < 0x1000_0000_0000_0000,
@ensures
    texts(res.m_list@, cset.name@) == pieces(str@, sep@, 0),
@loop 1 xinvariant
    start <= str.len(), texts(p.m_list@, cset.name@) + pieces(str@, sep@, start as int) == pieces(str@, sep@, 0),
@loop 1 ensures
    texts(p.m_list@, cset.name@) == pieces(str@, sep@, 0),
@loop 1 decreases
    str.len() - start
@hint loop 1 pre
    proof { assert(texts(p.m_list@, cset.name@) + pieces(str@, sep@, 0) =~= pieces(str@, sep@, 0)); }
@hint loop 1 begin
    let ghost i0 = start as int; let ghost l0 = p.m_list@; let ghost cs = cset.name@;
@hint after ~end = ~
    proof {
        reveal_with_fuel(pieces, 1);
        if end != NPOS { assert(is_next(str@, sep@, i0, end as int)); lemma_next(str@, sep@, i0, end as int); }
        else if has_next(str@, sep@, i0) { let e = next_sep(str@, sep@, i0); assert(is_next(str@, sep@, i0, e)); assert(!occurs_at(str@, sep@, e)); }
    }
@hint after ~path_appendc~
    proof { assert(texts(p.m_list@, cs) =~= texts(l0, cs).push(comp@)); assert(opt(comp@) =~= seq![comp@]); assert(texts(l0, cs) + opt(comp@) =~= texts(l0, cs).push(comp@)); }
@hint before ~start = uadd~
    proof {
        assert(texts(p.m_list@, cs) =~= texts(l0, cs) + opt(comp@));
        if end != NPOS { let r = pieces(str@, sep@, end + sep.len()); assert(texts(l0, cs) + (opt(comp@) + r) =~= (texts(l0, cs) + opt(comp@)) + r); }
    }
@rust
pub open spec fn no_c(t: Seq<u8>, c: u8) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != c }
// the text of a list begins with the text of its first k elements, followed by a separator
pub proof fn lemma_prefix(c: u8, p: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= p.len()
    ensures ({ let s = joined(seq![c], p); let a = joined(seq![c], p.take(k)); a.len() <= s.len() && s.subrange(0, a.len() as int) == a && (k == p.len() ==> s == a) && (0 < k < p.len() ==> a.len() < s.len() && s[a.len() as int] == c) })
    decreases p.len()
{
    let sp = seq![c];
    if k == p.len() { assert(p.take(k) =~= p); assert(joined(sp, p).subrange(0, joined(sp, p).len() as int) =~= joined(sp, p)); }
    else {
        let q = p.drop_last(); lemma_prefix(c, q, k); assert(q.take(k) =~= p.take(k)); assert(q.push(p.last()) =~= p); lemma_join_push(sp, q, p.last());
        let s = joined(sp, p); let a = joined(sp, p.take(k));
        if k == 0 { reveal_with_fuel(joined, 1); assert(a =~= Seq::empty()); assert(s.subrange(0, 0) =~= a); }
        else { assert(s.subrange(0, a.len() as int) =~= joined(sp, q).subrange(0, a.len() as int)); if k == q.len() { assert(q.take(k) =~= q); } }
    }
}
pub proof fn lemma_pieces_join(c: u8, p: Seq<Seq<u8>>, k: int)
    requires 0 <= k < p.len(), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).len() > 0 && no_c(p[i], c)
    ensures ({ let s = joined(seq![c], p); let o = if k == 0 { 0int } else { joined(seq![c], p.take(k)).len() + 1int }; 0 <= o <= s.len() && pieces(s, seq![c], o) == p.skip(k) })
    decreases p.len() - k
{
    let sp = seq![c]; let s = joined(sp, p); let o = if k == 0 { 0int } else { joined(sp, p.take(k)).len() + 1int };
    assert(p.take(p.len() as int) =~= p); 
    lemma_prefix(c, p, k); lemma_prefix(c, p, k + 1);
    let q = p.take(k); assert(p.take(k + 1) =~= q.push(p[k])); lemma_join_push(sp, q, p[k]);
    let e = o + p[k].len();
    assert(joined(sp, p.take(k + 1)).len() == e);
    assert(s.subrange(o, e) =~= p[k]) by { let a = joined(sp, p.take(k + 1)); assert(s.subrange(0, e) =~= a); assert forall|i: int| 0 <= i < p[k].len() implies s.subrange(o, e)[i] == p[k][i] by { assert(s.subrange(0, e)[o + i] == s[o + i]); assert(a[o + i] == p[k][i]); } }
    reveal_with_fuel(pieces, 1);
    assert(forall|i: int| o <= i < e ==> s[i] == s.subrange(o, e)[i - o]);
    assert forall|j: int| o <= j < e implies !occurs_at(s, sp, j) by { assert(s[j] == p[k][j - o]); if occurs_at(s, sp, j) { assert(s.subrange(j, j + 1)[0] == sp[0]); } }
    if k + 1 < p.len() {
        assert(s[e] == c && e < s.len()) by { lemma_prefix(c, p, k + 1); }
        assert(occurs_at(s, sp, e)) by { assert(s.subrange(e, e + 1) =~= sp); }
        assert(is_next(s, sp, o, e)); lemma_next(s, sp, o, e);
        lemma_pieces_join(c, p, k + 1);
        assert(opt(p[k]) + p.skip(k + 1) =~= p.skip(k));
    } else {
        assert(e == s.len());
        if has_next(s, sp, o) { let f = next_sep(s, sp, o); assert(is_next(s, sp, o, f)); assert(occurs_at(s, sp, f)); }
        assert(opt(p[k]) =~= p.skip(k));
    }
}
// PROPERTY: a path written with a separator of one character, which its components do not contain, is read back
pub fn property_path_text(p: &Path, sep: &Vec<u8>, cset: &Cs) -> (r: Path)
    requires sep.len() == 1, forall|i: int| 0 <= i < p.m_list.len() ==> comp_in(#[trigger] p.m_list@[i], cset.name@).len() > 0 && no_c(comp_in(p.m_list@[i], cset.name@), sep@[0]),
        joined(sep@, texts(p.m_list@, cset.name@)).len() + sep.len() < 0x1000_0000_0000_0000
    ensures texts(r.m_list@, cset.name@) == texts(p.m_list@, cset.name@)
{
    let t = path_str(p, sep, cset);
    let r = path_parse(&t, sep, cset);
    proof {
        let x = texts(p.m_list@, cset.name@); let c = sep@[0];
        assert(sep@ =~= seq![c]);
        assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).len() > 0 && no_c(x[i], c) by { assert(x[i] == comp_in(p.m_list@[i], cset.name@)); }
        if x.len() > 0 { lemma_pieces_join(c, x, 0); assert(x.skip(0) =~= x); }
        else { reveal_with_fuel(joined, 1); reveal_with_fuel(pieces, 1); assert(x =~= Seq::empty()); if has_next(t@, sep@, 0) { let f = next_sep(t@, sep@, 0); assert(is_next(t@, sep@, 0, f)); } }
    }
    r
}
