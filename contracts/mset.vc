@unit mset
@use strings
@exc invalid_argument
@source src/vmime/net/message.cpp
@struct vmime::net::message::uid as Uid
@type (const )?(.*message::)?uid = stru:Uid
@fn vmime::net::message::uid::uid ~void (const string &)~ as uid_of
@ensures
    res.m_str@ == uid@,
@fn vmime::net::message::uid::uid ~void (const uid &)~ as uid_copy
@ensures
    res.m_str@ == other.m_str@,
@fn vmime::net::message::uid::operator basic_string as uid_str
@ensures
    res@ == this.m_str@,
@source src/vmime/net/messageSet.cpp
@struct vmime::net::numberMessageRange as NumR
@struct vmime::net::UIDMessageRange as UidR
@struct vmime::net::messageSet as MSet
@field MSet.m_ranges vec:stru:Rng
@type .*messageRange \* = stru:Rng
@type (const )?(vmime::)?(net::)?messageRange( &)? = stru:Rng
@ctor MSet 0 = mset_new
@extern vmime::utility::stringUtils::toString = num_text str val
@method vmime::net::messageRange::clone = rng_clone stru:Rng ref
@rust
// virtual dispatch of messageRange::clone
pub fn rng_clone(r: &Rng) -> (c: Rng) ensures same(c, *r) { match r { Rng::Num(n) => Rng::Num(numr_copy(n)), Rng::Uid(u) => Rng::Uid(uidr_copy(u)) } }
#[verifier::external_body]
pub fn vec_resize_Rng(v: &mut Vec<Rng>, n: usize) ensures final(v).len() == n { unimplemented!() }
// a messageRange is a range of numbers or a range of UIDs
pub enum Rng { Num(NumR), Uid(UidR) }
pub fn clone_Uid(u: &Uid) -> (r: Uid) ensures r.m_str@ == u.m_str@ { Uid { m_str: str_clone(&u.m_str) } }
pub fn Rng_typeid(r: &Rng) -> (n: i32) ensures n == (if r is Num { 1i32 } else { 2i32 }) { match r { Rng::Num(_) => 1, Rng::Uid(_) => 2 } }
pub fn numberMessageRange_is(r: &Rng) -> (b: bool) ensures b == (r is Num) { match r { Rng::Num(_) => true, _ => false } }
pub fn UIDMessageRange_is(r: &Rng) -> (b: bool) ensures b == (r is Uid) { match r { Rng::Uid(_) => true, _ => false } }
pub fn clone_Rng(r: &Rng) -> (c: Rng) ensures same(c, *r) { rng_clone(r) }
pub fn clone_NumR(n: &NumR) -> (r: Rng) ensures r == Rng::Num(*n) { Rng::Num(NumR { m_first: n.m_first, m_last: n.m_last }) }
pub fn clone_UidR(n: &UidR) -> (r: Rng) ensures same(r, Rng::Uid(*n)) { Rng::Uid(UidR { m_first: clone_Uid(&n.m_first), m_last: clone_Uid(&n.m_last) }) }
pub open spec fn same(a: Rng, b: Rng) -> bool { match (a, b) { (Rng::Num(x), Rng::Num(y)) => x == y, (Rng::Uid(x), Rng::Uid(y)) => x.m_first.m_str@ == y.m_first.m_str@ && x.m_last.m_str@ == y.m_last.m_str@, _ => false } }
pub open spec fn sames(a: Seq<Rng>, b: Seq<Rng>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same(#[trigger] a[i], b[i]) }
// a set returned by value is the set that was built (it is moved, or its ranges are cloned)
#[verifier::external_body]
pub fn clone_MSet(p: &MSet) -> (r: MSet) ensures r == *p { unimplemented!() }
#[verifier::external_body]
pub fn num_text(n: u32) -> (r: Vec<u8>) ensures r@ == dec_digits(n as nat) { unimplemented!() }
#[verifier::external_body]
pub fn vec_resize_usize(v: &mut Vec<usize>, n: usize) ensures final(v).len() == n { unimplemented!() }
#[verifier::external_body]
pub fn vec_resize_u32(v: &mut Vec<u32>, n: usize) ensures final(v).len() == n { unimplemented!() }
#[verifier::external_body]
pub fn vec_copy_usize(d: &mut Vec<usize>, o: usize, s: &Vec<usize>, a: usize, b: usize) requires a <= b <= s.len(), o + (b - a) <= old(d).len()
    ensures final(d).len() == old(d).len(), final(d)@ == old(d)@.take(o as int) + s@.subrange(a as int, b as int) + old(d)@.skip(o + (b - a)) { unimplemented!() }
#[verifier::external_body]
pub fn vec_copy_u32(d: &mut Vec<u32>, o: usize, s: &Vec<u32>, a: usize, b: usize) requires a <= b <= s.len(), o + (b - a) <= old(d).len()
    ensures final(d).len() == old(d).len(), final(d)@ == old(d)@.take(o as int) + s@.subrange(a as int, b as int) + old(d)@.skip(o + (b - a)) { unimplemented!() }
// std::sort of a whole vector: sorted, the same values
#[verifier::external_body]
pub fn vec_sort_usize(v: &mut Vec<usize>, a: usize, b: usize) requires a == 0, b == old(v).len()
    ensures final(v).len() == old(v).len(), forall|i: int, j: int| 0 <= i <= j < final(v).len() ==> final(v)@[i] <= final(v)@[j], forall|x: usize| final(v)@.contains(x) == #[trigger] old(v)@.contains(x), forall|x: usize| #[trigger] final(v)@.contains(x) == old(v)@.contains(x) { unimplemented!() }
#[verifier::external_body]
pub fn vec_sort_u32(v: &mut Vec<u32>, a: usize, b: usize) requires a == 0, b == old(v).len()
    ensures final(v).len() == old(v).len(), forall|i: int, j: int| 0 <= i <= j < final(v).len() ==> final(v)@[i] <= final(v)@[j], forall|x: u32| final(v)@.contains(x) == #[trigger] old(v)@.contains(x), forall|x: u32| #[trigger] final(v)@.contains(x) == old(v)@.contains(x) { unimplemented!() }

// ---- what a list of intervals denotes ----
pub struct Iv { pub a: int, pub b: int }
pub open spec fn covers(g: Seq<Iv>, n: int) -> bool { exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).a <= n <= g[i].b }
// in ascending order, never two that touch
pub open spec fn ordered(g: Seq<Iv>) -> bool { forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).a <= g[i].b && (i + 1 < g.len() ==> g[i].b + 1 < g[i + 1].a) }
pub proof fn lemma_covers_push(g: Seq<Iv>, v: Iv, n: int) ensures covers(g.push(v), n) == (covers(g, n) || v.a <= n <= v.b)
{
    let h = g.push(v);
    if covers(g, n) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).a <= n <= g[i].b; assert(h[i] == g[i]); }
    if v.a <= n <= v.b { assert(h[g.len() as int] == v); }
    if covers(h, n) { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).a <= n <= h[i].b; if i < g.len() { assert(g[i] == h[i]); } }
}
pub open spec fn numg(s: Seq<Rng>) -> Seq<Iv> { Seq::new(s.len(), |i: int| match s[i] { Rng::Num(r) => Iv { a: r.m_first as int, b: r.m_last as int }, _ => Iv { a: 1, b: 0 } }) }
pub open spec fn all_num(s: Seq<Rng>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Num }
pub proof fn lemma_numg_push(s: Seq<Rng>, n: NumR) ensures numg(s.push(Rng::Num(n))) == numg(s).push(Iv { a: n.m_first as int, b: n.m_last as int })
{ assert(numg(s.push(Rng::Num(n))) =~= numg(s).push(Iv { a: n.m_first as int, b: n.m_last as int })); }
// the ranges of UIDs that stand for the intervals g
pub open spec fn uidg(s: Seq<Rng>, g: Seq<Iv>) -> bool { s.len() == g.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] g[i]).a >= 0 && g[i].b >= 0 && match s[i] { Rng::Uid(r) => r.m_first.m_str@ == dec_digits(g[i].a as nat) && r.m_last.m_str@ == dec_digits(g[i].b as nat), _ => false } }
pub open spec fn big() -> nat { 4294967294 }
pub open spec fn uid_num(u: Uid) -> bool { all_digits(u.m_str@) && dec_val(u.m_str@) <= big() }
pub open spec fn nul_free(u: Uid) -> bool { forall|i: int| 0 <= i < u.m_str.len() ==> #[trigger] u.m_str@[i] != 0 }
pub open spec fn uids_num(s: Seq<Uid>) -> bool { forall|i: int| 0 <= i < s.len() ==> uid_num(#[trigger] s[i]) }
pub proof fn lemma_dec_mono(s: Seq<u8>, n: int) requires 0 <= n <= s.len() ensures dec_val(s.take(n)) <= dec_val(s) decreases s.len() - n
{
    if n < s.len() { lemma_dec_mono(s, n + 1); assert(s.take(n + 1).drop_last() =~= s.take(n)); } else { assert(s.take(n) =~= s); }
}
// the first n numbers, in increasing order: what has been made of them so far
pub open spec fn upto(s: Seq<int>, n: int, x: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j] == x }
#[verifier::opaque]
pub open spec fn prog(s: Seq<int>, n: int, g: Seq<Iv>, start: int, prev: int) -> bool {
    n > 0 && prev == s[n - 1] && start <= prev && ordered(g) && (g.len() > 0 ==> g.last().b + 1 < start)
    && forall|x: int| #[trigger] upto(s, n, x) == (covers(g, x) || start <= x <= prev)
}
#[verifier::opaque]
pub open spec fn asc(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub proof fn lemma_upto(s: Seq<int>, n: int, x: int) requires 0 <= n < s.len() ensures upto(s, n + 1, x) == (upto(s, n, x) || s[n] == x)
{ if upto(s, n, x) { let j = choose|j: int| 0 <= j < n && #[trigger] s[j] == x; assert(s[j] == x); } }
pub proof fn lemma_prog_first(s: Seq<int>) requires s.len() > 0 ensures prog(s, 1, Seq::empty(), s[0], s[0])
{ reveal(prog); assert forall|x: int| #[trigger] upto(s, 1, x) == (covers(Seq::empty(), x) || s[0] <= x <= s[0]) by { if x == s[0] { assert(s[0] == x); } } }
pub proof fn lemma_prog_next(s: Seq<int>, n: int, g: Seq<Iv>, start: int, prev: int)
    requires prog(s, n, g, start, prev), asc(s), n < s.len()
    ensures s[n] >= prev, s[n] == prev ==> prog(s, n + 1, g, start, prev), s[n] == prev + 1 ==> prog(s, n + 1, g, start, s[n]),
        s[n] > prev + 1 ==> prog(s, n + 1, g.push(Iv { a: start, b: prev }), s[n], s[n]),
        forall|x: int| upto(s, n, x) ==> #[trigger] upto(s, n + 1, x),
{
    reveal(prog); reveal(asc);
    let v = Iv { a: start, b: prev };
    assert(s[n - 1] <= s[n]);
    assert forall|x: int| true implies #[trigger] upto(s, n + 1, x) == (covers(g, x) || start <= x <= prev || x == s[n]) by { lemma_upto(s, n, x); assert(upto(s, n, x) == (covers(g, x) || start <= x <= prev)); }
    assert forall|x: int| true implies #[trigger] covers(g.push(v), x) == (covers(g, x) || start <= x <= prev) by { lemma_covers_push(g, v, x); }
    assert forall|x: int| upto(s, n, x) implies #[trigger] upto(s, n + 1, x) by { lemma_upto(s, n, x); }
    let h = g.push(v);
    if s[n] > prev + 1 {
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).a <= h[i].b && (i + 1 < h.len() ==> h[i].b + 1 < h[i + 1].a) by { if i + 1 < g.len() { assert(h[i] == g[i] && h[i + 1] == g[i + 1]); } else if i < g.len() { assert(g[i] == g.last()); assert(h[i] == g[i]); } }
    }
}
pub proof fn lemma_prog_end(s: Seq<int>, n: int, g: Seq<Iv>, start: int, prev: int)
    requires prog(s, n, g, start, prev)
    ensures ordered(g.push(Iv { a: start, b: prev })), forall|x: int| upto(s, n, x) == #[trigger] covers(g.push(Iv { a: start, b: prev }), x)
{
    reveal(prog);
    let v = Iv { a: start, b: prev }; let h = g.push(v);
    assert forall|x: int| upto(s, n, x) == #[trigger] covers(h, x) by { lemma_covers_push(g, v, x); assert(upto(s, n, x) == (covers(g, x) || start <= x <= prev)); }
    assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).a <= h[i].b && (i + 1 < h.len() ==> h[i].b + 1 < h[i + 1].a) by { if i + 1 < g.len() { assert(h[i] == g[i] && h[i + 1] == g[i + 1]); } else if i < g.len() { assert(g[i] == g.last()); assert(h[i] == g[i]); } }
}
pub proof fn lemma_start(s: Seq<int>, n: int, g: Seq<Iv>, start: int, prev: int, sv: Seq<usize>)
    requires prog(s, n, g, start, prev), n <= s.len(), s == Seq::new(sv.len(), |i: int| sv[i] as int)
    ensures sv.contains(start as usize), 0 <= start <= prev <= usize::MAX, sv.contains(prev as usize)
{
    reveal(prog);
    assert(upto(s, n, start)); let j = choose|j: int| 0 <= j < n && #[trigger] s[j] == start; assert(sv[j] == start as usize); assert(sv[n - 1] == prev as usize);
}
pub proof fn lemma_bounds(g: Seq<Iv>) requires ordered(g), g.len() > 0 ensures forall|x: int| #[trigger] covers(g, x) ==> g[0].a <= x <= g.last().b
{
    assert forall|i: int| 0 <= i < g.len() implies g[0].a <= (#[trigger] g[i]).a && g[i].b <= g.last().b by { lemma_b2(g, i); }
}
pub proof fn lemma_b2(g: Seq<Iv>, i: int) requires ordered(g), 0 <= i < g.len() ensures g[0].a <= g[i].a, g[i].b <= g.last().b decreases g.len()
{
    if g.len() > 1 {
        let h = g.drop_last(); let k = h.len() - 1;
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).a <= h[i].b && (i + 1 < h.len() ==> h[i].b + 1 < h[i + 1].a) by { assert(h[i] == g[i]); if i + 1 < h.len() { assert(h[i + 1] == g[i + 1]); } }
        assert(g[k] == h[k]); assert(g[k].b + 1 < g[k + 1].a); assert(g[k + 1].a <= g[k + 1].b);
        if i < h.len() { lemma_b2(h, i); assert(h[i] == g[i]); } else { lemma_b2(h, k); }
    }
}
pub proof fn lemma_uidg(s: Seq<Rng>, g: Seq<Iv>, a: int, b: int, t: Seq<Rng>)
    requires uidg(s, g), a >= 0, b >= 0, t.len() == s.len() + 1, t.drop_last() == s, t.last() is Uid, t.last()->Uid_0.m_first.m_str@ == dec_digits(a as nat), t.last()->Uid_0.m_last.m_str@ == dec_digits(b as nat)
    ensures uidg(t, g.push(Iv { a, b }))
{
    let h = g.push(Iv { a, b });
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] h[i]).a >= 0 && h[i].b >= 0 && match t[i] { Rng::Uid(r) => r.m_first.m_str@ == dec_digits(h[i].a as nat) && r.m_last.m_str@ == dec_digits(h[i].b as nat), _ => false } by {
        if i < s.len() { assert(h[i] == g[i]); assert(t[i] == t.drop_last()[i]); assert(t[i] == s[i]); } else { assert(t[i] == t.last()); }
    }
}
pub proof fn lemma_nums_end(nn: Seq<usize>, sv: Seq<usize>, si: Seq<int>, re: Seq<Rng>, v: NumR)
    requires forall|x: usize| nn.contains(x) == #[trigger] sv.contains(x), si == Seq::new(sv.len(), |i: int| sv[i] as int),
        prog(si, sv.len() as int, numg(re), v.m_first as int, v.m_last as int), all_num(re), re.len() > 0 ==> numg(re)[0].a >= 1, v.m_first >= 1, v.m_last < usize::MAX
    ensures ({ let f = re.push(Rng::Num(v)); all_num(f) && ordered(numg(f)) && forall|x: usize| #[trigger] nn.contains(x) == covers(numg(f), x as int) }), !nn.contains(0), !nn.contains(usize::MAX)
{
    let f = re.push(Rng::Num(v)); let g = numg(re); let h = numg(f);
    lemma_numg_push(re, v);
    lemma_prog_end(si, sv.len() as int, g, v.m_first as int, v.m_last as int); lemma_bounds(h);
    if re.len() > 0 { assert(h[0] == g[0]); }
    assert forall|x: usize| #[trigger] nn.contains(x) == covers(h, x as int) by {
        assert(upto(si, sv.len() as int, x as int) == covers(h, x as int));
        if sv.contains(x) { let j = choose|j: int| 0 <= j < sv.len() && sv[j] == x; assert(si[j] == x as int); }
        if upto(si, sv.len() as int, x as int) { let j = choose|j: int| 0 <= j < sv.len() && #[trigger] si[j] == x as int; assert(sv[j] == x); }
        assert(nn.contains(x) == sv.contains(x));
    }
    assert(nn.contains(0) == covers(h, 0)); assert(nn.contains(usize::MAX) == covers(h, usize::MAX as int));
}
@fn vmime::net::numberMessageRange::numberMessageRange ~void (const size_t)~ as numr1
@throws
@ensures
    number >= 1 ==> res is Ok && res->Ok_0.m_first == number && res->Ok_0.m_last == number,
    number < 1 ==> res is Err,
@fn vmime::net::numberMessageRange::numberMessageRange ~void (const size_t, const size_t)~ as numr2
@throws
@ensures
    res is Ok <==> 1 <= first < usize::MAX && (last == usize::MAX || first <= last),
    res is Ok ==> res->Ok_0.m_first == first && res->Ok_0.m_last == last,
@fn vmime::net::numberMessageRange::getFirst as num_first
@ensures
    res == this.m_first,
@fn vmime::net::numberMessageRange::getLast as num_last
@ensures
    res == this.m_last,
@fn vmime::net::UIDMessageRange::UIDMessageRange ~void (const message::uid &)~ as uidr1
@ensures
    res.m_first.m_str@ == uid.m_str@, res.m_last.m_str@ == uid.m_str@,
@fn vmime::net::UIDMessageRange::UIDMessageRange ~void (const message::uid &, const message::uid &)~ as uidr2
@ensures
    res.m_first.m_str@ == first.m_str@, res.m_last.m_str@ == last.m_str@,
@fn vmime::net::UIDMessageRange::getFirst as uidr_first
@ensures
    res.m_str@ == this.m_first.m_str@,
@fn vmime::net::UIDMessageRange::getLast as uidr_last
@ensures
    res.m_str@ == this.m_last.m_str@,
@fn vmime::net::messageSet::messageSet ~void ()~ as mset_new
@ensures
    res.m_ranges.len() == 0,
@fn vmime::net::messageSet::empty as mset_empty
@ensures
    res.m_ranges.len() == 0,
@fn vmime::net::messageSet::isNumberSet as mset_isnum
@ensures
    res == (this.m_ranges.len() > 0 && this.m_ranges@[0] is Num),
@fn vmime::net::messageSet::isUIDSet as mset_isuid
@ensures
    res == (this.m_ranges.len() > 0 && this.m_ranges@[0] is Uid),
@fn vmime::net::messageSet::getRangeAt as mset_at
@requires
    i < this.m_ranges.len(),
@ensures
    same(res, this.m_ranges@[i as int]),
@fn vmime::net::messageSet::addRange as mset_add
@throws
@ensures
    res is Ok <==> (old(this).m_ranges.len() > 0 ==> (old(this).m_ranges@[0] is Num) == (range is Num)),
    res is Ok ==> final(this).m_ranges.len() == old(this).m_ranges.len() + 1 && final(this).m_ranges@.drop_last() =~= old(this).m_ranges@ && same(final(this).m_ranges@.last(), *range),
    res is Err ==> final(this).m_ranges@ == old(this).m_ranges@,
@fn vmime::net::messageSet::isEmpty as mset_isempty
@ensures
    res == (this.m_ranges.len() == 0),
@fn vmime::net::messageSet::getRangeCount as mset_count
@ensures
    res == this.m_ranges.len(),
@fn vmime::net::messageSet::byNumber ~(const size_t)~ as by_num1
@throws
@ensures
    res is Ok <==> number >= 1, res is Ok ==> res->Ok_0.m_ranges@ =~= seq![Rng::Num(NumR { m_first: number, m_last: number })],
@fn vmime::net::messageSet::byNumber ~(const size_t, const size_t)~ as by_num2
@throws
@ensures
    res is Ok <==> 1 <= first < usize::MAX && (last == usize::MAX || first <= last),
    res is Ok ==> res->Ok_0.m_ranges@ =~= seq![Rng::Num(NumR { m_first: first, m_last: last })],
@fn vmime::net::messageSet::byNumber ~vector~ as by_nums
@isolate
@throws
@ensures
    res is Ok <==> !numbers@.contains(0) && !numbers@.contains(usize::MAX),
    res is Ok ==> all_num(res->Ok_0.m_ranges@) && ordered(numg(res->Ok_0.m_ranges@)) && forall|x: usize| #[trigger] numbers@.contains(x) == covers(numg(res->Ok_0.m_ranges@), x as int),
@hint after ~vec_copy_usize~
    proof { assert(sortedNumbers@ =~= numbers@); }
@hint loop 1 pre
    let ghost sv = sortedNumbers@; let ghost si = Seq::new(sv.len(), |i: int| sv[i] as int); let ghost nn = numbers@;
    proof {
        assert forall|x: usize| nn.contains(x) == #[trigger] sv.contains(x) by { }
        assert(asc(si)) by { reveal(asc); }
    }
@loop 1 invariant
    sortedNumbers@ == sv, si == Seq::new(sv.len(), |i: int| sv[i] as int), asc(si), it <= sv.len(), numbers@ == nn, sv.len() > 0,
    forall|x: usize| nn.contains(x) == #[trigger] sv.contains(x),
    all_num(set.m_ranges@), it == 0 ==> previous == usize::MAX && rangeStart == usize::MAX && set.m_ranges.len() == 0,
    previous == usize::MAX ==> rangeStart == usize::MAX && set.m_ranges.len() == 0 && (it > 0 ==> sv[0] == usize::MAX),
    previous < usize::MAX ==> prog(si, it as int, numg(set.m_ranges@), rangeStart as int, previous as int),
    previous < usize::MAX ==> (numg(set.m_ranges@).len() > 0 ==> numg(set.m_ranges@)[0].a >= 1),
@loop 1 decreases
    sv.len() - it
@hint loop 1 begin
    let ghost i0 = it as int; let ghost r0 = set.m_ranges@; let ghost p0 = previous; let ghost s0 = rangeStart;
    proof {
        assert(sv[i0] as int == si[i0]); assert(sv.contains(sv[i0])); assert(nn.contains(sv[i0]));
        if i0 > 0 { assert(si[0] <= si[i0]) by { reveal(asc); } }
        if p0 < usize::MAX { lemma_prog_next(si, i0, numg(r0), s0 as int, p0 as int); lemma_start(si, i0, numg(r0), s0 as int, p0 as int, sv); }
        if i0 == 0 { lemma_prog_first(si); assert(numg(r0) =~= Seq::empty()); }
    }
@hint after ~set.m_ranges.push~#1
    proof { let f = set.m_ranges@; lemma_numg_push(f.drop_last(), f.last()->Num_0); assert(f.drop_last() =~= r0); assert(f.drop_last().push(f.last()) =~= f); }
@hint before ~numr2\(~#2
    let ghost re = set.m_ranges@;
    proof {
        if previous < usize::MAX { lemma_start(si, sv.len() as int, numg(re), rangeStart as int, previous as int, sv); assert(nn.contains(rangeStart)); }
        else { assert(sv.contains(sv[0])); assert(nn.contains(usize::MAX)); }
    }
@hint after ~set.m_ranges.push~#2
    proof { let f = set.m_ranges@; assert(f.drop_last() =~= re); assert(f =~= re.push(f.last())); lemma_nums_end(nn, sv, si, re, f.last()->Num_0); }
@fn vmime::net::messageSet::byUID ~(const message::uid &)~ as by_uid1
@ensures
    sames(res.m_ranges@, seq![Rng::Uid(UidR { m_first: *uid, m_last: *uid })]),
@fn vmime::net::messageSet::byUID ~(const message::uid &, const message::uid &)~ as by_uid2
@ensures
    sames(res.m_ranges@, seq![Rng::Uid(UidR { m_first: *first, m_last: *last })]),
@fn vmime::net::messageSet::byUID ~vector~ as by_uids
@requires
    forall|i: int| 0 <= i < uids.len() ==> nul_free(#[trigger] uids@[i]),
@ensures
    uids_num(uids@) ==> exists|g: Seq<Iv>| #[trigger] uidg(res.m_ranges@, g) && ordered(g) && forall|x: int| (exists|i: int| 0 <= i < uids.len() && dec_val(#[trigger] uids@[i].m_str@) == x) == #[trigger] covers(g, x),
    !uids_num(uids@) ==> sames(res.m_ranges@, Seq::new(uids.len() as nat, |i: int| Rng::Uid(UidR { m_first: uids@[i], m_last: uids@[i] }))),
@isolate
@hint start
    proof { if uids.len() == 0 { let g = Seq::<Iv>::empty(); assert(uids_num(uids@)); assert forall|x: int| (exists|i: int| 0 <= i < uids.len() && dec_val(#[trigger] uids@[i].m_str@) == x) == #[trigger] covers(g, x) by { } } }
@hint before ~return~#1
    proof { let g = Seq::<Iv>::empty(); assert(uidg(t1__.m_ranges@, g)); assert(ordered(g)); }
@loop 1 invariant
    i <= n, n == uids.len(), numericUIDs.len() == i, forall|k: int| 0 <= k < uids.len() ==> nul_free(#[trigger] uids@[k]),
    forall|j: int| 0 <= j < i ==> uid_num(#[trigger] uids@[j]) && dec_val(uids@[j].m_str@) == numericUIDs@[j] as int,
@loop 1 decreases
    n - i
@hint loop 2 pre
    let ghost i0 = i as int; let ghost un = uids@[i0];
    proof { assert(uid@.take(0) =~= Seq::empty()); }
@loop 2 invariant
    uid@ == un.m_str@, nul_free(un), p <= uid.len(), all_digits(uid@.take(p as int)), dec_val(uid@.take(p as int)) == numericUID, numericUID as int <= big(),
@loop 2 ensures
    p <= uid.len(), p == uid.len() ==> uid_num(un) && dec_val(un.m_str@) == numericUID as int, p < uid.len() ==> !uid_num(un), p < uid.len() ==> uid@[p as int] != 0, uid@ == un.m_str@,
@loop 2 decreases
    uid.len() - p
@hint loop 2 head
    proof { assert(uid@.take(uid.len() as int) =~= uid@); }
@hint loop 2 begin
    let ghost p0 = p as int; let ghost n0 = numericUID as int;
    proof { assert(uid@.take(uid.len() as int) =~= uid@); if p0 < uid.len() { let w = uid@.take(p0 + 1); assert(w.drop_last() =~= uid@.take(p0)); assert(w.last() == uid@[p0]); if all_digits(un.m_str@) { assert(48 <= un.m_str@[p0] <= 57); lemma_dec_mono(un.m_str@, p0 + 1); } } }
@hint loop 2 end
    proof { assert forall|k: int| 0 <= k < p0 + 1 implies 48 <= #[trigger] uid@.take(p0 + 1)[k] <= 57 by { if k < p0 { assert(uid@.take(p0)[k] == uid@[k]); } } }
@loop 3 invariant
    i <= n, n == uids.len(), sames(set.m_ranges@, Seq::new(i as nat, |i: int| Rng::Uid(UidR { m_first: uids@[i], m_last: uids@[i] }))),
@loop 3 decreases
    n - i
@hint after ~vec_copy_u32~
    proof { assert(sortedUIDs@ =~= numericUIDs@); }
@hint loop 4 pre
    let ghost sv = sortedUIDs@; let ghost si = Seq::new(sv.len(), |i: int| sv[i] as int); let ghost nn = numericUIDs@; let ghost mut g = Seq::<Iv>::empty();
    proof {
        assert(asc(si)) by { reveal(asc); }
        assert forall|k: int| 0 <= k < sv.len() implies #[trigger] sv[k] as int <= big() by { assert(sv.contains(sv[k])); assert(nn.contains(sv[k])); let j = choose|j: int| 0 <= j < nn.len() && nn[j] == sv[k]; assert(uid_num(uids@[j])); }
    }
@loop 4 invariant
    sortedUIDs@ == sv, si == Seq::new(sv.len(), |i: int| sv[i] as int), asc(si), it <= sv.len(), forall|k: int| 0 <= k < sv.len() ==> #[trigger] sv[k] as int <= big(),
    it == 0 ==> previous == u32::MAX && set.m_ranges.len() == 0 && g.len() == 0, it > 0 ==> previous < u32::MAX,
    uidg(set.m_ranges@, g), 
    it > 0 ==> prog(si, it as int, g, rangeStart as int, previous as int),
@loop 4 decreases
    sv.len() - it
@hint loop 4 begin
    let ghost j0 = it as int; let ghost r0 = set.m_ranges@; let ghost p4 = previous; let ghost s0 = rangeStart; let ghost g0 = g;
    proof {
        assert(sv[j0] as int == si[j0]);
        if j0 > 0 { lemma_prog_next(si, j0, g, s0 as int, p4 as int); }
        else { lemma_prog_first(si); assert(g =~= Seq::empty()); }
    }
@hint after ~set.m_ranges.push~#2
    proof { g = g0.push(Iv { a: s0 as int, b: p4 as int }); assert(set.m_ranges@.drop_last() =~= r0); lemma_uidg(r0, g0, s0 as int, p4 as int, set.m_ranges@); }
@hint before ~set.m_ranges.push~#3
    let ghost re = set.m_ranges@;
@hint after ~set.m_ranges.push~#3
    proof {
        let gf = g.push(Iv { a: rangeStart as int, b: previous as int });
        assert(set.m_ranges@.drop_last() =~= re); lemma_uidg(re, g, rangeStart as int, previous as int, set.m_ranges@);
        lemma_prog_end(si, sv.len() as int, g, rangeStart as int, previous as int);
        assert forall|x: int| (exists|i: int| 0 <= i < uids.len() && dec_val(#[trigger] uids@[i].m_str@) == x) == #[trigger] covers(gf, x) by {
            assert(upto(si, sv.len() as int, x) == covers(gf, x));
            if upto(si, sv.len() as int, x) { let j = choose|j: int| 0 <= j < sv.len() && #[trigger] si[j] == x; assert(sv.contains(sv[j])); assert(nn.contains(sv[j])); let k = choose|k: int| 0 <= k < nn.len() && nn[k] == sv[j]; assert(dec_val(uids@[k].m_str@) == x); }
            if exists|i: int| 0 <= i < uids.len() && dec_val(#[trigger] uids@[i].m_str@) == x { let k = choose|k: int| 0 <= k < uids.len() && dec_val(#[trigger] uids@[k].m_str@) == x; assert(nn.contains(nn[k])); assert(sv.contains(nn[k])); let j = choose|j: int| 0 <= j < sv.len() && sv[j] == nn[k]; assert(si[j] == x); }
        }
        assert(uidg(set.m_ranges@, gf));
    }
@fn vmime::net::numberMessageRange::numberMessageRange ~void (const numberMessageRange &)~ as numr_copy
@ensures
    res == *other,
@fn vmime::net::UIDMessageRange::UIDMessageRange ~void (const UIDMessageRange &)~ as uidr_copy
@ensures
    res.m_first.m_str@ == other.m_first.m_str@, res.m_last.m_str@ == other.m_last.m_str@,
@fn vmime::net::messageSet::messageSet ~void (const messageSet &)~ as mset_copy
@ensures
    sames(res.m_ranges@, other.m_ranges@),
@loop 1 invariant
    i <= n, n == other.m_ranges.len(), this.m_ranges.len() == n, forall|k: int| 0 <= k < i ==> same(#[trigger] this.m_ranges@[k], other.m_ranges@[k]),
@loop 1 decreases
    n - i
@fn vmime::net::messageSet::operator= as mset_assign
@ensures
    sames(final(this).m_ranges@, other.m_ranges@),
