pub open spec fn e0() -> Seq<u8> { Seq::<u8>::empty() }
// sequence bookkeeping
pub proof fn lemma_ext(o: Seq<u8>, b: Seq<u8>, c: Seq<u8>, s: Seq<u8>, x: Seq<u8>, z: Seq<u8>)
    requires o + b == s + x, x + c == z ensures o + (b + c) == s + z
{ assert(o + (b + c) =~= (o + b) + c); assert(s + (x + c) =~= (s + x) + c); }
pub proof fn lemma_cut1(o: Seq<u8>, b: Seq<u8>, c: u8, s: Seq<u8>, x: Seq<u8>)
    requires o + (b + seq![c]) == s + (x + seq![c]) ensures o + b == s + x
{ let l = o + (b + seq![c]); let r = s + (x + seq![c]); assert(l.drop_last() =~= o + b); assert(r.drop_last() =~= s + x); }
pub proof fn lemma_nil(a: Seq<u8>) ensures a + e0() == a, e0() + a == a { assert(a + e0() =~= a); assert(e0() + a =~= a); }
pub proof fn lemma_sub(d: Seq<u8>, a: int, b: int, c: int) requires 0 <= a <= b <= c <= d.len() ensures d.subrange(a, c) == d.subrange(a, b) + d.subrange(b, c), d.subrange(a, a) == e0()
{ assert(d.subrange(a, c) =~= d.subrange(a, b) + d.subrange(b, c)); assert(d.subrange(a, a) =~= e0()); }
pub proof fn lemma_sub1(d: Seq<u8>, a: int, b: int) requires 0 <= a <= b < d.len() ensures d.subrange(a, b + 1) == d.subrange(a, b) + seq![d[b]]
{ assert(d.subrange(a, b + 1) =~= d.subrange(a, b) + seq![d[b]]); }
pub proof fn lemma_sub2(d: Seq<u8>, o: int, n: int, i: int, j: int) requires 0 <= i <= j <= n, 0 <= o, o + n <= d.len()
    ensures d.subrange(o, o + n).subrange(i, j) == d.subrange(o + i, o + j), forall|k: int| i <= k < j ==> #[trigger] d.subrange(o, o + n)[k] == d[o + k]
{ assert(d.subrange(o, o + n).subrange(i, j) =~= d.subrange(o + i, o + j)); }
