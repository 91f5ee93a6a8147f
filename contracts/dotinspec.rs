// ---- removal of the doubled dot on input (POP3)
pub struct IS { pub p2: u8, pub p1: u8 }
pub open spec fn i_drop(s: IS, c: u8) -> bool { c == 46 && s.p2 == 10 && s.p1 == 46 }
pub open spec fn i_next(s: IS, c: u8) -> IS { if i_drop(s, c) { IS { p2: 0, p1: 46 } } else { IS { p2: s.p1, p1: c } } }
#[verifier::opaque]
pub open spec fn i_st(s: IS, w: Seq<u8>) -> IS decreases w.len() { if w.len() == 0 { s } else { i_next(i_st(s, w.drop_last()), w.last()) } }
#[verifier::opaque]
pub open spec fn i_out(s: IS, w: Seq<u8>) -> Seq<u8> decreases w.len() {
    if w.len() == 0 { e0() } else if i_drop(i_st(s, w.drop_last()), w.last()) { i_out(s, w.drop_last()) } else { i_out(s, w.drop_last()).push(w.last()) }
}
pub proof fn lemma_i1(s: IS, w: Seq<u8>, i: int) requires 0 <= i < w.len()
    ensures i_st(s, w.take(i + 1)) == i_next(i_st(s, w.take(i)), w[i]), i_out(s, w.take(i + 1)) == (if i_drop(i_st(s, w.take(i)), w[i]) { i_out(s, w.take(i)) } else { i_out(s, w.take(i)).push(w[i]) })
{ reveal(i_st); reveal(i_out); assert(w.take(i + 1).drop_last() =~= w.take(i)); assert(w.take(i + 1).last() == w[i]); }
pub proof fn lemma_i0(s: IS, w: Seq<u8>) ensures w.take(0) == e0(), i_st(s, e0()) == s, i_out(s, e0()) == e0(), w.take(w.len() as int) == w
{ reveal(i_st); reveal(i_out); assert(w.take(0) =~= e0()); assert(w.take(w.len() as int) =~= w); }
pub proof fn lemma_i_split(s: IS, a: Seq<u8>, b: Seq<u8>)
    ensures i_st(s, a + b) == i_st(i_st(s, a), b), i_out(s, a + b) == i_out(s, a) + i_out(i_st(s, a), b) decreases b.len()
{
    reveal(i_st); reveal(i_out);
    if b.len() == 0 { assert(a + b =~= a); assert(i_out(s, a) + e0() =~= i_out(s, a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_i_split(s, a, b.drop_last());
        let x = i_out(s, a); let y = i_out(i_st(s, a), b.drop_last());
        assert((x + y).push(b.last()) =~= x + y.push(b.last()));
    }
}
// what a POP3 server sends: a dot is put before every dot that follows a line feed
pub open spec fn pop_stuff(w: Seq<u8>) -> Seq<u8> decreases w.len() {
    if w.len() == 0 { e0() } else if w.last() == 46 && w.len() >= 2 && w[w.len() - 2] == 10 { pop_stuff(w.drop_last()) + seq![46u8, 46u8] } else { pop_stuff(w.drop_last()).push(w.last()) }
}
// PROPERTY (C07): undoing it gives the message, however the reads are cut (lemma_i_split)
pub proof fn property_unstuff(w: Seq<u8>)
    ensures ({ let z = IS { p2: 0, p1: 0 }; let t = pop_stuff(w);
        &&& i_out(z, t) == w
        &&& w.len() > 0 ==> i_st(z, t).p1 == w.last()
        &&& (i_st(z, t).p2 == 10 && i_st(z, t).p1 == 46) == false })
    decreases w.len()
{
    reveal(i_st); reveal(i_out);
    let z = IS { p2: 0, p1: 0 };
    if w.len() > 0 {
        let a = w.drop_last(); let c = w.last(); let ta = pop_stuff(a); let t = pop_stuff(w);
        property_unstuff(a);
        assert(a.push(c) =~= w);
        if a.len() > 0 { assert(a.last() == w[w.len() - 2]); }
        if c == 46 && a.len() > 0 && a.last() == 10 {
            assert(t =~= ta.push(46).push(46));
            assert(t.drop_last() =~= ta.push(46)); assert(ta.push(46).drop_last() =~= ta);
            assert(i_out(z, ta.push(46)) =~= w);
        } else {
            assert(t.drop_last() =~= ta);
            if a.len() == 0 { assert(ta =~= e0()); }
        }
    }
}

