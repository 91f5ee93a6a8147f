@unit eolfilters
@use strings streams
@weakinput
@source src/vmime/utility/filteredStream.cpp
@struct vmime::utility::CRLFToLFFilteredOutputStream as ToLF
@struct vmime::utility::LFToCRLFFilteredOutputStream as ToCRLF
@include seqbook.rs
@rust
// ---- CRLF -> LF (state: last byte; a CR is held back until the next byte is known)
pub open spec fn l_emit(p: u8, c: u8) -> Seq<u8> {
    if p == 13 { if c == 10 { seq![10u8] } else if c == 13 { seq![13u8] } else { seq![13u8, c] } } else if c == 13 { e0() } else { seq![c] }
}
pub open spec fn l_st(p: u8, w: Seq<u8>) -> u8 { if w.len() == 0 { p } else { w.last() } }
#[verifier::opaque]
pub open spec fn l_out(p: u8, w: Seq<u8>) -> Seq<u8> decreases w.len() {
    if w.len() == 0 { e0() } else { l_out(p, w.drop_last()) + l_emit(l_st(p, w.drop_last()), w.last()) }
}
pub open spec fn l_flush(p: u8) -> Seq<u8> { if p == 13 { seq![13u8] } else { e0() } }
// what has been sent eagerly from the bytes of this call, or of the call before
pub open spec fn l_eag(p: u8, w: Seq<u8>, i: int) -> Seq<u8> {
    if i == 0 { if p == 13 && w[0] != 10 { seq![13u8] } else { e0() } } else { l_flush(w[i - 1]) }
}
pub proof fn lemma_l1(p: u8, w: Seq<u8>, i: int) requires 0 <= i < w.len()
    ensures l_out(p, w.take(i + 1)) == l_out(p, w.take(i)) + l_emit(l_st(p, w.take(i)), w[i]), l_st(p, w.take(i + 1)) == w[i], w.take(0) == e0(), l_out(p, e0()) == e0(), w.take(w.len() as int) == w,
{ reveal(l_out); assert(w.take(i + 1).drop_last() =~= w.take(i)); assert(w.take(i + 1).last() == w[i]); assert(w.take(0) =~= e0()); assert(w.take(w.len() as int) =~= w); }
pub proof fn lemma_l_run(p: u8, w: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= w.len(), w.len() > 0, forall|k: int| i <= k < j ==> w[k] != 10
    ensures l_out(p, w.take(i)) + l_eag(p, w, i) + w.subrange(i, j) == l_out(p, w.take(j)) + l_eag(p, w, j)
    decreases j - i
{
    if i == j { assert(w.subrange(i, j) =~= e0()); assert(l_out(p, w.take(i)) + l_eag(p, w, i) + e0() =~= l_out(p, w.take(i)) + l_eag(p, w, i)); }
    else {
        lemma_l_run(p, w, i, j - 1);
        lemma_l1(p, w, j - 1);
        assert(w.subrange(i, j) =~= w.subrange(i, j - 1) + seq![w[j - 1]]);
        let x = seq![w[j - 1]]; let o = l_out(p, w.take(j - 1)); let g = l_eag(p, w, j - 1); let q = l_st(p, w.take(j - 1));
        assert(q == (if j == 1 { p } else { w[j - 2] }));
        assert(l_out(p, w.take(i)) + l_eag(p, w, i) + (w.subrange(i, j - 1) + x) =~= (l_out(p, w.take(i)) + l_eag(p, w, i) + w.subrange(i, j - 1)) + x);
        assert(g + x =~= l_emit(q, w[j - 1]) + l_eag(p, w, j));
        assert((o + g) + x =~= o + (g + x));
        assert((o + l_emit(q, w[j - 1])) + l_eag(p, w, j) =~= o + (l_emit(q, w[j - 1]) + l_eag(p, w, j)));
    }
}
pub proof fn lemma_l_split(p: u8, a: Seq<u8>, b: Seq<u8>)
    ensures l_st(p, a + b) == l_st(l_st(p, a), b), l_out(p, a + b) == l_out(p, a) + l_out(l_st(p, a), b) decreases b.len()
{
    reveal(l_out);
    if b.len() == 0 { assert(a + b =~= a); assert(l_out(p, a) + e0() =~= l_out(p, a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_l_split(p, a, b.drop_last());
        let e = l_emit(l_st(p, a + b.drop_last()), b.last());
        assert((l_out(p, a) + l_out(l_st(p, a), b.drop_last())) + e =~= l_out(p, a) + (l_out(l_st(p, a), b.drop_last()) + e));
    }
}
// the meaning: every CRLF becomes LF, everything else is unchanged
pub open spec fn crlf2lf(w: Seq<u8>) -> Seq<u8> decreases w.len() {
    if w.len() == 0 { e0() }
    else if w.last() == 10 && w.len() >= 2 && w[w.len() - 2] == 13 { crlf2lf(w.subrange(0, w.len() - 2)).push(10) }
    else { crlf2lf(w.drop_last()).push(w.last()) }
}
// PROPERTY (C06)
pub proof fn property_crlf2lf(w: Seq<u8>)
    ensures l_out(0, w) + l_flush(l_st(0, w)) == crlf2lf(w), w.len() > 0 && w.last() == 13 ==> crlf2lf(w).len() > 0 && crlf2lf(w).last() == 13 && l_out(0, w) == crlf2lf(w.drop_last())
    decreases w.len()
{
    reveal(l_out);
    if w.len() == 0 { assert(l_out(0, w) + l_flush(0) =~= e0()); }
    else {
        let a = w.drop_last(); let c = w.last();
        property_crlf2lf(a);
        if a.len() > 0 { assert(a.last() == w[w.len() - 2]); }
        if a.len() > 0 && a.last() == 13 && c == 10 { assert(a.drop_last() =~= w.subrange(0, w.len() - 2)); assert(l_out(0, w) + l_flush(10) =~= crlf2lf(w)); }
        else { assert(l_out(0, w) + l_flush(c) =~= crlf2lf(a).push(c)); if c == 13 { assert(l_out(0, w) =~= crlf2lf(a)); } }
    }
}

// ---- LF, CR, CRLF -> CRLF
pub open spec fn c_emit(p: u8, c: u8) -> Seq<u8> { if c == 13 { seq![13u8, 10u8] } else if c == 10 { if p == 13 { e0() } else { seq![13u8, 10u8] } } else { seq![c] } }
#[verifier::opaque]
pub open spec fn c_out(p: u8, w: Seq<u8>) -> Seq<u8> decreases w.len() {
    if w.len() == 0 { e0() } else { c_out(p, w.drop_last()) + c_emit(l_st(p, w.drop_last()), w.last()) }
}
pub proof fn lemma_c1(p: u8, w: Seq<u8>, i: int) requires 0 <= i < w.len()
    ensures c_out(p, w.take(i + 1)) == c_out(p, w.take(i)) + c_emit(l_st(p, w.take(i)), w[i]), c_out(p, w.take(i + 1)).len() <= c_out(p, w.take(i)).len() + 2
{ reveal(c_out); assert(w.take(i + 1).drop_last() =~= w.take(i)); assert(w.take(i + 1).last() == w[i]); }
pub proof fn lemma_c_split(p: u8, a: Seq<u8>, b: Seq<u8>)
    ensures l_st(p, a + b) == l_st(l_st(p, a), b), c_out(p, a + b) == c_out(p, a) + c_out(l_st(p, a), b) decreases b.len()
{
    reveal(c_out);
    if b.len() == 0 { assert(a + b =~= a); assert(c_out(p, a) + e0() =~= c_out(p, a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_c_split(p, a, b.drop_last());
        let e = c_emit(l_st(p, a + b.drop_last()), b.last());
        assert((c_out(p, a) + c_out(l_st(p, a), b.drop_last())) + e =~= c_out(p, a) + (c_out(l_st(p, a), b.drop_last()) + e));
    }
}
// PROPERTY (C06): the result has no bare CR and no bare LF ...
pub open spec fn pure_crlf(t: Seq<u8>) -> bool { forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k] == 10 ==> k > 0 && t[k - 1] == 13) && (t[k] == 13 ==> k + 1 < t.len() && t[k + 1] == 10) }
pub proof fn property_pure_crlf(p: u8, w: Seq<u8>) ensures pure_crlf(c_out(p, w)) decreases w.len()
{
    reveal(c_out);
    if w.len() > 0 {
        property_pure_crlf(p, w.drop_last());
        let t = c_out(p, w.drop_last()); let e = c_emit(l_st(p, w.drop_last()), w.last()); let u = t + e;
        assert forall|k: int| 0 <= k < u.len() implies (#[trigger] u[k] == 10 ==> k > 0 && u[k - 1] == 13) && (u[k] == 13 ==> k + 1 < u.len() && u[k + 1] == 10) by {
            if k < t.len() { assert(t[k] == u[k]); } else { assert(u[k] == e[k - t.len()]); }
        }
    }
}
// ... text already in canonical form is not changed ...
pub proof fn property_crlf_idem(w: Seq<u8>) requires pure_crlf(w) ensures c_out(0, w) == w
{ lemma_idem(w, w.len() as int); assert(w.take(w.len() as int) =~= w); }
pub proof fn lemma_idem(w: Seq<u8>, i: int) requires pure_crlf(w), 0 <= i <= w.len()
    ensures c_out(0, w.take(i)) == (if i > 0 && w[i - 1] == 13 { w.take(i).push(10) } else { w.take(i) }) decreases i
{
    if i > 0 { lemma_idem(w, i - 1); lemma_c1(0, w, i - 1); if i > 1 { assert(w[i - 2] == 13 ==> w[i - 1] == 10); } assert(w[i - 1] == 10 ==> i > 1 && w[i - 2] == 13);
        assert(c_out(0, w.take(i)) =~= (if w[i - 1] == 13 { w.take(i).push(10) } else { w.take(i) })); }
    else { reveal(c_out); assert(w.take(0) =~= e0()); }
}
// ... and going to LF and back is the identity for text with LF line ends only
pub proof fn property_lf_roundtrip(w: Seq<u8>) requires forall|k: int| 0 <= k < w.len() ==> w[k] != 13 ensures crlf2lf(c_out(0, w)) == w
    decreases w.len()
{
    reveal(c_out);
    if w.len() > 0 {
        let a = w.drop_last(); let c = w.last();
        assert forall|k: int| 0 <= k < a.len() implies a[k] != 13 by { assert(w[k] != 13); }
        property_lf_roundtrip(a);
        let t = c_out(0, a); let u = c_out(0, w);
        property_pure_crlf(0, a);
        assert(w[w.len() - 1] != 13);
        assert(a.push(c) =~= w);
        assert(t.len() > 0 ==> t.last() != 13) by { if t.len() > 0 { assert(t[t.len() - 1] == t.last()); } }
        if c == 10 {
            assert(l_st(0, a) != 13) by { if a.len() > 0 { assert(a[a.len() - 1] != 13); } }
            assert(u =~= t.push(13).push(10)); assert(u.subrange(0, u.len() - 2) =~= t); }
        else { assert(u =~= t.push(c)); assert(u.drop_last() =~= t); }
    }
}

@rust
pub proof fn lemma_lfcase(o0: Seq<u8>, b1: Seq<u8>, o1: Seq<u8>, s0: Seq<u8>, t1: Seq<u8>, g: Seq<u8>, cc: Seq<u8>)
    requires o0 + (b1 + g) == s0 + (t1 + g), g.len() <= 1, o1 == (o0 + b1) + cc
    ensures o1 == s0 + (t1 + cc)
{
    if g.len() == 1 { assert(g =~= seq![g[0]]); lemma_cut1(o0, b1, g[0], s0, t1); } else { assert(g =~= e0()); lemma_nil(b1); lemma_nil(t1); }
    assert((s0 + t1) + cc =~= s0 + (t1 + cc));
}
@fn vmime::utility::CRLFToLFFilteredOutputStream::writeImpl as tolf_write
@isolate
@requires
    data_o + count <= data.len(), data.len() < 0x1000_0000_0000_0000,
@ensures
    ({ let w = data@.subrange(data_o as int, data_o + count); let p = old(this).m_previousChar;
       &&& final(this).m_stream.data() == old(this).m_stream.data() + l_out(p, w)
       &&& final(this).m_previousChar == l_st(p, w) }),
@hint start
    let ghost p = this.m_previousChar; let ghost w = data@.subrange(data_o as int, data_o + count); let ghost s0 = this.m_stream.data();
    proof { lemma_nil(s0); if count > 0 { lemma_l1(p, w, 0); } else { reveal(l_out); assert(w =~= e0()); } }
@hint loop 1 pre
    proof {
        lemma_sub(data@, start as int, start as int, start as int); lemma_nil(this.m_stream.data());
        assert(w[0] == data@[data_o as int]); lemma_nil(l_eag(p, w, 0));
        assert(this.m_stream.data() =~= s0 + l_eag(p, w, 0));
    }
@loop 1 invariant
    data_o + count <= data.len(), data.len() < 0x1000_0000_0000_0000,
    w == data@.subrange(data_o as int, data_o + count), count > 0, w.len() == count,
    this.m_previousChar == (if p == 13 && w[0] != 10 { w[0] } else { p }),
    data_o <= start <= pos <= end, end == data_o + count, start > data_o ==> data@[start - 1] == 10,
    this.m_stream.data() + data@.subrange(start as int, pos as int) == s0 + (l_out(p, w.take(pos - data_o)) + l_eag(p, w, pos - data_o)),
@loop 1 ensures
    this.m_stream.data() + data@.subrange(start as int, end as int) == s0 + (l_out(p, w) + l_flush(w[count - 1])),
@loop 1 decreases
    end - pos
@hint before ~let t2__: usize = buf_find~
    let ghost p0 = pos; let ghost o0 = this.m_stream.data();
@hint after ~^pos = t2__~
    let ghost i0 = p0 - data_o; let ghost i1 = pos - data_o;
    let ghost t1 = l_out(p, w.take(i1)); let ghost bs = data@.subrange(start as int, pos as int); let ghost g1 = l_eag(p, w, i1); let ghost st1 = start;
    proof {
        lemma_sub2(data@, data_o as int, count as int, i0, i1);
        assert forall|k: int| i0 <= k < i1 implies w[k] != 10 by { assert(w[k] == data@[data_o + k]); }
        lemma_l_run(p, w, i0, i1);
        lemma_sub(data@, start as int, p0 as int, pos as int);
        lemma_ext(o0, data@.subrange(start as int, p0 as int), w.subrange(i0, i1), s0, l_out(p, w.take(i0)) + l_eag(p, w, i0), t1 + g1);
        lemma_l1(p, w, 0);
    }
@hint before ~^let mut previousChar~
    proof {
        assert(w[i1] == data@[pos as int]); if i1 > 0 { assert(w[i1 - 1] == data@[pos - 1]); }
        lemma_l1(p, w, i1);
        assert(l_st(p, w.take(i1)) == (if i1 == 0 { p } else { w[i1 - 1] })) by { if i1 > 0 { lemma_l1(p, w, i1 - 1); } }
    }
@hint after ~^pos = pos \+ 1usize~
    proof {
        let q = l_st(p, w.take(i1)); let cc = l_emit(q, 10u8);
        assert(l_eag(p, w, i1 + 1) == e0());
        lemma_nil(t1 + cc);
        if start == pos {
            lemma_sub(data@, start as int, pos as int, pos as int); lemma_nil(this.m_stream.data());
            assert(cc == seq![10u8]);
            if st1 != pos - 1 {
                let b1 = data@.subrange(st1 as int, pos - 2);
                lemma_sub1(data@, st1 as int, pos - 2);
                assert(g1 == seq![13u8]);
                assert(this.m_stream.data() =~= (o0 + b1) + cc);
                lemma_lfcase(o0, b1, this.m_stream.data(), s0, t1, g1, cc);
            } else {
                assert(i1 == 0); assert(g1 == e0());
                lemma_sub(data@, st1 as int, st1 as int, st1 as int);
                lemma_nil(e0()); lemma_nil(o0);
                assert(this.m_stream.data() =~= (o0 + e0()) + cc);
                lemma_lfcase(o0, e0(), this.m_stream.data(), s0, t1, g1, cc);
            }
        }
        else {
            lemma_sub1(data@, start as int, pos - 1);
            assert(g1 == e0()); lemma_nil(t1); assert(cc == seq![10u8]);
            lemma_ext(o0, bs, seq![10u8], s0, t1 + g1, (t1 + cc) + e0());
        }
    }
@hint before `if ((data[(data_o + usub_usize(count, 1usize))] as i32) == 13i32)`
    let ghost o1 = this.m_stream.data(); let ghost bs = data@.subrange(start as int, end as int); let ghost tt = l_out(p, w);
    proof {
        assert(w[count - 1] == data@[data_o + count - 1]);
        if w[count - 1] == 13 {
            assert(start < end);
            lemma_sub1(data@, start as int, end - 1);
            lemma_cut1(o1, data@.subrange(start as int, end - 1), 13u8, s0, tt);
        } else { lemma_nil(tt); }
    }

@fn vmime::utility::CRLFToLFFilteredOutputStream::flush as tolf_flush
@ensures
    final(this).m_stream.data() == old(this).m_stream.data() + l_flush(old(this).m_previousChar), final(this).m_previousChar == (if old(this).m_previousChar == 13 { 0 } else { old(this).m_previousChar }),
@hint end
    assert(this.m_stream.data() =~= old(this).m_stream.data() + l_flush(old(this).m_previousChar));

@fn vmime::utility::LFToCRLFFilteredOutputStream::writeImpl as tocrlf_write
@requires
    data_o + count <= data.len(), data.len() < 0x1000_0000_0000_0000,
@ensures
    ({ let w = data@.subrange(data_o as int, data_o + count); let p = old(this).m_previousChar;
       &&& final(this).m_stream.data() == old(this).m_stream.data() + c_out(p, w)
       &&& final(this).m_previousChar == l_st(p, w) }),
@hint start
    let ghost p = this.m_previousChar; let ghost w = data@.subrange(data_o as int, data_o + count); let ghost s0 = this.m_stream.data();
    proof { reveal(c_out); assert(s0 + e0() =~= s0); assert(w.take(0) =~= e0()); assert(w.take(w.len() as int) =~= w); }
@loop 1 invariant
    p == old(this).m_previousChar, w == data@.subrange(data_o as int, data_o + count), count > 0, data_o <= pos <= end, end == data_o + count,
    buffer@ == c_out(p, w.take(pos - data_o)), previousChar == l_st(p, w.take(pos - data_o)),
@loop 1 decreases
    end - pos
@hint loop 1 begin
    proof { lemma_c1(p, w, pos - data_o); assert(w[pos - data_o] == data@[pos as int]); }
    let ghost b0 = buffer@;
    assert(sfill(1, 13u8) =~= seq![13u8]); assert(sfill(1, 10u8) =~= seq![10u8]); assert(sfill(1, data@[pos as int]) =~= seq![data@[pos as int]]);
@hint loop 1 end
    assert(buffer@ =~= b0 + c_emit(l_st(p, w.take(pos - data_o - 1)), w[pos - data_o - 1]));
    assert(w.take(pos - data_o).last() == w[pos - data_o - 1]);
@hint before ~m_stream.write~
    assert(buffer@.subrange(0, buffer.len() as int) =~= buffer@);

