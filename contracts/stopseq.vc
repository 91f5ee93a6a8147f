@unit stopseq
@use strings streams
@weakinput
@rlimit 40
@source src/vmime/net/pop3/POP3Response.cpp
@rust
pub proof fn lemma_done5(d: Seq<u8>, dl: Seq<u8>, b: Seq<u8>, o: int, r: int, n: int)
    requires 0 <= n, n == dl.len(), r >= 0, n + r <= d.len(), dl == d.take(n), 0 <= o, o + r <= b.len(), forall|k: int| 0 <= k < r ==> #[trigger] b[o + k] == d[n + k]
    ensures dl + b.subrange(o, o + r) == d.take(n + r), (dl + b.subrange(o, o + r)).len() == n + r
{ assert forall|k: int| 0 <= k < r implies #[trigger] b.subrange(o, o + r)[k] == d[n + k] by { assert(b[o + k] == d[n + k]); } assert(dl + b.subrange(o, o + r) =~= d.take(n + r)); }
@rust
pub proof fn lemma_done3(d: Seq<u8>, dl: Seq<u8>, b: Seq<u8>, o: int, r: int, n: int)
    requires 0 <= n, n == dl.len(), r >= 0, n + r <= d.len(), dl == d.take(n), 0 <= o, o + r <= b.len(), forall|k: int| 0 <= k < r ==> #[trigger] b[o + k] == d[n + k]
    ensures dl + b.subrange(o, o + r) == d.take(n + r), (dl + b.subrange(o, o + r)).len() == n + r
{ assert forall|k: int| 0 <= k < r implies #[trigger] b.subrange(o, o + r)[k] == d[n + k] by { assert(b[o + k] == d[n + k]); } assert(dl + b.subrange(o, o + r) =~= d.take(n + r)); }

@struct vmime::utility::stopSequenceFilteredInputStream<5> as Stop5
@field Stop5.m_sequence ptr:u8 this.seqbuf zt
@extrafield Stop5.seqbuf str
@rust
pub open spec fn seq5() -> Seq<u8> { seq![13u8, 10u8, 46u8, 13u8, 10u8] }
pub open spec fn occ5(d: Seq<u8>, p: int) -> bool { 0 <= p && p + 5 <= d.len() && d[p] == 13 && d[p + 1] == 10 && d[p + 2] == 46 && d[p + 3] == 13 && d[p + 4] == 10 }
// state of the filter after it has delivered dl: everything before the stop sequence, nothing of it, never a byte lost
pub open spec fn inv5(t: &Stop5, dl: Seq<u8>) -> bool {
    let d = t.m_stream.data(); let q = t.m_stream.pos(); let n = dl.len() as int;
    &&& t.seqbuf@ == seq5() && t.m_sequence == 0 && t.m_stream.wf() && t.m_found <= 5
    &&& n <= d.len() && dl == d.take(n)
    &&& forall|p: int| 0 <= p < n ==> !#[trigger] occ5(d, p)
    &&& if t.m_found == 5 { n + 5 <= q && occ5(d, n) }
        else if t.m_eof { t.m_found == 0 && q == d.len() && n == d.len() }
        else { n + t.m_found == q && forall|k: int| 0 <= k < t.m_found ==> #[trigger] d[n + k] == seq5()[k] }
}
// PROPERTY (C07): once the filter is at its end, what it delivered is the text before the first stop sequence, or all of it
pub proof fn property_stop5(t: &Stop5, dl: Seq<u8>)
    requires inv5(t, dl), t.m_found == 5 || t.m_eof
    ensures dl == t.m_stream.data().take(dl.len() as int), forall|p: int| 0 <= p < dl.len() ==> !#[trigger] occ5(t.m_stream.data(), p),
        dl == t.m_stream.data() || occ5(t.m_stream.data(), dl.len() as int),
{ let d = t.m_stream.data(); if t.m_found != 5 { assert(d.take(d.len() as int) =~= d); } }
// a mismatch after m characters: no occurrence can start inside what was matched
pub proof fn lemma_mis5(d: Seq<u8>, a: int, m: int, x: u8)
    requires 0 <= a, 1 <= m < 5, a + m < d.len(), forall|k: int| 0 <= k < m ==> #[trigger] d[a + k] == seq5()[k], d[a + m] == x, x != seq5()[m]
    ensures forall|p: int| a <= p < a + m ==> !#[trigger] occ5(d, p)
{
    assert forall|p: int| a <= p < a + m implies !#[trigger] occ5(d, p) by {
        let j = p - a; assert(d[a + j] == seq5()[j]); assert(d[a + 0] == seq5()[0]);
        if occ5(d, p) {
            if j + 1 < m { assert(d[a + (j + 1)] == seq5()[j + 1]); }
            if m > 1 { assert(d[a + 1] == seq5()[1]); }
            if m > 2 { assert(d[a + 2] == seq5()[2]); }
            if m > 3 { assert(d[a + 3] == seq5()[3]); }
        }
    }
}
@fn vmime::utility::stopSequenceFilteredInputStream<5>::read as stop5_read
@isolate
@extraparam Ghost(dl): Ghost<Seq<u8>>
@requires
    inv5(old(this), dl), data_o + count <= old(data).len(), old(data).len() < 0x1000_0000_0000_0000,
@ensures
    res <= count, final(data).len() == old(data).len(), final(this).m_stream.data() == old(this).m_stream.data(),
    inv5(final(this), dl + final(data)@.subrange(data_o as int, data_o + res)),
    old(this).m_stream.pos() <= final(this).m_stream.pos(),
@hint start
    let ghost d = this.m_stream.data(); let ghost q0 = this.m_stream.pos(); let ghost gn = dl.len() as int; let ghost h = this.m_found as int;
    proof { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl); }
@loop 1 invariant
    this.seqbuf@ == seq5(), this.m_sequence == 0, found < 5, data_o + 5 < data.len(), data.len() == old(data).len(), data.len() < 0x1000_0000_0000_0000,
    inv5(this, dl), this.m_found == found, d == this.m_stream.data(), d == old(this).m_stream.data(), q0 == this.m_stream.pos(), q0 == d.len(), gn == dl.len(), !this.m_eof, q0 == old(this).m_stream.pos(),
    f <= found, forall|k: int| 0 <= k < f ==> #[trigger] data@[data_o + k] == seq5()[k],
@loop 1 decreases
    found - f
@hint before ~^return found~
    proof {
        let x = data@.subrange(data_o as int, data_o + found);
        assert forall|k: int| 0 <= k < found implies d[gn + k] == #[trigger] x[k] by { assert(x[k] == data@[data_o + k]); }
        assert(dl + x =~= d.take(d.len() as int));
        assert forall|p: int| 0 <= p < d.len() implies !#[trigger] occ5(d, p) by { if p >= gn { assert(p + 5 > d.len()); } }
    }
@hint before ~^return 0usize~ #1
    proof { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl); }
@hint before ~^return 0usize~ #2
    proof { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl); assert(d.take(d.len() as int) =~= d); }
@hint loop 2 pre
    let ghost q = this.m_stream.pos();
    proof { if h == 0 { assert forall|k: int| 0 <= k < read implies #[trigger] data@[data_o + k] == d[gn + k] by { } } }
@loop 2 invariant
    this.m_found != 0 ==> pos == data_o && this.m_found == h && q == q0 + read && (forall|k: int| 0 <= k < read ==> #[trigger] data@[data_o + k] == d[q0 + k]),
    this.m_found == 0 ==> gn + read == q && (forall|k: int| 0 <= k < read ==> #[trigger] data@[data_o + k] == d[gn + k]) && (forall|p: int| 0 <= p < gn + (pos - data_o) ==> !#[trigger] occ5(d, p)),
@loop 2 invariant
    this.seqbuf@ == seq5(), this.m_sequence == 0, this.m_stream.wf(), this.m_stream.data() == d, this.m_stream.pos() == q, d == old(this).m_stream.data(), q0 == old(this).m_stream.pos(), q0 <= q <= d.len(),
    !this.m_eof, gn == dl.len(), 0 <= gn <= d.len(), dl == d.take(gn), gn + h == q0, h < 5, (forall|k: int| 0 <= k < h ==> #[trigger] d[gn + k] == seq5()[k]), (forall|p: int| 0 <= p < gn ==> !#[trigger] occ5(d, p)),
    data.len() == old(data).len(), data.len() < 0x1000_0000_0000_0000, data_o + count <= data.len(), count > 5, read <= count, this.m_found != 0 ==> read <= count - 5,
    data_o <= pos <= end, end == data_o + read, this.m_found < 5,
@loop 2 decreases
    (if this.m_found != 0 { 1int } else { 0int }), end - pos
@loop 3 ensures
    pos >= end,
@loop 3 invariant
    this.m_found == 0, gn + read == q, (forall|k: int| 0 <= k < read ==> #[trigger] data@[data_o + k] == d[gn + k]), (forall|p: int| 0 <= p < gn + (pos - data_o) ==> !#[trigger] occ5(d, p)),
@loop 3 invariant
    this.seqbuf@ == seq5(), this.m_sequence == 0, this.m_stream.wf(), this.m_stream.data() == d, this.m_stream.pos() == q, d == old(this).m_stream.data(), q0 == old(this).m_stream.pos(), q0 <= q <= d.len(),
    !this.m_eof, gn == dl.len(), 0 <= gn <= d.len(), dl == d.take(gn),
    data.len() == old(data).len(), data.len() < 0x1000_0000_0000_0000, data_o + count <= data.len(), read <= count,
    data_o <= pos <= end, end == data_o + read, this.m_found == 0,
@loop 3 decreases
    end - pos
@hint loop 3 begin
    let ghost p3 = pos;
@hint before ~^return read~ #1
    proof {
        lemma_done5(d, dl, data@, data_o as int, read as int, gn);
        assert forall|p: int| 0 <= p < gn + read implies !#[trigger] occ5(d, p) by { if p >= gn + (p3 - data_o) { assert(data@[data_o + (p - gn)] == d[gn + (p - gn)]); } }
    }
@hint after ~^pos = t\d+__~
    let ghost s3 = pos - data_o;
    proof { assert forall|p: int| 0 <= p < gn + s3 implies !#[trigger] occ5(d, p) by { if p >= gn + (p3 - data_o) { assert(data@[data_o + (p - gn)] == d[gn + (p - gn)]); } } }
@loop 4 invariant
    this.seqbuf@ == seq5(), this.m_sequence == 0, this.m_stream.wf(), this.m_stream.data() == d, this.m_stream.pos() == q, !this.m_eof, gn + read == q, q <= d.len(), gn >= 0,
    data.len() < 0x1000_0000_0000_0000, end <= data.len(), data_o <= pos <= end, end == data_o + read, 1 <= this.m_found <= 5, s3 >= 0, pos - data_o == s3 + this.m_found,
    (forall|k: int| 0 <= k < read ==> #[trigger] data@[data_o + k] == d[gn + k]), (forall|k: int| 0 <= k < this.m_found ==> #[trigger] d[gn + s3 + k] == seq5()[k]),
@loop 4 ensures
    pos >= end || this.m_found >= 5 || seq5()[this.m_found as int] != data@[pos as int],
@loop 4 decreases
    end - pos
@hint loop 4 pre
    proof { assert(data@[data_o + s3] == d[gn + s3]); }
@hint loop 4 begin
    proof { assert(data@[data_o + (pos - data_o)] == d[gn + (pos - data_o)]); }
@hint before ~^return usub_usize\(read, this.m_found\)~
    proof { lemma_done5(d, dl, data@, data_o as int, read - this.m_found, gn); assert forall|k: int| 0 <= k < this.m_found implies #[trigger] d[gn + (read - this.m_found) + k] == seq5()[k] by { assert(d[gn + s3 + k] == seq5()[k]); } }
@hint before ~^this.m_found = 0usize~ #2
    proof { assert(data@[data_o + (pos - data_o)] == d[gn + (pos - data_o)]); lemma_mis5(d, gn + s3, this.m_found as int, data@[pos as int]); }
@hint before ~^return usub_usize\(i64~
    proof {
        lemma_done5(d, dl, data@, data_o as int, s3, gn);
        assert(occ5(d, gn + s3)) by { assert(d[gn + s3 + 0] == seq5()[0]); assert(d[gn + s3 + 1] == seq5()[1]); assert(d[gn + s3 + 2] == seq5()[2]); assert(d[gn + s3 + 3] == seq5()[3]); assert(d[gn + s3 + 4] == seq5()[4]); }
    }
@loop 5 invariant
    this.seqbuf@ == seq5(), this.m_sequence == 0, this.m_stream.wf(), this.m_stream.data() == d, this.m_stream.pos() == q, !this.m_eof, gn + h == q0, 1 <= h < 5, q == q0 + read, q <= d.len(), gn >= 0,
    data.len() < 0x1000_0000_0000_0000, end <= data.len(), data_o <= pos <= end, end == data_o + read, h <= this.m_found <= 5, pos - data_o == this.m_found - h,
    (forall|k: int| 0 <= k < read ==> #[trigger] data@[data_o + k] == d[q0 + k]), (forall|k: int| 0 <= k < this.m_found ==> #[trigger] d[gn + k] == seq5()[k]),
@loop 5 ensures
    pos >= end || this.m_found >= 5 || seq5()[this.m_found as int] != data@[pos as int],
@loop 5 decreases
    end - pos
@hint loop 5 begin
    proof { assert(data@[data_o + (pos - data_o)] == d[q0 + (pos - data_o)]); }
@hint before ~^return 0usize~ #3
    proof { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl); }
@hint before ~^return 0usize~ #4
    proof { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl);
        assert(occ5(d, gn)) by { assert(d[gn + 0] == seq5()[0]); assert(d[gn + 1] == seq5()[1]); assert(d[gn + 2] == seq5()[2]); assert(d[gn + 3] == seq5()[3]); assert(d[gn + 4] == seq5()[4]); } }
@hint after ~let mut n: usize~
    let ghost v0 = data@; let ghost m1 = this.m_found as int;
    proof { assert(data@[data_o + (pos - data_o)] == d[q0 + (pos - data_o)]); lemma_mis5(d, gn, m1, data@[pos as int]); }
@loop 6 invariant
    i <= read - n, n <= read, data.len() == v0.len(), data.len() < 0x1000_0000_0000_0000, h >= 1, m1 == n + h, m1 < 5, m1 == this.m_found, read <= count - 5, data_o + count <= data.len(),
    this.m_stream.wf(), this.seqbuf@ == seq5(), this.m_sequence == 0, !this.m_eof, this.m_stream.data() == d, this.m_stream.pos() == q,
    newEnd == data_o + read + h - i, oldEnd == data_o + read - i,
    forall|k: int| newEnd <= k < data_o + read + h ==> #[trigger] data@[k] == v0[k - h],
    forall|k: int| 0 <= k < newEnd ==> #[trigger] data@[k] == v0[k],
@loop 6 decreases
    read - n - i
@loop 7 invariant
    n <= read, data.len() == v0.len(), data.len() < 0x1000_0000_0000_0000, h >= 1, m1 == n + h, m1 < 5, m1 == this.m_found, read <= count - 5, data_o + count <= data.len(), f <= m1,
    this.m_stream.wf(), this.seqbuf@ == seq5(), this.m_sequence == 0, !this.m_eof, this.m_stream.data() == d, this.m_stream.pos() == q,
    forall|k: int| data_o + m1 <= k < data_o + read + h ==> #[trigger] data@[k] == v0[k - h],
    forall|k: int| 0 <= k < f ==> #[trigger] data@[data_o + k] == seq5()[k],
@loop 7 decreases
    m1 - f
@hint before ~^this.m_found = 0usize~ #3
    proof {
        assert forall|k: int| 0 <= k < read implies #[trigger] data@[data_o + k] == d[gn + k] by {
            if k < m1 { assert(d[gn + k] == seq5()[k]); } else { assert(data@[data_o + k] == v0[data_o + (k - h)]); assert(v0[data_o + (k - h)] == d[q0 + (k - h)]); }
        }
    }
@hint before ~^return read~ #2
    proof { if this.m_found == 0 { lemma_done5(d, dl, data@, data_o as int, read as int, gn); } else { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl); } }

@struct vmime::utility::stopSequenceFilteredInputStream<3> as Stop3
@field Stop3.m_sequence ptr:u8 this.seqbuf zt
@extrafield Stop3.seqbuf str
@rust
pub open spec fn seq3() -> Seq<u8> { seq![10u8, 46u8, 10u8] }
pub open spec fn occ3(d: Seq<u8>, p: int) -> bool { 0 <= p && p + 3 <= d.len() && d[p] == 10 && d[p + 1] == 46 && d[p + 2] == 10 }
// state of the filter after it has delivered dl: everything before the stop sequence, nothing of it, never a byte lost
pub open spec fn inv3(t: &Stop3, dl: Seq<u8>) -> bool {
    let d = t.m_stream.data(); let q = t.m_stream.pos(); let n = dl.len() as int;
    &&& t.seqbuf@ == seq3() && t.m_sequence == 0 && t.m_stream.wf() && t.m_found <= 3
    &&& n <= d.len() && dl == d.take(n)
    &&& forall|p: int| 0 <= p < n ==> !#[trigger] occ3(d, p)
    &&& if t.m_found == 3 { n + 3 <= q && occ3(d, n) }
        else if t.m_eof { t.m_found == 0 && q == d.len() && n == d.len() }
        else { n + t.m_found == q && forall|k: int| 0 <= k < t.m_found ==> #[trigger] d[n + k] == seq3()[k] }
}
// PROPERTY (C07): once the filter is at its end, what it delivered is the text before the first stop sequence, or all of it
pub proof fn property_stop3(t: &Stop3, dl: Seq<u8>)
    requires inv3(t, dl), t.m_found == 3 || t.m_eof
    ensures dl == t.m_stream.data().take(dl.len() as int), forall|p: int| 0 <= p < dl.len() ==> !#[trigger] occ3(t.m_stream.data(), p),
        dl == t.m_stream.data() || occ3(t.m_stream.data(), dl.len() as int),
{ let d = t.m_stream.data(); if t.m_found != 3 { assert(d.take(d.len() as int) =~= d); } }
// a mismatch after m characters: no occurrence can start inside what was matched
pub proof fn lemma_mis3(d: Seq<u8>, a: int, m: int, x: u8)
    requires 0 <= a, 1 <= m < 3, a + m < d.len(), forall|k: int| 0 <= k < m ==> #[trigger] d[a + k] == seq3()[k], d[a + m] == x, x != seq3()[m]
    ensures forall|p: int| a <= p < a + m ==> !#[trigger] occ3(d, p)
{
    assert forall|p: int| a <= p < a + m implies !#[trigger] occ3(d, p) by {
        let j = p - a; assert(d[a + j] == seq3()[j]); assert(d[a + 0] == seq3()[0]);
        if occ3(d, p) {
            if j + 1 < m { assert(d[a + (j + 1)] == seq3()[j + 1]); }
            if m > 1 { assert(d[a + 1] == seq3()[1]); }
            if m > 2 { assert(d[a + 2] == seq3()[2]); }
            
        }
    }
}
@fn vmime::utility::stopSequenceFilteredInputStream<3>::read as stop3_read
@isolate
@extraparam Ghost(dl): Ghost<Seq<u8>>
@requires
    inv3(old(this), dl), data_o + count <= old(data).len(), old(data).len() < 0x1000_0000_0000_0000,
@ensures
    res <= count, final(data).len() == old(data).len(), final(this).m_stream.data() == old(this).m_stream.data(),
    inv3(final(this), dl + final(data)@.subrange(data_o as int, data_o + res)),
    old(this).m_stream.pos() <= final(this).m_stream.pos(),
@hint start
    let ghost d = this.m_stream.data(); let ghost q0 = this.m_stream.pos(); let ghost gn = dl.len() as int; let ghost h = this.m_found as int;
    proof { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl); }
@loop 1 invariant
    this.seqbuf@ == seq3(), this.m_sequence == 0, found < 3, data_o + 3 < data.len(), data.len() == old(data).len(), data.len() < 0x1000_0000_0000_0000,
    inv3(this, dl), this.m_found == found, d == this.m_stream.data(), d == old(this).m_stream.data(), q0 == this.m_stream.pos(), q0 == d.len(), gn == dl.len(), !this.m_eof, q0 == old(this).m_stream.pos(),
    f <= found, forall|k: int| 0 <= k < f ==> #[trigger] data@[data_o + k] == seq3()[k],
@loop 1 decreases
    found - f
@hint before ~^return found~
    proof {
        let x = data@.subrange(data_o as int, data_o + found);
        assert forall|k: int| 0 <= k < found implies d[gn + k] == #[trigger] x[k] by { assert(x[k] == data@[data_o + k]); }
        assert(dl + x =~= d.take(d.len() as int));
        assert forall|p: int| 0 <= p < d.len() implies !#[trigger] occ3(d, p) by { if p >= gn { assert(p + 3 > d.len()); } }
    }
@hint before ~^return 0usize~ #1
    proof { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl); }
@hint before ~^return 0usize~ #2
    proof { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl); assert(d.take(d.len() as int) =~= d); }
@hint loop 2 pre
    let ghost q = this.m_stream.pos();
    proof { if h == 0 { assert forall|k: int| 0 <= k < read implies #[trigger] data@[data_o + k] == d[gn + k] by { } } }
@loop 2 invariant
    this.m_found != 0 ==> pos == data_o && this.m_found == h && q == q0 + read && (forall|k: int| 0 <= k < read ==> #[trigger] data@[data_o + k] == d[q0 + k]),
    this.m_found == 0 ==> gn + read == q && (forall|k: int| 0 <= k < read ==> #[trigger] data@[data_o + k] == d[gn + k]) && (forall|p: int| 0 <= p < gn + (pos - data_o) ==> !#[trigger] occ3(d, p)),
@loop 2 invariant
    this.seqbuf@ == seq3(), this.m_sequence == 0, this.m_stream.wf(), this.m_stream.data() == d, this.m_stream.pos() == q, d == old(this).m_stream.data(), q0 == old(this).m_stream.pos(), q0 <= q <= d.len(),
    !this.m_eof, gn == dl.len(), 0 <= gn <= d.len(), dl == d.take(gn), gn + h == q0, h < 3, (forall|k: int| 0 <= k < h ==> #[trigger] d[gn + k] == seq3()[k]), (forall|p: int| 0 <= p < gn ==> !#[trigger] occ3(d, p)),
    data.len() == old(data).len(), data.len() < 0x1000_0000_0000_0000, data_o + count <= data.len(), count > 3, read <= count, this.m_found != 0 ==> read <= count - 3,
    data_o <= pos <= end, end == data_o + read, this.m_found < 3,
@loop 2 decreases
    (if this.m_found != 0 { 1int } else { 0int }), end - pos
@loop 3 ensures
    pos >= end,
@loop 3 invariant
    this.m_found == 0, gn + read == q, (forall|k: int| 0 <= k < read ==> #[trigger] data@[data_o + k] == d[gn + k]), (forall|p: int| 0 <= p < gn + (pos - data_o) ==> !#[trigger] occ3(d, p)),
@loop 3 invariant
    this.seqbuf@ == seq3(), this.m_sequence == 0, this.m_stream.wf(), this.m_stream.data() == d, this.m_stream.pos() == q, d == old(this).m_stream.data(), q0 == old(this).m_stream.pos(), q0 <= q <= d.len(),
    !this.m_eof, gn == dl.len(), 0 <= gn <= d.len(), dl == d.take(gn),
    data.len() == old(data).len(), data.len() < 0x1000_0000_0000_0000, data_o + count <= data.len(), read <= count,
    data_o <= pos <= end, end == data_o + read, this.m_found == 0,
@loop 3 decreases
    end - pos
@hint loop 3 begin
    let ghost p3 = pos;
@hint before ~^return read~ #1
    proof {
        lemma_done3(d, dl, data@, data_o as int, read as int, gn);
        assert forall|p: int| 0 <= p < gn + read implies !#[trigger] occ3(d, p) by { if p >= gn + (p3 - data_o) { assert(data@[data_o + (p - gn)] == d[gn + (p - gn)]); } }
    }
@hint after ~^pos = t\d+__~
    let ghost s3 = pos - data_o;
    proof { assert forall|p: int| 0 <= p < gn + s3 implies !#[trigger] occ3(d, p) by { if p >= gn + (p3 - data_o) { assert(data@[data_o + (p - gn)] == d[gn + (p - gn)]); } } }
@loop 4 invariant
    this.seqbuf@ == seq3(), this.m_sequence == 0, this.m_stream.wf(), this.m_stream.data() == d, this.m_stream.pos() == q, !this.m_eof, gn + read == q, q <= d.len(), gn >= 0,
    data.len() < 0x1000_0000_0000_0000, end <= data.len(), data_o <= pos <= end, end == data_o + read, 1 <= this.m_found <= 3, s3 >= 0, pos - data_o == s3 + this.m_found,
    (forall|k: int| 0 <= k < read ==> #[trigger] data@[data_o + k] == d[gn + k]), (forall|k: int| 0 <= k < this.m_found ==> #[trigger] d[gn + s3 + k] == seq3()[k]),
@loop 4 ensures
    pos >= end || this.m_found >= 3 || seq3()[this.m_found as int] != data@[pos as int],
@loop 4 decreases
    end - pos
@hint loop 4 pre
    proof { assert(data@[data_o + s3] == d[gn + s3]); }
@hint loop 4 begin
    proof { assert(data@[data_o + (pos - data_o)] == d[gn + (pos - data_o)]); }
@hint before ~^return usub_usize\(read, this.m_found\)~
    proof { lemma_done3(d, dl, data@, data_o as int, read - this.m_found, gn); assert forall|k: int| 0 <= k < this.m_found implies #[trigger] d[gn + (read - this.m_found) + k] == seq3()[k] by { assert(d[gn + s3 + k] == seq3()[k]); } }
@hint before ~^this.m_found = 0usize~ #2
    proof { assert(data@[data_o + (pos - data_o)] == d[gn + (pos - data_o)]); lemma_mis3(d, gn + s3, this.m_found as int, data@[pos as int]); }
@hint before ~^return usub_usize\(i64~
    proof {
        lemma_done3(d, dl, data@, data_o as int, s3, gn);
        assert(occ3(d, gn + s3)) by { assert(d[gn + s3 + 0] == seq3()[0]); assert(d[gn + s3 + 1] == seq3()[1]); assert(d[gn + s3 + 2] == seq3()[2]); }
    }
@loop 5 invariant
    this.seqbuf@ == seq3(), this.m_sequence == 0, this.m_stream.wf(), this.m_stream.data() == d, this.m_stream.pos() == q, !this.m_eof, gn + h == q0, 1 <= h < 3, q == q0 + read, q <= d.len(), gn >= 0,
    data.len() < 0x1000_0000_0000_0000, end <= data.len(), data_o <= pos <= end, end == data_o + read, h <= this.m_found <= 3, pos - data_o == this.m_found - h,
    (forall|k: int| 0 <= k < read ==> #[trigger] data@[data_o + k] == d[q0 + k]), (forall|k: int| 0 <= k < this.m_found ==> #[trigger] d[gn + k] == seq3()[k]),
@loop 5 ensures
    pos >= end || this.m_found >= 3 || seq3()[this.m_found as int] != data@[pos as int],
@loop 5 decreases
    end - pos
@hint loop 5 begin
    proof { assert(data@[data_o + (pos - data_o)] == d[q0 + (pos - data_o)]); }
@hint before ~^return 0usize~ #3
    proof { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl); }
@hint before ~^return 0usize~ #4
    proof { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl);
        assert(occ3(d, gn)) by { assert(d[gn + 0] == seq3()[0]); assert(d[gn + 1] == seq3()[1]); assert(d[gn + 2] == seq3()[2]); } }
@hint after ~let mut n: usize~
    let ghost v0 = data@; let ghost m1 = this.m_found as int;
    proof { assert(data@[data_o + (pos - data_o)] == d[q0 + (pos - data_o)]); lemma_mis3(d, gn, m1, data@[pos as int]); }
@loop 6 invariant
    i <= read - n, n <= read, data.len() == v0.len(), data.len() < 0x1000_0000_0000_0000, h >= 1, m1 == n + h, m1 < 3, m1 == this.m_found, read <= count - 3, data_o + count <= data.len(),
    this.m_stream.wf(), this.seqbuf@ == seq3(), this.m_sequence == 0, !this.m_eof, this.m_stream.data() == d, this.m_stream.pos() == q,
    newEnd == data_o + read + h - i, oldEnd == data_o + read - i,
    forall|k: int| newEnd <= k < data_o + read + h ==> #[trigger] data@[k] == v0[k - h],
    forall|k: int| 0 <= k < newEnd ==> #[trigger] data@[k] == v0[k],
@loop 6 decreases
    read - n - i
@loop 7 invariant
    n <= read, data.len() == v0.len(), data.len() < 0x1000_0000_0000_0000, h >= 1, m1 == n + h, m1 < 3, m1 == this.m_found, read <= count - 3, data_o + count <= data.len(), f <= m1,
    this.m_stream.wf(), this.seqbuf@ == seq3(), this.m_sequence == 0, !this.m_eof, this.m_stream.data() == d, this.m_stream.pos() == q,
    forall|k: int| data_o + m1 <= k < data_o + read + h ==> #[trigger] data@[k] == v0[k - h],
    forall|k: int| 0 <= k < f ==> #[trigger] data@[data_o + k] == seq3()[k],
@loop 7 decreases
    m1 - f
@hint before ~^this.m_found = 0usize~ #3
    proof {
        assert forall|k: int| 0 <= k < read implies #[trigger] data@[data_o + k] == d[gn + k] by {
            if k < m1 { assert(d[gn + k] == seq3()[k]); } else { assert(data@[data_o + k] == v0[data_o + (k - h)]); assert(v0[data_o + (k - h)] == d[q0 + (k - h)]); }
        }
    }
@hint before ~^return read~ #2
    proof { if this.m_found == 0 { lemma_done3(d, dl, data@, data_o as int, read as int, gn); } else { assert(data@.subrange(data_o as int, data_o + 0) =~= Seq::<u8>::empty()); assert(dl + Seq::<u8>::empty() =~= dl); } }
