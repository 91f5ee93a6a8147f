@unit dotout
@use strings streams
@weakinput
@source src/vmime/utility/filteredStream.cpp
@struct vmime::utility::dotFilteredOutputStream as DotOut
@include seqbook.rs
@rust
// ---- SMTP dot stuffing, as a byte-by-byte transducer (state: last byte written, nothing or one dot written so far)
pub struct DS { pub prev: u8, pub st: bool }
pub open spec fn iscrlf(c: u8) -> bool { c == 13 || c == 10 }
pub open spec fn d_ex(s: DS, c: u8) -> Seq<u8> { if s.st && s.prev == 46 && iscrlf(c) { seq![46u8] } else { e0() } }
pub open spec fn d_ch(s: DS, c: u8) -> Seq<u8> { if c == 46 && s.prev == 10 { seq![46u8, 46u8] } else { seq![c] } }
pub open spec fn d_next(s: DS, c: u8) -> DS { DS { prev: c, st: s.st && s.prev != 46 && c == 46 } }
#[verifier::opaque]
pub open spec fn d_st(s: DS, w: Seq<u8>) -> DS decreases w.len() { if w.len() == 0 { s } else { d_next(d_st(s, w.drop_last()), w.last()) } }
#[verifier::opaque]
pub open spec fn d_out(s: DS, w: Seq<u8>) -> Seq<u8> decreases w.len() {
    if w.len() == 0 { e0() } else { d_out(s, w.drop_last()) + (d_ex(d_st(s, w.drop_last()), w.last()) + d_ch(d_st(s, w.drop_last()), w.last())) }
}
pub open spec fn d_wf(s: DS) -> bool { s.st ==> s.prev == 0 || s.prev == 46 }
pub open spec fn d_flush(s: DS) -> Seq<u8> { if s.st && s.prev == 46 { seq![46u8] } else { e0() } }
pub proof fn lemma_d0(s: DS, w: Seq<u8>) ensures w.take(0) == e0(), d_st(s, e0()) == s, d_out(s, e0()) == e0(), w.take(w.len() as int) == w
{ reveal(d_st); reveal(d_out); assert(w.take(0) =~= e0()); assert(w.take(w.len() as int) =~= w); }
pub proof fn lemma_d1(s: DS, w: Seq<u8>, i: int) requires 0 <= i < w.len()
    ensures d_st(s, w.take(i + 1)) == d_next(d_st(s, w.take(i)), w[i]),
        d_out(s, w.take(i + 1)) == d_out(s, w.take(i)) + (d_ex(d_st(s, w.take(i)), w[i]) + d_ch(d_st(s, w.take(i)), w[i])),
{ reveal(d_st); reveal(d_out); assert(w.take(i + 1).drop_last() =~= w.take(i)); assert(w.take(i + 1).last() == w[i]); }
// pending eager dot before position i
pub open spec fn d_eag(s: DS, w: Seq<u8>, i: int) -> Seq<u8> { if 0 <= i < w.len() { d_ex(d_st(s, w.take(i)), w[i]) } else { e0() } }
pub proof fn lemma_d_st(s: DS, w: Seq<u8>, i: int) requires 1 <= i <= w.len(), d_wf(s)
    ensures d_st(s, w.take(i)).prev == w[i - 1], d_st(s, w.take(i)).st == (i == 1 && s.st && s.prev != 46 && w[0] == 46),
    decreases i
{ lemma_d0(s, w); lemma_d1(s, w, i - 1); if i > 1 { lemma_d_st(s, w, i - 1); } }
pub proof fn lemma_d_run(s: DS, w: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= w.len(), d_wf(s), forall|k: int| i <= k < j ==> w[k] != 46
    ensures d_out(s, w.take(i)) + d_eag(s, w, i) + w.subrange(i, j) == d_out(s, w.take(j)) + (if i == j { d_eag(s, w, i) } else { e0() }),
        i < j ==> d_eag(s, w, j) == e0(),
    decreases j - i
{
    if i == j { assert(w.subrange(i, j) =~= e0()); assert(d_out(s, w.take(i)) + d_eag(s, w, i) + e0() =~= d_out(s, w.take(i)) + d_eag(s, w, i)); }
    else {
        lemma_d_run(s, w, i, j - 1);
        lemma_d1(s, w, j - 1);
        lemma_d_st(s, w, j);
        if j - 1 > i { lemma_d_st(s, w, j - 1); assert(d_ex(d_st(s, w.take(j - 1)), w[j - 1]) =~= e0()); }
        assert(w.subrange(i, j) =~= w.subrange(i, j - 1) + seq![w[j - 1]]);
        let a = d_out(s, w.take(i)); let b = d_eag(s, w, i); let c = w.subrange(i, j - 1); let x = seq![w[j - 1]];
        assert(d_ch(d_st(s, w.take(j - 1)), w[j - 1]) == x);
        assert(a + b + (c + x) =~= (a + b + c) + x);
        assert(d_out(s, w.take(j - 1)) + (b + x) =~= (d_out(s, w.take(j - 1)) + b) + x);
        assert(d_out(s, w.take(j - 1)) + e0() =~= d_out(s, w.take(j - 1)));
        assert(e0() + x =~= x);
        assert(d_out(s, w.take(j)) + e0() =~= d_out(s, w.take(j)));
    }
}
// splitting the data over several calls changes nothing
pub proof fn lemma_d_split(s: DS, a: Seq<u8>, b: Seq<u8>)
    ensures d_st(s, a + b) == d_st(d_st(s, a), b), d_out(s, a + b) == d_out(s, a) + d_out(d_st(s, a), b), d_wf(s) ==> d_wf(d_st(s, a))
    decreases b.len()
{
    reveal(d_st); reveal(d_out);
    if b.len() == 0 { assert(a + b =~= a); assert(d_out(s, a) + e0() =~= d_out(s, a)); lemma_d_wf(s, a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_d_split(s, a, b.drop_last());
        let t = d_st(d_st(s, a), b.drop_last());
        assert(d_out(s, a) + d_out(d_st(s, a), b.drop_last()) + (d_ex(t, b.last()) + d_ch(t, b.last())) =~= d_out(s, a) + (d_out(d_st(s, a), b.drop_last()) + (d_ex(t, b.last()) + d_ch(t, b.last()))));
    }
}
pub proof fn lemma_d_wf(s: DS, w: Seq<u8>) ensures d_wf(s) ==> d_wf(d_st(s, w)) decreases w.len()
{ reveal(d_st); if w.len() > 0 { lemma_d_wf(s, w.drop_last()); } }
// what goes to the server for content w: filter output, flush, end-of-data delimiter
pub open spec fn smtp_body(w: Seq<u8>) -> Seq<u8> { d_out(DS { prev: 0, st: true }, w) + d_flush(d_st(DS { prev: 0, st: true }, w)) }
// the receiver (RFC 5321 4.5.2), on a stream of lines ended by CRLF: `bol` = at the beginning of a line.
// Returns None when the end-of-data line is met.
pub open spec fn smtp_eod_at(t: Seq<u8>, i: int) -> bool {
    i + 2 < t.len() && t[i] == 46 && t[i + 1] == 13 && t[i + 2] == 10 && (i == 0 || i >= 2 && t[i - 1] == 10 && t[i - 2] == 13)
}
// even for servers that accept bare line feeds
pub open spec fn lax_eod_at(t: Seq<u8>, i: int) -> bool {
    0 <= i && i + 1 < t.len() && t[i] == 46 && iscrlf(t[i + 1]) && (i == 0 || t[i - 1] == 10)
}
// facts about the stuffed text, by induction on w
pub open spec fn stuffed_ok(t: Seq<u8>, s: DS) -> bool {
    &&& forall|i: int| 1 <= i < t.len() && t[i - 1] == 10 && #[trigger] t[i] == 46 ==> i + 1 < t.len() && t[i + 1] == 46
    &&& t.len() > 0 ==> t.last() == s.prev
    &&& t.len() >= 2 && t[0] == 46 ==> !iscrlf(t[1])
    &&& s.st && s.prev == 46 ==> t.len() == 1 && t[0] == 46
    &&& s.st && s.prev != 46 ==> t.len() == 0
    &&& t.len() == 1 && t[0] == 46 ==> s.st
}
pub proof fn lemma_stuffed(w: Seq<u8>)
    ensures stuffed_ok(d_out(DS { prev: 0, st: true }, w), d_st(DS { prev: 0, st: true }, w)) decreases w.len()
{
    reveal(d_st); reveal(d_out);
    let z = DS { prev: 0, st: true };
    if w.len() > 0 {
        let a = w.drop_last(); let c = w.last();
        lemma_stuffed(a);
        let t = d_out(z, a); let s = d_st(z, a);
        let u = t + (d_ex(s, c) + d_ch(s, c));
        lemma_d_wf(z, a);
        assert(d_out(z, w) == u);
        assert forall|i: int| 1 <= i < u.len() && u[i - 1] == 10 && #[trigger] u[i] == 46 implies i + 1 < u.len() && u[i + 1] == 46 by {
            if i < t.len() { assert(t[i - 1] == 10 && t[i] == 46); assert(t[i + 1] == 46); }
        }
    }
}
// PROPERTY (C05): whatever the content, the only end-of-data line the server can see is the one sent at the end
pub proof fn property_no_early_end(w: Seq<u8>, i: int)
    ensures !smtp_eod_at(smtp_body(w), i), !lax_eod_at(smtp_body(w), i),
        ({ let t = smtp_body(w); t.len() > 0 ==> !(t.last() == 46 && (t.len() == 1 || t[t.len() - 2] == 10)) }),
{
    let z = DS { prev: 0, st: true };
    lemma_stuffed(w);
    let t = d_out(z, w); let f = d_flush(d_st(z, w));
    let b = t + f;
    assert(b == smtp_body(w));
    if f.len() > 0 { assert(b =~= seq![46u8, 46u8]); } else { assert(b =~= t); }
}
// receiver: drop the first dot of every line that has one (after CRLF, or at the start)
pub open spec fn rx(t: Seq<u8>) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { e0() }
    else if t.last() == 46 && (t.len() == 1 || t.len() >= 3 && t[t.len() - 2] == 10 && t[t.len() - 3] == 13) { rx(t.drop_last()) }
    else { rx(t.drop_last()).push(t.last()) }
}
// every line feed ends a CRLF
pub open spec fn crlf_text(w: Seq<u8>) -> bool { forall|k: int| 0 <= k < w.len() && #[trigger] w[k] == 10 ==> k > 0 && w[k - 1] == 13 }
pub proof fn lemma_rx_push(t: Seq<u8>, c: u8)
    ensures rx(t.push(c)) == (if c == 46 && (t.len() == 0 || t.len() >= 2 && t[t.len() - 1] == 10 && t[t.len() - 2] == 13) { rx(t) } else { rx(t).push(c) })
{ assert(t.push(c).drop_last() =~= t); }
pub open spec fn ends_crlf(t: Seq<u8>) -> bool { t.len() >= 2 && t[t.len() - 1] == 10 && t[t.len() - 2] == 13 }
pub proof fn lemma_rx(w: Seq<u8>)
    requires crlf_text(w), w.len() > 0 ==> w[0] != 46
    ensures rx(d_out(DS { prev: 0, st: true }, w)) == w,
        ({ let t = d_out(DS { prev: 0, st: true }, w); w.len() > 0 ==> t.len() > 0 && t.last() == w.last() && ends_crlf(t) == ends_crlf(w) && !d_st(DS { prev: 0, st: true }, w).st && d_st(DS { prev: 0, st: true }, w).prev == w.last() })
    decreases w.len()
{
    reveal(d_st); reveal(d_out);
    let z = DS { prev: 0, st: true };
    if w.len() > 0 {
        let a = w.drop_last(); let c = w.last();
        assert(crlf_text(a)) by { assert forall|k: int| 0 <= k < a.len() && #[trigger] a[k] == 10 implies k > 0 && a[k - 1] == 13 by { assert(w[k] == 10); } }
        lemma_rx(a);
        let t = d_out(z, a); let s = d_st(z, a);
        let u = d_out(z, w);
        assert(d_ex(s, c) =~= e0());
        assert(u =~= t + d_ch(s, c));
        assert(a.push(c) =~= w);
        if a.len() > 0 {
            assert(a.last() == w[w.len() - 2]);
            if c == 46 && s.prev == 10 {
                assert(w[w.len() - 2] == 10); assert(w[w.len() - 3] == 13); assert(ends_crlf(a));
                assert(u =~= t.push(46).push(46)); lemma_rx_push(t, 46); lemma_rx_push(t.push(46), 46);
            } else {
                assert(u =~= t.push(c)); lemma_rx_push(t, c);
                if c == 10 { assert(w[w.len() - 1] == 10); assert(w[w.len() - 2] == 13); }
            }
        } else {
            assert(t =~= e0()); assert(u =~= t.push(c)); lemma_rx_push(t, c);
        }
    } else { assert(rx(d_out(z, w)) =~= w); }
}
// PROPERTY (C05): a compliant receiver gets the content back byte for byte, for content in canonical form (CRLF line
// ends); content whose first character is a dot followed by something else than a line end is the listed finding
pub proof fn property_received(w: Seq<u8>)
    requires crlf_text(w)
    ensures w.len() > 0 && w[0] != 46 ==> rx(smtp_body(w)) == w
{
    let z = DS { prev: 0, st: true };
    if w.len() > 0 && w[0] != 46 { lemma_rx(w); assert(d_out(z, w) + d_flush(d_st(z, w)) =~= d_out(z, w)); }
}

@rust
pub open spec fn previousChar_is(i: int, s: DS, w: Seq<u8>, c: u8) -> bool { c == d_st(s, w.take(i)).prev }
pub proof fn lemma_dotcase(o0: Seq<u8>, bs: Seq<u8>, o1: Seq<u8>, s0: Seq<u8>, t1: Seq<u8>, cc: Seq<u8>, eg: Seq<u8>)
    requires o0 + bs == s0 + t1, o1 == (o0 + bs) + (cc + eg) ensures o1 == s0 + ((t1 + cc) + eg)
{ assert((s0 + t1) + (cc + eg) =~= s0 + ((t1 + cc) + eg)); }
@fn vmime::utility::dotFilteredOutputStream::writeImpl as dot_write
@isolate
@requires
    data_o + count <= data.len(), data.len() < 0x1000_0000_0000_0000, d_wf(DS { prev: old(this).m_previousChar, st: old(this).m_start }),
@ensures
    ({ let w = data@.subrange(data_o as int, data_o + count); let s = DS { prev: old(this).m_previousChar, st: old(this).m_start };
       &&& final(this).m_stream.data() == old(this).m_stream.data() + d_out(s, w)
       &&& DS { prev: final(this).m_previousChar, st: final(this).m_start } == d_st(s, w)
       &&& d_wf(d_st(s, w)) }),
@hint start
    let ghost s = DS { prev: this.m_previousChar, st: this.m_start }; let ghost w = data@.subrange(data_o as int, data_o + count); let ghost s0 = this.m_stream.data();
    proof { lemma_d0(s, w); lemma_d_wf(s, w); lemma_nil(s0); if count == 0 { assert(w =~= e0()); } }
@hint loop 1 pre
    proof {
        lemma_sub(data@, start as int, start as int, start as int); lemma_nil(this.m_stream.data());
        assert(w[0] == data@[data_o as int]); lemma_nil(d_eag(s, w, 0));
        assert(this.m_stream.data() =~= s0 + d_eag(s, w, 0));
    }
@loop 1 invariant
    data_o + count <= data.len(), data.len() < 0x1000_0000_0000_0000,
    w == data@.subrange(data_o as int, data_o + count), count > 0, w.len() == count,
    this.m_previousChar == s.prev, this.m_start == (s.st && s.prev != 46), d_wf(s),
    data_o <= start <= pos <= end, end == data_o + count,
    this.m_stream.data() + data@.subrange(start as int, pos as int) == s0 + (d_out(s, w.take(pos - data_o)) + d_eag(s, w, pos - data_o)),
@loop 1 ensures
    this.m_stream.data() + data@.subrange(start as int, end as int) == s0 + d_out(s, w),
@loop 1 decreases
    end - pos
@hint before ~let t2__: usize = buf_find~
    let ghost p0 = pos; let ghost o0 = this.m_stream.data();
@hint after ~^pos = t2__~
    let ghost i0 = p0 - data_o; let ghost i1 = pos - data_o;
    let ghost t1 = d_out(s, w.take(i1)); let ghost bs = data@.subrange(start as int, pos as int);
    proof {
        lemma_sub2(data@, data_o as int, count as int, i0, i1);
        assert forall|k: int| i0 <= k < i1 implies w[k] != 46 by { assert(w[k] == data@[data_o + k]); }
        lemma_d_run(s, w, i0, i1);
        lemma_sub(data@, start as int, p0 as int, pos as int);
        let z = t1 + (if i0 == i1 { d_eag(s, w, i1) } else { e0() });
        lemma_ext(o0, data@.subrange(start as int, p0 as int), w.subrange(i0, i1), s0, d_out(s, w.take(i0)) + d_eag(s, w, i0), z);
        assert(pos < end ==> w[i1] == data@[pos as int]);
        assert(z == t1) by { lemma_nil(t1); }
        lemma_d0(s, w);
    }
@hint before ~^let mut previousChar~
    proof { lemma_d1(s, w, i1); if i1 > 0 { lemma_d_st(s, w, i1); assert(w[i1 - 1] == data@[pos - 1]); } lemma_d_st(s, w, i1 + 1); }
    assert(previousChar_is(i1, s, w, if pos == data_o { s.prev } else { data@[pos - 1] }));
@hint after ~^pos = pos \+ 1usize~
    proof {
        let cc = d_ch(d_st(s, w.take(i1)), 46u8); let eg = d_eag(s, w, i1 + 1);
        if i1 + 1 < count { assert(w[i1 + 1] == data@[pos as int]); }
        lemma_nil(cc);
        let x = (t1 + cc) + eg;
        if start == pos {
            lemma_sub(data@, start as int, pos as int, pos as int); lemma_nil(this.m_stream.data());
            assert(this.m_stream.data() =~= (o0 + bs) + (cc + eg)); lemma_dotcase(o0, bs, this.m_stream.data(), s0, t1, cc, eg);
        } else {
            assert(cc == seq![46u8]); assert(eg == e0());
            lemma_sub1(data@, start as int, pos - 1);
            lemma_nil(t1 + cc);
            lemma_ext(o0, bs, seq![46u8], s0, t1, x);
        }
    }
@hint end
    proof { if count > 0 { lemma_d_st(s, w, count as int); lemma_d0(s, w); assert(w[count - 1] == data@[data_o + count - 1]); } }

@fn vmime::utility::dotFilteredOutputStream::flush as dot_flush
@ensures
    final(this).m_stream.data() == old(this).m_stream.data() + d_flush(DS { prev: old(this).m_previousChar, st: old(this).m_start }),
    final(this).m_previousChar == old(this).m_previousChar, final(this).m_start == (old(this).m_start && old(this).m_previousChar != 46),
@hint end
    assert(this.m_stream.data() =~= old(this).m_stream.data() + d_flush(DS { prev: old(this).m_previousChar, st: old(this).m_start }));

