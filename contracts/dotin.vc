@unit dotin
@use strings streams
@weakinput
@source src/vmime/utility/filteredStream.cpp
@struct vmime::utility::dotFilteredInputStream as DotIn
@include seqbook.rs
@include dotinspec.rs
@fn vmime::utility::dotFilteredInputStream::read as dotin_read
@requires
    old(this).m_stream.wf(), data_o + count <= old(data).len(), old(data).len() < 0x1000_0000_0000_0000,
@ensures
    final(this).m_stream.wf(), final(this).m_stream.data() == old(this).m_stream.data(), final(data).len() == old(data).len(),
    ({ let s = IS { p2: old(this).m_previousChar2, p1: old(this).m_previousChar1 };
       let w = old(this).m_stream.data().subrange(old(this).m_stream.pos(), final(this).m_stream.pos());
       &&& old(this).m_stream.pos() <= final(this).m_stream.pos() && w.len() <= count && res <= w.len()
       &&& final(data)@.subrange(data_o as int, data_o + res) == i_out(s, w)
       &&& IS { p2: final(this).m_previousChar2, p1: final(this).m_previousChar1 } == i_st(s, w)
       &&& forall|k: int| 0 <= k < data_o || data_o + count <= k < old(data).len() ==> #[trigger] final(data)@[k] == old(data)@[k] }),
@hint start
    let ghost s = IS { p2: this.m_previousChar2, p1: this.m_previousChar1 }; let ghost q0 = this.m_stream.pos(); let ghost sd = this.m_stream.data(); let ghost dd = data@;
@hint before ~let mut readPtr~
    let ghost w = sd.subrange(q0, this.m_stream.pos());
    proof { lemma_i0(s, w); assert(data@.subrange(data_o as int, data_o as int) =~= e0()); }
@loop 1 invariant
    this.m_stream.wf(), this.m_stream.data() == sd, this.m_stream.pos() == q0 + read, w == sd.subrange(q0, q0 + read), read <= count, q0 >= 0, q0 + read <= sd.len(),
    data.len() == old(data).len(), data_o + count <= data.len(), end == data_o + read,
    data_o <= writePtr <= readPtr <= end, writePtr == data_o + written,
    data@.subrange(data_o as int, writePtr as int) == i_out(s, w.take(readPtr - data_o)),
    (IS { p2: prevChar2, p1: prevChar1 }) == i_st(s, w.take(readPtr - data_o)),
    forall|k: int| readPtr <= k < end ==> #[trigger] data@[k] == w[k - data_o],
    forall|k: int| 0 <= k < data_o || data_o + count <= k < old(data).len() ==> #[trigger] data@[k] == dd[k],
@loop 1 decreases
    end - readPtr
@hint loop 1 begin
    proof { lemma_i1(s, w, readPtr - data_o); }
    let ghost v0 = data@.subrange(data_o as int, writePtr as int); let ghost c0 = data@[readPtr as int];
@hint loop 1 end
    proof { if writePtr > data_o && data@.subrange(data_o as int, writePtr as int).len() > v0.len() { assert(data@.subrange(data_o as int, writePtr as int) =~= v0.push(c0)); } else { assert(data@.subrange(data_o as int, writePtr as int) =~= v0); } }
@hint end
    proof { lemma_i0(s, w); }
