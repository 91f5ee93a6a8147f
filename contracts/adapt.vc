@unit adapt
@use strings streams
@rlimit 40
@source src/vmime/utility/inputStreamStringAdapter.cpp
@rust
// what read must do on a region d of bytes at position p, as in the model of an input stream every reader in vmime is verified against
pub open spec fn rd_ok(d: Seq<u8>, p0: int, p1: int, b0: Seq<u8>, b1: Seq<u8>, off: int, count: int, n: int) -> bool {
    &&& 0 <= n <= count && p1 == p0 + n && p1 <= d.len() && b1.len() == b0.len()
    &&& forall|k: int| 0 <= k < b1.len() ==> #[trigger] b1[k] == (if off <= k < off + n { d[p0 + k - off] } else { b0[k] })
    &&& (n == 0 && count > 0 ==> p0 == d.len())
}
pub open spec fn big() -> int { 0x4000_0000_0000_0000 }

@struct vmime::utility::inputStreamStringAdapter as StrIn
@rust
pub open spec fn s_wf(t: &StrIn) -> bool { t.m_begin <= t.m_pos <= t.m_end <= t.m_buffer.len() && t.m_buffer.len() < big() }
pub open spec fn s_data(t: &StrIn) -> Seq<u8> { t.m_buffer@.subrange(t.m_begin as int, t.m_end as int) }
pub open spec fn s_pos(t: &StrIn) -> int { t.m_pos - t.m_begin }
@fn vmime::utility::inputStreamStringAdapter::eof as s_eof
@requires
    s_wf(this)
@ensures
    res == (s_pos(this) == s_data(this).len())
@fn vmime::utility::inputStreamStringAdapter::reset as s_reset
@requires
    s_wf(old(this))
@ensures
    s_wf(final(this)), s_data(final(this)) == s_data(old(this)), s_pos(final(this)) == 0
@fn vmime::utility::inputStreamStringAdapter::read as s_read
@requires
    s_wf(old(this)), data_o + count <= old(data).len(), old(data).len() < big()
@ensures
    s_wf(final(this)), s_data(final(this)) == s_data(old(this)),
    rd_ok(s_data(old(this)), s_pos(old(this)), s_pos(final(this)), old(data)@, final(data)@, data_o as int, count as int, res as int)
@fn vmime::utility::inputStreamStringAdapter::skip as s_skip
@requires
    s_wf(old(this)), count < big()
@ensures
    s_wf(final(this)), s_data(final(this)) == s_data(old(this)), s_pos(final(this)) == s_pos(old(this)) + res, res <= count,
    res < count ==> s_pos(final(this)) == s_data(final(this)).len()
@fn vmime::utility::inputStreamStringAdapter::getPosition as s_tell
@requires
    s_wf(this)
@ensures
    res == s_pos(this)
@fn vmime::utility::inputStreamStringAdapter::seek as s_seek
@requires
    s_wf(old(this)), pos < big()
@ensures
    s_wf(final(this)), s_data(final(this)) == s_data(old(this)), pos <= s_data(old(this)).len() ==> s_pos(final(this)) == pos

@source src/vmime/utility/inputStreamByteBufferAdapter.cpp
@struct vmime::utility::inputStreamByteBufferAdapter as BufIn
@field BufIn.m_buffer ptr:u8 this.buf zt
@extrafield BufIn.buf str
@rust
pub open spec fn b_wf(t: &BufIn) -> bool { t.m_pos <= t.m_length && t.m_buffer + t.m_length <= t.buf.len() && t.buf.len() < big() }
pub open spec fn b_data(t: &BufIn) -> Seq<u8> { t.buf@.subrange(t.m_buffer as int, t.m_buffer + t.m_length) }
@fn vmime::utility::inputStreamByteBufferAdapter::eof as b_eof
@requires
    b_wf(this)
@ensures
    res == (this.m_pos == b_data(this).len())
@fn vmime::utility::inputStreamByteBufferAdapter::reset as b_reset
@requires
    b_wf(old(this))
@ensures
    b_wf(final(this)), b_data(final(this)) == b_data(old(this)), final(this).m_pos == 0
@fn vmime::utility::inputStreamByteBufferAdapter::read as b_read
@requires
    b_wf(old(this)), data_o + count <= old(data).len(), old(data).len() < big()
@ensures
    b_wf(final(this)), b_data(final(this)) == b_data(old(this)),
    rd_ok(b_data(old(this)), old(this).m_pos as int, final(this).m_pos as int, old(data)@, final(data)@, data_o as int, count as int, res as int)
@fn vmime::utility::inputStreamByteBufferAdapter::skip as b_skip
@requires
    b_wf(old(this))
@ensures
    b_wf(final(this)), b_data(final(this)) == b_data(old(this)), final(this).m_pos == old(this).m_pos + res, res <= count,
    res < count ==> final(this).m_pos == b_data(final(this)).len()
@fn vmime::utility::inputStreamByteBufferAdapter::getPosition as b_tell
@requires
    b_wf(this)
@ensures
    res == this.m_pos
@fn vmime::utility::inputStreamByteBufferAdapter::seek as b_seek
@requires
    b_wf(old(this))
@ensures
    b_wf(final(this)), b_data(final(this)) == b_data(old(this)), pos <= b_data(old(this)).len() ==> final(this).m_pos == pos

@source src/vmime/utility/seekableInputStreamRegionAdapter.cpp
@struct vmime::utility::seekableInputStreamRegionAdapter as RegIn
@rust
pub open spec fn r_wf(t: &RegIn) -> bool { t.m_position <= t.m_length && t.m_begin + t.m_length <= t.m_stream.data().len() && t.m_stream.wf() }
pub open spec fn r_data(t: &RegIn) -> Seq<u8> { t.m_stream.data().subrange(t.m_begin as int, t.m_begin + t.m_length) }
@fn vmime::utility::seekableInputStreamRegionAdapter::eof as r_eof
@requires
    r_wf(this)
@ensures
    res == (this.m_position == r_data(this).len())
@fn vmime::utility::seekableInputStreamRegionAdapter::reset as r_reset
@requires
    r_wf(old(this))
@ensures
    r_wf(final(this)), r_data(final(this)) == r_data(old(this)), final(this).m_position == 0
@fn vmime::utility::seekableInputStreamRegionAdapter::read as r_read
@requires
    r_wf(old(this)), data_o + count <= old(data).len(), old(data).len() < big()
@ensures
    r_wf(final(this)), r_data(final(this)) == r_data(old(this)),
    rd_ok(r_data(old(this)), old(this).m_position as int, final(this).m_position as int, old(data)@, final(data)@, data_o as int, count as int, res as int)
@fn vmime::utility::seekableInputStreamRegionAdapter::skip as r_skip
@requires
    r_wf(old(this)), count < big()
@ensures
    r_wf(final(this)), r_data(final(this)) == r_data(old(this)), final(this).m_position == old(this).m_position + res, res <= count,
    res < count ==> final(this).m_position == r_data(final(this)).len()
@fn vmime::utility::seekableInputStreamRegionAdapter::getPosition as r_tell
@requires
    r_wf(this)
@ensures
    res == this.m_position
@fn vmime::utility::seekableInputStreamRegionAdapter::seek as r_seek
@requires
    r_wf(old(this))
@ensures
    r_wf(final(this)), r_data(final(this)) == r_data(old(this)), pos <= r_data(old(this)).len() ==> final(this).m_position == pos

@source src/vmime/utility/streamUtils.cpp
@method vmime::utility::stream::getBlockSize = block_size usize ref
@obj Prog
@type .*progressListener.* = stru:Prog
@method vmime::utility::progressListener::start = pr_start void mut val
@method vmime::utility::progressListener::stop = pr_stop void mut val
@method vmime::utility::progressListener::progress = pr_progress void mut val val
@rust
#[verifier::external_body] pub struct Prog { x: u8 }
impl Prog { pub uninterp spec fn set(&self) -> bool; }
#[verifier::external_body] pub fn Prog_isset(x: &Prog) -> (r: bool) ensures r == x.set() { unimplemented!() }
#[verifier::external_body] pub fn Prog_null() -> (r: Prog) ensures !r.set() { unimplemented!() }
#[verifier::external_body] pub fn pr_start(x: &mut Prog, n: usize) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn pr_stop(x: &mut Prog, n: usize) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn pr_progress(x: &mut Prog, n: usize, m: usize) requires old(x).set() ensures final(x).set() { unimplemented!() }
pub trait HasBlock {}
impl HasBlock for InStream {}
impl HasBlock for OutStream {}
impl HasBlock for &mut InStream {}
impl HasBlock for &mut OutStream {}
// any block size an implementation may choose (the documentation asks for a positive number)
#[verifier::external_body] pub fn block_size<T: HasBlock>(i: &T) -> (r: usize) ensures 0 < r < 0x1000_0000 { unimplemented!() }
pub open spec fn after_skip(d: Seq<u8>, p: int, n: int) -> int { if p + n <= d.len() { p + n } else { d.len() as int } }
@fn vmime::utility::bufferedStreamCopyRange as copy_range
@requires
    old(is_).wf()
@ensures
    final(is_).wf(), final(is_).data() == old(is_).data(), res <= length,
    ({ let d = old(is_).data(); let p = after_skip(d, old(is_).pos(), start as int);
       p + res <= d.len() && final(os).data() == old(os).data() + d.subrange(p, p + res) && final(is_).pos() == p + res
       && (res < length ==> p + res == d.len()) })
@hint start
    let ghost d = is_.data(); let ghost p0 = is_.pos(); let ghost o0 = os.data();
    let ghost p = after_skip(d, p0, start as int);
    proof { assert(o0 + d.subrange(p, p) =~= o0); }
@loop 1 invariant
    is_.wf(), is_.data() == d, os.data() == o0, skipped <= start, is_.pos() == p0 + skipped, 0 <= p0,
@loop 1 ensures
    skipped <= start, is_.wf(), is_.data() == d, is_.pos() == after_skip(d, p0, start as int), os.data() == o0
@loop 1 decreases
    start - skipped
@loop 2 invariant
    is_.wf(), is_.data() == d, total <= length, is_.pos() == p + total, 0 <= p, p + total <= d.len(), os.data() == o0 + d.subrange(p, p + total), 0 < blockSize, vbuffer.len() == blockSize, buffer == 0,
@loop 2 decreases
    length - total, (if is_.hit() { 0int } else { 1int })
@hint before ~^if \(read != 0~
    let ghost n0 = total;
@hint after ~^total = ~
    proof {
        assert(vbuffer@.subrange(0, read as int) =~= d.subrange(p + n0, p + n0 + read));
        assert(o0 + d.subrange(p, p + n0) + d.subrange(p + n0, p + n0 + read) =~= o0 + d.subrange(p, p + n0 + read));
    }
@fn vmime::utility::bufferedStreamCopy ~progress~ as copy_all
@requires
    old(is_).wf()
@ensures
    final(is_).wf(), final(is_).data() == old(is_).data(), final(is_).pos() == final(is_).data().len(),
    res == old(is_).data().len() - old(is_).pos(), final(os).data() == old(os).data() + old(is_).data().skip(old(is_).pos())
@hint start
    let ghost d = is_.data(); let ghost p = is_.pos(); let ghost o0 = os.data();
    proof { assert(o0 + d.subrange(p, p) =~= o0); }
@loop 1 invariant
    is_.wf(), is_.data() == d, is_.pos() == p + total, 0 <= p, p + total <= d.len(), os.data() == o0 + d.subrange(p, p + total), 0 < blockSize, vbuffer.len() == blockSize, buffer == 0,
@loop 1 decreases
    d.len() - p - total, (if is_.hit() { 0int } else { 1int })
@hint before ~^if \(read != 0~
    let ghost n0 = total;
@hint after ~^total = ~
    proof {
        assert(vbuffer@.subrange(0, read as int) =~= d.subrange(p + n0, p + n0 + read));
        assert(o0 + d.subrange(p, p + n0) + d.subrange(p + n0, p + n0 + read) =~= o0 + d.subrange(p, p + n0 + read));
    }
@hint loop 1 post
    proof { assert(d.subrange(p, d.len() as int) =~= d.skip(p)); }
@source src/vmime/utility/outputStreamStringAdapter.cpp
@struct vmime::utility::outputStreamStringAdapter as StrOut
@fn vmime::utility::outputStreamStringAdapter::writeImpl as so_write
@requires
    data_o + count <= data.len()
@ensures
    final(this).m_buffer@ == old(this).m_buffer@ + data@.subrange(data_o as int, data_o + count)
@source src/vmime/utility/outputStreamByteArrayAdapter.cpp
@struct vmime::utility::outputStreamByteArrayAdapter as ArrOut
@fn vmime::utility::outputStreamByteArrayAdapter::writeImpl as ao_write
@requires
    data_o + count <= data.len()
@ensures
    final(this).m_array@ == old(this).m_array@ + data@.subrange(data_o as int, data_o + count)
