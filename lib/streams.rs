// ---- vmime::utility::inputStream / outputStream: the contract of the abstract classes.
// Concrete adapters are checked against the same contract by the stream-adapter unit.
#[verifier::external_body] pub struct InStream { x: u8 }
impl InStream {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn hit(&self) -> bool;   // a read came back empty: end of stream is known
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.data().len() && (self.hit() ==> self.pos() == self.data().len()) && self.data().len() < 0x0fff_ffff_ffff_ffff }
    #[verifier::external_body]
    pub fn reset(&mut self) requires old(self).wf() ensures final(self).wf(), final(self).data() == old(self).data(), final(self).pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn eof(&self) -> (r: bool) requires self.wf() ensures r ==> self.pos() == self.data().len(), self.hit() ==> r { unimplemented!() }
    // any chunking: 0 <= n <= count, n == 0 only at the end of the stream
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut Vec<u8>, off: usize, count: usize) -> (n: usize)
        requires old(self).wf(), off + count <= old(buf).len()
        ensures final(self).wf(), n <= count, final(buf).len() == old(buf).len(),
            final(self).data() == old(self).data(), final(self).pos() == old(self).pos() + n, final(self).pos() <= final(self).data().len(),
            forall|k: int| 0 <= k < final(buf).len() ==> #[trigger] final(buf)@[k] == (if off <= k < off + n { old(self).data()[old(self).pos() + k - off] } else { old(buf)@[k] }),
            n == 0 && count > 0 ==> final(self).hit(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_one(&mut self, c: &mut u8) -> (n: usize)
        requires old(self).wf()
        ensures final(self).wf(), n <= 1, final(self).data() == old(self).data(), final(self).pos() == old(self).pos() + n, final(self).pos() <= final(self).data().len(),
            n == 1 ==> *final(c) == old(self).data()[old(self).pos()], n == 0 ==> *final(c) == *old(c) && final(self).hit(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(&mut self, count: usize) -> (n: usize)
        requires old(self).wf()
        ensures final(self).wf(), n <= count, final(self).data() == old(self).data(), final(self).pos() == old(self).pos() + n, n == 0 && count > 0 ==> final(self).pos() == final(self).data().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, p: usize) requires old(self).wf() ensures final(self).wf(), final(self).data() == old(self).data(), p <= old(self).data().len() ==> final(self).pos() == p { unimplemented!() }
    #[verifier::external_body]
    pub fn get_position(&self) -> (r: usize) requires self.wf() ensures r as int == self.pos() { unimplemented!() }
}
#[verifier::external_body] pub struct OutStream { x: u8 }
impl OutStream {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write(&mut self, buf: &Vec<u8>, off: usize, n: usize)
        requires off + n <= buf.len() ensures final(self).data() == old(self).data() + buf@.subrange(off as int, off + n) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &Vec<u8>) ensures final(self).data() == old(self).data() + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_byte(&mut self, c: u8) ensures final(self).data() == old(self).data().push(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_dec_usize(&mut self, n: usize) ensures final(self).data() == old(self).data() + dec_digits(n as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_dec_i64(&mut self, n: i64) ensures final(self).data() == old(self).data() + sdec(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) ensures final(self).data() == old(self).data() { unimplemented!() }
}
// unread part of the input seen through the local buffer
pub open spec fn unread(i: &InStream, bl: int, bp: int) -> Seq<u8> { i.data().subrange(i.pos() - (bl - bp), i.data().len() as int) }
pub open spec fn buf_sync(i: &InStream, buf: Seq<u8>, bl: int, bp: int) -> bool {
    &&& i.wf() && 0 <= bp <= bl <= buf.len() && bl <= i.pos()
    &&& forall|k: int| bp <= k < bl ==> #[trigger] buf[k] == i.data()[i.pos() - bl + k]
}
// sequence bookkeeping kept out of the large contexts
pub proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub proof fn lemma_put1(v0: Seq<u8>, v1: Seq<u8>, n: int, x: u8)
    requires 0 <= n < v0.len(), v1 == v0.update(n, x) ensures v1.subrange(0, n + 1) == v0.subrange(0, n) + seq![x]
{ assert(v1.subrange(0, n + 1) =~= v0.subrange(0, n) + seq![x]); }
pub proof fn lemma_put3(v0: Seq<u8>, v1: Seq<u8>, n: int, x: u8, y: u8, z: u8)
    requires 0 <= n, n + 3 <= v0.len(), v1 == v0.update(n, x).update(n + 1, y).update(n + 2, z)
    ensures v1.subrange(0, n + 3) == v0.subrange(0, n) + seq![x, y, z]
{ assert(v1.subrange(0, n + 3) =~= v0.subrange(0, n) + seq![x, y, z]); }
