@unit bdat
@use strings streams
@exc command_error
@rlimit 40
@obj Trc
@obj Tmo
@obj Trans
@obj Prog
@obj RespH
@type .*timeoutHandler.* = stru:Tmo
@type .*tracer.* = stru:Trc
@type .*progressListener.* = stru:Prog
@type .*socket>? ?[&*]? ?(const)? ?&? = stru:Sock
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::net::smtp::)?SMTPTransport> = stru:Trans
@type (const )?(vmime::net::smtp::)?SMTPTransport = stru:Trans
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::net::smtp::)?SMTPResponse> = stru:RespH
@type (const )?(vmime::net::smtp::)?SMTPResponse = stru:RespH
@type .*_extensions.*|.*std::map.* = drop
@struct vmime::net::smtp::SMTPCommand as Cmd
@struct vmime::net::smtp::SMTPResponse::state as RState
@struct vmime::net::smtp::SMTPConnection as Conn
@extrafield Conn.exts str
@struct vmime::net::smtp::SMTPChunkingOutputStreamAdapter as Chunker
@method vmime::net::socket::send = sock_send void mut ref
@method vmime::net::socket::sendRaw = sock_raw void mut ptr val
@method vmime::net::socket::disconnect = sock_close void mut
@method vmime::net::tracer::traceSend = trc_send void mut drop
@method vmime::net::tracer::traceSendBytes = trc_send void mut drop
@method vmime::utility::progressListener::start = pr_start void mut val
@method vmime::utility::progressListener::stop = pr_stop void mut val
@method vmime::utility::progressListener::progress = pr_progress void mut val val
@method vmime::net::smtp::SMTPConnection::getSocket = .m_socket stru:Sock
@method vmime::net::smtp::SMTPConnection::getTracer = .m_tracer stru:Trc
@method vmime::net::smtp::SMTPConnection::getTransport = cn_transport stru:Trans ref
@method vmime::net::smtp::SMTPConnection::hasExtension = cn_has bool ref ref drop
@method vmime::net::smtp::SMTPTransport::disconnect = tr_disconnect void mut
@method vmime::net::smtp::SMTPResponse::getCode = rp_code i32 ref
@method vmime::net::smtp::SMTPResponse::getText = rp_text str ref
@source src/vmime/net/smtp/SMTPCommand.cpp
@rust
#[verifier::external_body] pub struct Sock { x: u8 }
#[verifier::external_body] pub struct Tmo { x: u8 }
#[verifier::external_body] pub struct Trc { x: u8 }
#[verifier::external_body] pub struct Prog { x: u8 }
#[verifier::external_body] pub struct Trans { x: u8 }
#[verifier::external_body] pub struct RespH { x: u8 }
impl Sock { pub uninterp spec fn sent(&self) -> Seq<u8>; }      // every byte written to the peer
pub open spec fn same_in(s: &Sock, t: &Sock) -> bool { s.nread() == t.nread() && s.bad() == t.bad() }
impl Trc { pub uninterp spec fn set(&self) -> bool; }
impl Prog { pub uninterp spec fn set(&self) -> bool; }
impl RespH { pub uninterp spec fn code(&self) -> int; }
#[verifier::external_body] pub fn Trc_isset(x: &Trc) -> (r: bool) ensures r == x.set() { unimplemented!() }
#[verifier::external_body] pub fn Prog_isset(x: &Prog) -> (r: bool) ensures r == x.set() { unimplemented!() }
#[verifier::external_body] pub fn Trc_null() -> (r: Trc) ensures !r.set() { unimplemented!() }
#[verifier::external_body] pub fn RespH_null() -> (r: RespH) { unimplemented!() }
#[verifier::external_body] pub fn trc_send(x: &mut Trc) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn pr_start(x: &mut Prog, n: usize) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn pr_stop(x: &mut Prog, n: usize) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn pr_progress(x: &mut Prog, n: usize, m: usize) requires old(x).set() ensures final(x).set() { unimplemented!() }
#[verifier::external_body] pub fn sock_send(s: &mut Sock, b: &Vec<u8>) ensures final(s).sent() == old(s).sent() + b@, same_in(old(s), final(s)) { unimplemented!() }
#[verifier::external_body] pub fn sock_raw(s: &mut Sock, b: &Vec<u8>, o: usize, n: usize) requires o + n <= b.len() ensures final(s).sent() == old(s).sent() + b@.subrange(o as int, o + n), same_in(old(s), final(s)) { unimplemented!() }
#[verifier::external_body] pub fn sock_close(s: &mut Sock) ensures final(s).sent() == old(s).sent(), same_in(old(s), final(s)) { unimplemented!() }
#[verifier::external_body] pub fn cn_transport(c: &Conn) -> (r: Trans) { unimplemented!() }
#[verifier::external_body] pub fn cn_has(c: &Conn, s: &Vec<u8>) -> (r: bool) ensures r == ext(c.exts@, s@) { unimplemented!() }
pub uninterp spec fn ext(e: Seq<u8>, s: Seq<u8>) -> bool;
#[verifier::external_body] pub fn tr_disconnect(c: &mut Trans) { unimplemented!() }
#[verifier::external_body] pub fn rp_code(r: &RespH) -> (c: i32) ensures c == r.code() { unimplemented!() }
#[verifier::external_body] pub fn rp_text(r: &RespH) -> (c: Vec<u8>) { unimplemented!() }
@fn vmime::net::smtp::SMTPCommand::SMTPCommand as mk_cmd
@ensures
    res.m_text@ == text@, res.m_traceText@ == traceText@
@fn vmime::net::smtp::SMTPCommand::createCommand as create_cmd
@ensures
    res.m_text@ == text@
@fn vmime::net::smtp::SMTPCommand::BDAT as cmd_bdat
@ensures
    res.m_text@ == bdat_txt(chunkSize as int, last)
@fn vmime::net::smtp::SMTPCommand::writeToSocket as cmd_write
@ensures
    final(sok).sent() == old(sok).sent() + old(this).m_text@ + crlf(), same_in(old(sok), final(sok)),
@rust
pub open spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
// "BDAT " count [" LAST"]
pub open spec fn bdat_txt(n: int, last: bool) -> Seq<u8> { seq![66u8, 68u8, 65u8, 84u8, 32u8] + dec_digits(n as nat) + (if last { seq![32u8, 76u8, 65u8, 83u8, 84u8] } else { Seq::empty() }) }
@source src/vmime/net/smtp/SMTPConnection.cpp
@extern vmime::net::smtp::SMTPResponse::readResponse = read_resp? stru:RespH drop mut drop ref
@method vmime::net::smtp::SMTPResponse::getCurrentState = rp_state stru:RState ref
@rust
impl Sock { pub uninterp spec fn nread(&self) -> int; pub uninterp spec fn bad(&self) -> bool; }   // responses read so far; one of them was not 250
impl RespH { pub uninterp spec fn state(&self) -> Seq<u8>; }
#[verifier::external_body] pub fn rp_state(r: &RespH) -> (c: RState) ensures c.responseBuffer@ == r.state() { unimplemented!() }
// one response is taken from the socket (what it is: C33)
#[verifier::external_body] pub fn read_resp(s: &mut Sock, st: &RState) -> (r: Result<RespH, Exc>)
    ensures final(s).sent() == old(s).sent(), r matches Ok(v) ==> final(s).nread() == old(s).nread() + 1 && final(s).bad() == (old(s).bad() || v.code() != 250) { unimplemented!() }
#[verifier::external_body] pub fn clone_RState(m: &RState) -> (r: RState) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_RespH(m: &RespH) -> (r: RespH) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Trc(m: &Trc) -> (r: Trc) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Prog(m: &Prog) -> (r: Prog) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Conn(m: &Conn) -> (r: Conn) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Cmd(m: &Cmd) -> (r: Cmd) ensures r == *m { unimplemented!() }
@fn vmime::net::smtp::SMTPConnection::sendRequest as cn_send
@ensures
    final(this).m_socket.sent() == old(this).m_socket.sent() + old(cmd).m_text@ + crlf(), final(this).exts == old(this).exts, same_in(&old(this).m_socket, &final(this).m_socket),
@fn vmime::net::smtp::SMTPConnection::readResponse as cn_read
@throws
@ensures
    final(this).m_socket.sent() == old(this).m_socket.sent(), final(this).exts == old(this).exts,
    res matches Ok(v) ==> final(this).m_socket.nread() == old(this).m_socket.nread() + 1 && final(this).m_socket.bad() == (old(this).m_socket.bad() || v.code() != 250) && final(this).m_responseState.responseBuffer@ == v.state(),
@source src/vmime/net/smtp/SMTPChunkingOutputStreamAdapter.cpp
@rust
pub open spec fn chunk(c: Seq<u8>, last: bool) -> Seq<u8> { bdat_txt(c.len() as int, last) + crlf() + c }
pub open spec fn wire(cs: Seq<Seq<u8>>) -> Seq<u8> decreases cs.len() { if cs.len() == 0 { Seq::empty() } else { wire(cs.drop_last()) + chunk(cs.last(), false) } }
pub open spec fn flat(cs: Seq<Seq<u8>>) -> Seq<u8> decreases cs.len() { if cs.len() == 0 { Seq::empty() } else { flat(cs.drop_last()) + cs.last() } }
pub open spec fn pipe(c: &Conn) -> bool { ext(c.exts@, s_pipelining()) }
pub open spec fn s_pipelining() -> Seq<u8> { seq![80u8, 73u8, 80u8, 69u8, 76u8, 73u8, 78u8, 73u8, 78u8, 71u8] }
// what the peer was sent (w0: before the message), for the bytes w written so far: complete chunks, the rest is in the buffer
pub open spec fn inv(t: &Chunker, w0: Seq<u8>, r0: int, cs: Seq<Seq<u8>>, w: Seq<u8>) -> bool {
    &&& t.m_buffer.len() == 262144 && t.m_bufferSize < 262144 && t.m_chunkCount == cs.len() && cs.len() <= w.len() && w.len() < 0x8000_0000
    &&& t.m_connection.m_socket.sent() == w0 + wire(cs) && w == flat(cs) + t.m_buffer@.take(t.m_bufferSize as int)
    &&& t.m_connection.m_socket.nread() == (if pipe(&t.m_connection) { r0 } else { r0 + cs.len() }) && !t.m_connection.m_socket.bad()
    &&& forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).len() > 0
}
pub open spec fn written(t: &Chunker, w0: Seq<u8>, r0: int, w: Seq<u8>) -> bool { exists|cs: Seq<Seq<u8>>| #[trigger] inv(t, w0, r0, cs, w) }
@fn vmime::net::smtp::SMTPChunkingOutputStreamAdapter::sendChunk as ch_send
@throws
@isolate
@requires
    data_o + count <= data.len(), old(this).m_chunkCount < 0x8000_0000,
@ensures
    res is Ok && (count != 0 || last) ==> ({ let s = &final(this).m_connection.m_socket; let s0 = &old(this).m_connection.m_socket;
        s.sent() == s0.sent() + chunk(data@.subrange(data_o as int, data_o + count), last) && final(this).m_chunkCount == old(this).m_chunkCount + 1
        && s.nread() == s0.nread() + (if !pipe(&old(this).m_connection) { 1int } else if last { old(this).m_chunkCount + 1 } else { 0int })
        && (!s0.bad() ==> !s.bad()) }),
    res is Ok && count == 0 && !last ==> *final(this) == *old(this),
    final(this).m_connection.exts == old(this).m_connection.exts, final(this).m_buffer == old(this).m_buffer, final(this).m_bufferSize == old(this).m_bufferSize,
@hint start
    let ghost d0 = data@.subrange(data_o as int, data_o + count); let ghost s0 = this.m_connection.m_socket.sent(); let ghost e0 = this.m_connection.exts; let ghost n0 = this.m_connection.m_socket.nread(); let ghost b0 = this.m_connection.m_socket.bad();
    let ghost bf = this.m_buffer; let ghost bs = this.m_bufferSize; let ghost c0 = this.m_chunkCount;
@hint after ~sock_raw~
    proof { lemma_assoc4(s0, bdat_txt(count as int, last), crlf(), d0); }
    let ghost s1 = this.m_connection.m_socket.sent();
@loop 1 invariant
    i <= this.m_chunkCount, this.m_chunkCount == c0 + 1, s1 == this.m_connection.m_socket.sent(), e0 == this.m_connection.exts, this.m_buffer == bf, this.m_bufferSize == bs, old(this).m_connection.exts == e0, old(this).m_buffer == bf, old(this).m_bufferSize == bs,
    this.m_connection.m_socket.nread() == n0 + i, this.m_connection.m_socket.bad() ==> b0 || invalidReply,
@loop 1 decreases
    this.m_chunkCount - i
@fn vmime::net::smtp::SMTPChunkingOutputStreamAdapter::writeImpl as ch_write
@throws
@isolate
@extraparam Ghost(w0): Ghost<Seq<u8>>
@extraparam Ghost(r0): Ghost<int>
@extraparam Ghost(cs): Ghost<Seq<Seq<u8>>>
@extraparam Ghost(w): Ghost<Seq<u8>>
@requires
    inv(old(this), w0, r0, cs, w), data_o + count <= data.len(), w.len() + count < 0x8000_0000,
@ensures
    res is Ok ==> written(final(this), w0, r0, w + data@.subrange(data_o as int, data_o + count)),
@hint start
    let ghost mut g = cs;
    proof { assert(w + data@.subrange(data_o as int, data_o as int) =~= w); }
@loop 1 invariant
    data_o + count <= data.len(), w.len() + count < 0x8000_0000, data_o <= curData, curData + curCount == data_o + count,
    inv(this, w0, r0, g, w + data@.subrange(data_o as int, curData as int)),
@loop 1 decreases
    curCount
@hint loop 1 begin
    let ghost cd = curData as int; let ghost b0 = this.m_buffer@; let ghost n0 = this.m_bufferSize as int; let ghost wd = w + data@.subrange(data_o as int, cd); let ghost t0 = *this;
@hint before ~if \(this.m_bufferSize >=~
    let ghost x = data@.subrange(cd, curData as int); let ghost wd2 = w + data@.subrange(data_o as int, curData as int); let ghost t1 = *this;
    proof {
        assert(this.m_buffer@.take(this.m_bufferSize as int) =~= b0.take(n0) + x);
        assert(wd2 =~= wd + x);
        assert(flat(g) + b0.take(n0) + x =~= flat(g) + (b0.take(n0) + x));
    }
@hint before ~this.m_bufferSize = 0usize~
    let ghost c = this.m_buffer@.subrange(0, this.m_bufferSize as int); let ghost g1 = g;
    proof {
        g = g1.push(c);
        lemma_push(g1, c);
        assert(c =~= this.m_buffer@.take(this.m_bufferSize as int));
        assert(this.m_buffer@.take(0) =~= Seq::<u8>::empty());
        assert(wd2 =~= flat(g) + Seq::<u8>::empty());
        assert(w0 + wire(g) =~= w0 + wire(g1) + chunk(c, false));
    }
@fn vmime::net::smtp::SMTPChunkingOutputStreamAdapter::flush as ch_flush
@throws
@isolate
@extraparam Ghost(w0): Ghost<Seq<u8>>
@extraparam Ghost(r0): Ghost<int>
@extraparam Ghost(cs): Ghost<Seq<Seq<u8>>>
@extraparam Ghost(w): Ghost<Seq<u8>>
@requires
    inv(old(this), w0, r0, cs, w),
@ensures
    res is Ok ==> sent_all(&final(this).m_connection.m_socket, w0, r0, cs, old(this).m_buffer@.take(old(this).m_bufferSize as int), w),
@hint start
    let ghost l = this.m_buffer@.take(this.m_bufferSize as int);
    proof { assert(this.m_buffer@.subrange(0, this.m_bufferSize as int) =~= l); assert((w0 + wire(cs)) + chunk(l, true) =~= w0 + (wire(cs) + chunk(l, true))); }
@rust
// everything was sent: chunks cs, then l as the last one; every chunk was answered by 250
pub open spec fn sent_all(s: &Sock, w0: Seq<u8>, r0: int, cs: Seq<Seq<u8>>, l: Seq<u8>, w: Seq<u8>) -> bool {
    s.sent() == w0 + (wire(cs) + chunk(l, true)) && w == flat(cs) + l && s.nread() == r0 + cs.len() + 1 && !s.bad() && forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).len() > 0
}
pub proof fn lemma_assoc4(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>) ensures ((a + b) + c) + d == a + ((b + c) + d) { assert(((a + b) + c) + d =~= a + ((b + c) + d)); }
pub proof fn lemma_push(g: Seq<Seq<u8>>, c: Seq<u8>) ensures wire(g.push(c)) == wire(g) + chunk(c, false), flat(g.push(c)) == flat(g) + c
{ assert(g.push(c).drop_last() =~= g); assert(g.push(c).last() == c); }
@fn vmime::net::smtp::SMTPChunkingOutputStreamAdapter::getBlockSize as ch_block
@ensures
    res == 262144
@fn vmime::net::smtp::SMTPChunkingOutputStreamAdapter::SMTPChunkingOutputStreamAdapter ~size_t~ as ch_new
@requires
    !old(conn).m_socket.bad()
@ensures
    inv(&res, old(conn).m_socket.sent(), old(conn).m_socket.nread(), Seq::empty(), Seq::empty()),
@hint before ~return this~
    proof { let e = Seq::<u8>::empty(); assert(this.m_buffer@.take(0) =~= e); assert(old(conn).m_socket.sent() + e =~= old(conn).m_socket.sent()); assert(e + e =~= e); }
