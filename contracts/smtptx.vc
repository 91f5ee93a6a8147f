@unit smtptx
@use strings
@exc command_error
@rlimit 60
@mutobj Sock
@obj Cmd
@obj RespH
@mutobj Conn
@obj Mbox
@obj Dsn
@obj Opts
@type .*SMTPSendOptions.*|.*sendOptions.* = stru:Opts
@type .*DSNAttributes.* = stru:Dsn
@type .*mailboxList.* = stru:MList
@type .*mailbox.* = stru:Mbox
@type .*SMTPServiceInfos::props.* = stru:Settings
@type .*serviceInfos::property.* = stru:PropId
@type .*serviceInfos.*|.*SMTPServiceInfos.* = stru:Infos
@type .*timeoutHandler.*|.*tracer.*|.*onnectionInfos.*|.*authenticator.*|.*_extensions.*|.*std::map.*|.*progressListener.*|.*net::session.*|.*inputStream.*|.*outputStreamSocketAdapter.*|.*dotFilteredOutputStream.* = drop
@type .*SMTPCommandError.*|.*SMTPMessageSizeExceeds.*|.*weak_ptr.* = drop
@type .*socket>? ?[&*]? ?(const)? ?&? = stru:Sock
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::net::smtp::)?SMTPCommand> ?&? = stru:Cmd
@type (const )?(vmime::net::smtp::)?SMTPCommand ?&? = stru:Cmd
@type .*SMTPCommandSet ?>? ?[&*]? = stru:CmdSet
@type .*SMTPResponse::state.* = drop
@type .*SMTPResponse ?>? ?[&*]? = stru:RespH
@struct vmime::net::smtp::SMTPCommandSet as CmdSet
@struct vmime::net::smtp::SMTPConnection as Conn
@struct vmime::net::smtp::SMTPTransport as Trans
@struct vmime::net::smtp::SMTPServiceInfos::props as Settings
@extrafield Conn.exts str
@extrafield Conn.there bool
@method vmime::net::smtp::SMTPCommand::writeToSocket = cmd_write? void ref mut drop
@method vmime::net::smtp::SMTPCommand::getText = cmd_text str ref
@extern vmime::net::smtp::SMTPCommand::RSET = cmd_rset stru:Cmd
@extern vmime::net::smtp::SMTPCommand::DATA = cmd_data stru:Cmd
@extern vmime::net::smtp::SMTPCommand::QUIT = cmd_quit stru:Cmd
@extern vmime::net::smtp::SMTPCommand::NOOP = cmd_noop stru:Cmd
@extern vmime::net::smtp::SMTPCommand::MAIL = cmd_mail stru:Cmd ref val val ref
@extern vmime::net::smtp::SMTPCommand::RCPT = cmd_rcpt stru:Cmd ref val ref
@method vmime::net::smtp::SMTPResponse::getCode = rp_code i32 ref
@method vmime::net::smtp::SMTPResponse::getText = rp_text str ref
@extern vmime::net::smtp::SMTPResponse::readResponse = read_resp? stru:RespH drop mut drop drop
@method vmime::net::smtp::SMTPResponse::getCurrentState = rp_state drop drop
@method vmime::net::smtp::SMTPConnection::getSocket = .m_socket stru:Sock
@method vmime::net::smtp::SMTPConnection::getTracer = .m_tracer drop
@method vmime::net::smtp::SMTPConnection::hasExtension = cn_has bool ref ref drop
@method vmime::net::socket::disconnect = sock_close void mut
@method vmime::net::socket::isConnected = sock_is bool ref
@method vmime::net::socket::send = sock_send? void mut ref
@method vmime::net::smtp::SMTPTransport::getInfos = get_infos stru:Infos ref
@method vmime::net::smtp::SMTPServiceInfos::getProperties = get_props stru:Settings ref
@method vmime::net::serviceInfos::getPropertyValue ~bool~ = get_bool bool ref drop ref
@method vmime::mailboxList::isEmpty = ml_empty bool ref
@method vmime::mailboxList::getMailboxCount = ml_count usize ref
@method vmime::mailboxList::getMailboxAt = ml_at stru:Mbox ref val
@method vmime::mailbox::isEmpty = mb_empty bool ref
@extern vmime::net::smtp::SMTPTransport::mailboxNeedsUTF8 = mb_utf8 bool ref
@method vmime::net::smtp::SMTPSendOptions::getDSNAttributes = opt_dsn stru:Dsn ref
@extern vmime::utility::bufferedStreamCopy = stream_copy? usize drop drop val drop +this.m_connection.m_socket
@method vmime::utility::dotFilteredOutputStream::flush = dot_flush? void drop +this.m_connection.m_socket
@method vmime::utility::outputStream::flush = dot_flush? void drop +this.m_connection.m_socket
@rust
pub fn clone_CmdSet(c: &CmdSet) -> (r: CmdSet) ensures r == *c { CmdSet { m_pipeline: c.m_pipeline, m_started: c.m_started, m_commands: clone_cmds(&c.m_commands), m_lastCommandSent: clone_Cmd(&c.m_lastCommandSent) } }
#[verifier::external_body] pub fn clone_cmds(c: &Vec<Cmd>) -> (r: Vec<Cmd>) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn Cmd_null() -> (r: Cmd) { unimplemented!() }
#[verifier::external_body] pub struct Sock { x: u8 }
#[verifier::external_body] pub struct Cmd { x: u8 }
#[verifier::external_body] pub struct RespH { x: u8 }
#[verifier::external_body] pub struct Mbox { x: u8 }
#[verifier::external_body] pub struct MList { x: u8 }
#[verifier::external_body] pub struct Dsn { x: u8 }
#[verifier::external_body] pub struct Opts { x: u8 }
#[verifier::external_body] pub struct Infos { x: u8 }
#[verifier::external_body] pub struct PropId { x: u8 }
impl Sock {
    pub uninterp spec fn set(&self) -> bool;
    pub uninterp spec fn cmds(&self) -> Seq<Seq<u8>>;    // the commands sent to the server on this connection, and the end-of-data marks
    pub uninterp spec fn nread(&self) -> int;            // replies read
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn held(&self) -> bool;            // the filter may still hold message bytes
    pub uninterp spec fn dead(&self) -> bool;            // closed: nothing can be exchanged on it any more
}
// code of the reply of the server to the k-th command
pub uninterp spec fn rc(id: int, k: int) -> int;
pub open spec fn t_data() -> Seq<u8> { seq![68u8, 65u8, 84u8, 65u8] }
pub open spec fn t_rset() -> Seq<u8> { seq![82u8, 83u8, 69u8, 84u8] }
pub open spec fn eod() -> Seq<u8> { seq![13u8, 10u8, 46u8, 13u8, 10u8] }
// the server takes what it receives as message data
pub open spec fn dm(c: Seq<Seq<u8>>, id: int) -> bool decreases c.len() {
    if c.len() == 0 { false } else if c.last() == eod() { false } else if c.last() == t_data() && rc(id, c.len() - 1) == 354 { true } else { dm(c.drop_last(), id) }
}
pub open spec fn insync(s: &Sock) -> bool { s.nread() == s.cmds().len() && !dm(s.cmds(), s.id()) }
pub open spec fn usable(c: &Conn) -> bool { c.there && c.m_socket.set() && c.m_authenticated }
pub open spec fn gone(t: &Trans) -> bool { !t.m_connection.there || !t.m_connection.m_socket.set() || t.m_connection.m_socket.dead() }
#[verifier::external_body] pub fn Sock_isset(s: &Sock) -> (r: bool) ensures r == s.set() { unimplemented!() }
#[verifier::external_body] pub fn Sock_null() -> (r: Sock) ensures !r.set() { unimplemented!() }
pub fn Conn_isset(c: &Conn) -> (r: bool) ensures r == c.there { c.there }
#[verifier::external_body] pub fn Conn_null() -> (r: Conn) ensures !r.there { unimplemented!() }
#[verifier::external_body] pub fn clone_RespH(c: &RespH) -> (r: RespH) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn clone_Cmd(c: &Cmd) -> (r: Cmd) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn RespH_null() -> (r: RespH) { unimplemented!() }
#[verifier::external_body] pub fn Dsn_null() -> (r: Dsn) ensures r == no_dsn() { unimplemented!() }
impl Cmd { pub uninterp spec fn text(&self) -> Seq<u8>; }
impl RespH { pub uninterp spec fn code(&self) -> int; }
// one command is one line for the server; a socket on which sending fails is closed
#[verifier::external_body] pub fn cmd_write(c: &Cmd, s: &mut Sock) -> (r: Result<(), Exc>)
    ensures final(s).id() == old(s).id(), final(s).nread() == old(s).nread(), final(s).set() == old(s).set(), r is Ok ==> final(s).cmds() == old(s).cmds().push(c.text()), r is Err ==> final(s).dead() { unimplemented!() }
#[verifier::external_body] pub fn sock_send(s: &mut Sock, b: &Vec<u8>) -> (r: Result<(), Exc>)
    requires b@ == eod() && !old(s).held() && dm(old(s).cmds(), old(s).id())
    ensures final(s).id() == old(s).id(), final(s).nread() == old(s).nread(), final(s).set() == old(s).set(), r is Ok ==> final(s).cmds() == old(s).cmds().push(b@) { unimplemented!() }
// one reply is taken from the socket (what it is: C33); waiting for one which is not due is an error
#[verifier::external_body] pub fn read_resp(s: &mut Sock) -> (r: Result<RespH, Exc>)
    requires old(s).nread() < old(s).cmds().len()
    ensures final(s).id() == old(s).id(), final(s).cmds() == old(s).cmds(), final(s).set() == old(s).set(), r matches Ok(v) ==> final(s).nread() == old(s).nread() + 1 && v.code() == rc(old(s).id(), old(s).nread()) { unimplemented!() }
#[verifier::external_body] pub fn sock_close(s: &mut Sock) ensures final(s).dead(), final(s).set() == old(s).set() { unimplemented!() }
#[verifier::external_body] pub fn sock_is(s: &Sock) -> (r: bool) ensures !r ==> s.dead() { unimplemented!() }
#[verifier::external_body] pub fn cmd_text(c: &Cmd) -> (r: Vec<u8>) ensures r@ == c.text() { unimplemented!() }
#[verifier::external_body] pub fn cmd_rset() -> (r: Cmd) ensures r.text() == t_rset() { unimplemented!() }
#[verifier::external_body] pub fn cmd_data() -> (r: Cmd) ensures r.text() == t_data() { unimplemented!() }
#[verifier::external_body] pub fn cmd_quit() -> (r: Cmd) { unimplemented!() }
pub uninterp spec fn noop_txt() -> Seq<u8>;
#[verifier::external_body] pub fn cmd_noop() -> (r: Cmd) ensures r.text() == noop_txt(), plain(r.text()) { unimplemented!() }
pub uninterp spec fn mail_txt(m: Mbox, utf8: bool, size: usize, d: Dsn) -> Seq<u8>;
pub uninterp spec fn rcpt_txt(m: Mbox, utf8: bool, d: Dsn) -> Seq<u8>;
// neither is DATA nor the end of data
#[verifier::external_body] pub fn cmd_mail(m: &Mbox, utf8: bool, size: usize, d: &Dsn) -> (r: Cmd) ensures r.text() == mail_txt(*m, utf8, size, *d), r.text() != t_data(), r.text() != eod() { unimplemented!() }
#[verifier::external_body] pub fn cmd_rcpt(m: &Mbox, utf8: bool, d: &Dsn) -> (r: Cmd) ensures r.text() == rcpt_txt(*m, utf8, *d), r.text() != t_data(), r.text() != eod() { unimplemented!() }
#[verifier::external_body] pub fn rp_code(r: &RespH) -> (c: i32) ensures c == r.code() { unimplemented!() }
#[verifier::external_body] pub fn rp_text(r: &RespH) -> (c: Vec<u8>) { unimplemented!() }
pub uninterp spec fn ext(e: Seq<u8>, s: Seq<u8>) -> bool;
#[verifier::external_body] pub fn cn_has(c: &Conn, s: &Vec<u8>) -> (r: bool) ensures r == ext(c.exts@, s@) { unimplemented!() }
impl MList { pub uninterp spec fn mbs(&self) -> Seq<Mbox>; }
#[verifier::external_body] pub fn ml_empty(m: &MList) -> (r: bool) ensures r == (m.mbs().len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn ml_count(m: &MList) -> (r: usize) ensures r == m.mbs().len() { unimplemented!() }
#[verifier::external_body] pub fn ml_at(m: &MList, i: usize) -> (r: Mbox) requires i < m.mbs().len() ensures r == m.mbs()[i as int] { unimplemented!() }
pub uninterp spec fn no_mb(m: Mbox) -> bool;
#[verifier::external_body] pub fn mb_empty(m: &Mbox) -> (r: bool) ensures r == no_mb(*m) { unimplemented!() }
#[verifier::external_body] pub fn mb_utf8(m: &Mbox) -> (r: bool) { unimplemented!() }
impl Opts { pub uninterp spec fn set(&self) -> bool; pub uninterp spec fn dsn(&self) -> Dsn; }
pub uninterp spec fn no_dsn() -> Dsn;
pub open spec fn dsn_of(o: Opts) -> Dsn { if o.set() { o.dsn() } else { no_dsn() } }
#[verifier::external_body] pub fn clone_Dsn(c: &Dsn) -> (r: Dsn) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn Opts_cast(o: &Opts) -> (r: Opts) { unimplemented!() }
#[verifier::external_body] pub fn Opts_isset(o: &Opts) -> (r: bool) ensures r == o.set() { unimplemented!() }
#[verifier::external_body] pub fn Dsn_isset(o: &Dsn) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn opt_dsn(o: &Opts) -> (r: Dsn) ensures r == o.dsn() { unimplemented!() }
#[verifier::external_body] pub fn get_infos(t: &Trans) -> (r: Infos) { unimplemented!() }
#[verifier::external_body] pub fn get_props(i: &Infos) -> (r: Settings) { unimplemented!() }
#[verifier::external_body] pub fn get_bool(i: &Infos, p: &PropId) -> (r: bool) { unimplemented!() }
// message data (what is written: C11) goes to the server as data, not as commands
pub open spec fn same_dialog(a: &Sock, b: &Sock) -> bool { a.cmds() == b.cmds() && a.id() == b.id() && a.nread() == b.nread() && a.set() == b.set() }
#[verifier::external_body] pub fn stream_copy(size: usize, s: &mut Sock) -> (r: Result<usize, Exc>) requires dm(old(s).cmds(), old(s).id()) ensures same_dialog(old(s), final(s)) { unimplemented!() }
#[verifier::external_body] pub fn dot_flush(s: &mut Sock) -> (r: Result<(), Exc>) requires dm(old(s).cmds(), old(s).id()) ensures r is Ok ==> !final(s).held(), same_dialog(old(s), final(s)) { unimplemented!() }
pub open spec fn texts(c: Seq<Cmd>) -> Seq<Seq<u8>> { c.map_values(|x: Cmd| x.text()) }
pub proof fn lemma_texts_push(a: Seq<Cmd>, c: Cmd) ensures texts(a.push(c)) == texts(a).push(c.text()) { assert(texts(a.push(c)) =~= texts(a).push(c.text())); }
// one reply for each of n commands, and one for DATA, still have to be read
pub open spec fn due(s: &Sock, n: int, data: bool) -> bool {
    if data { s.cmds().len() > 0 && s.cmds().last() == t_data() && !dm(s.cmds().drop_last(), s.id()) && s.nread() + n + 1 == s.cmds().len() } else { !dm(s.cmds(), s.id()) && s.nread() + n == s.cmds().len() }
}
pub open spec fn envelope_from(sender: Mbox, expeditor: Mbox) -> Mbox { if no_mb(sender) { expeditor } else { sender } }
pub open spec fn w_(nr: bool) -> int { if nr { 1 } else { 0 } }
// the commands of an envelope: [RSET] MAIL RCPT* [DATA]
pub open spec fn env_is(c: Seq<Seq<u8>>, nr: bool, mt: Seq<u8>, rs: Seq<Mbox>, u: bool, d: Dsn, data: bool) -> bool {
    &&& c.len() == w_(nr) + 1 + rs.len() + w_(data)
    &&& nr ==> c[0] == t_rset()
    &&& c[w_(nr)] == mt
    &&& forall|k: int| 0 <= k < rs.len() ==> #[trigger] c[w_(nr) + 1 + k] == rcpt_txt(rs[k], u, d)
    &&& data ==> c.last() == t_data()
}
// every one of them had a positive reply
pub open spec fn accepted(id: int, b: int, nr: bool, n: int, data: bool) -> bool {
    &&& nr ==> rc(id, b) == 250 || rc(id, b) == 200
    &&& rc(id, b + w_(nr)) == 250
    &&& forall|k: int| 0 <= k < n ==> ok_rcpt(#[trigger] rc(id, b + w_(nr) + 1 + k))
    &&& data ==> rc(id, b + w_(nr) + 1 + n) == 354
}
pub open spec fn ok_rcpt(c: int) -> bool { c == 250 || c == 251 }
pub open spec fn plain(t: Seq<u8>) -> bool { t != t_data() && t != eod() }
// k commands of cs have been answered
pub open spec fn at(c: &CmdSet, n: &Conn, cs: Seq<Cmd>, c0: Seq<Seq<u8>>, id: int, k: int) -> bool {
    &&& usable(n) && c.m_commands@ == cs.skip(k) && c.m_started == (k > 0) && n.m_socket.nread() == c0.len() + k && n.m_socket.id() == id
    &&& n.m_socket.cmds() == c0 + (if c.m_pipeline && k > 0 { texts(cs) } else { texts(cs).take(k) })
}
pub proof fn lemma_seqs(cs: Seq<Cmd>, c0: Seq<Seq<u8>>, k: int)
    requires 0 <= k < cs.len()
    ensures cs.skip(k).skip(1) == cs.skip(k + 1), cs.skip(k)[0] == cs[k], (c0 + texts(cs).take(k)).push(cs[k].text()) == c0 + texts(cs).take(k + 1), c0 + texts(cs).take(0) == c0, cs.skip(0) == cs, cs.skip(k).len() > 0, c0 + texts(cs).take(cs.len() as int) == c0 + texts(cs),
{
    assert(cs.skip(k).skip(1) =~= cs.skip(k + 1)); assert((c0 + texts(cs).take(k)).push(cs[k].text()) =~= c0 + texts(cs).take(k + 1)); assert(c0 + texts(cs).take(0) =~= c0); assert(cs.skip(0) =~= cs); assert(texts(cs).take(cs.len() as int) =~= texts(cs));
}
// the server is not left in data mode by the commands before DATA
pub proof fn lemma_quiet(c0: Seq<Seq<u8>>, e: Seq<Seq<u8>>, id: int, data: bool)
    requires !dm(c0, id), e.len() > 0, data ==> e.last() == t_data(), forall|k: int| 0 <= k < e.len() - w_(data) ==> plain(#[trigger] e[k])
    ensures forall|j: int| 0 <= j <= e.len() - w_(data) ==> !dm(#[trigger] (c0 + e.take(j)), id), !data ==> !dm(c0 + e, id), data ==> (c0 + e).last() == t_data() && !dm((c0 + e).drop_last(), id) && dm(c0 + e, id) == (rc(id, c0.len() + e.len() - 1) == 354),
{
    assert forall|j: int| 0 <= j <= e.len() - w_(data) implies !dm(#[trigger] (c0 + e.take(j)), id) by { lemma_dm(c0, e.take(j), id); }
    if data { assert((c0 + e).drop_last() =~= c0 + e.drop_last()); lemma_dm(c0, e.drop_last(), id); assert(t_data().len() != eod().len()); } else { lemma_dm(c0, e, id); }
}
pub proof fn lemma_plain() ensures plain(t_rset()) { assert(t_rset()[0] != t_data()[0]); assert(t_rset().len() != eod().len()); }
pub proof fn lemma_dm(c: Seq<Seq<u8>>, x: Seq<Seq<u8>>, id: int)
    requires forall|k: int| 0 <= k < x.len() ==> plain(#[trigger] x[k])
    ensures dm(c + x, id) == dm(c, id)
    decreases x.len()
{
    if x.len() == 0 { assert(c + x =~= c); } else { lemma_dm(c, x.drop_last(), id); assert((c + x).drop_last() =~= c + x.drop_last()); assert((c + x).last() == x.last()); assert(plain(x[x.len() - 1])); }
}
@source src/vmime/net/smtp/SMTPCommandSet.cpp
@fn vmime::net::smtp::SMTPCommandSet::create as cs_create
@ensures
    res.m_pipeline == pipeline, !res.m_started, res.m_commands.len() == 0
@fn vmime::net::smtp::SMTPCommandSet::SMTPCommandSet as cs_new
@ensures
    res.m_pipeline == pipeline, !res.m_started, res.m_commands.len() == 0
@fn vmime::net::smtp::SMTPCommandSet::addCommand as cs_add
@throws
@ensures
    !old(this).m_started ==> res is Ok && final(this).m_commands@ == old(this).m_commands@.push(*cmd), final(this).m_pipeline == old(this).m_pipeline, final(this).m_started == old(this).m_started,
@fn vmime::net::smtp::SMTPCommandSet::getLastCommandSent as cs_last
@fn vmime::net::smtp::SMTPCommandSet::writeToSocket as cs_write
@throws
@loop 1 invariant
    it <= this.m_commands.len(), *this == *old(this), sok.id() == old(sok).id(), sok.nread() == old(sok).nread(), sok.set() == old(sok).set(), sok.cmds() == old(sok).cmds() + texts(this.m_commands@.take(it as int)),
@loop 1 decreases
    this.m_commands.len() - it
@hint loop 1 pre
    proof { assert(texts(this.m_commands@.take(0)) =~= Seq::<Seq<u8>>::empty()); assert(sok.cmds() + Seq::<Seq<u8>>::empty() =~= sok.cmds()); }
@hint loop 1 begin
    proof { assert(this.m_commands@.take(it + 1) =~= this.m_commands@.take(it as int).push(this.m_commands@[it as int])); lemma_texts_push(this.m_commands@.take(it as int), this.m_commands@[it as int]);
        let a = sok.cmds(); let b = texts(this.m_commands@.take(it as int)); assert(old(sok).cmds() + b.push(this.m_commands@[it as int].text()) =~= (old(sok).cmds() + b).push(this.m_commands@[it as int].text())); }
@hint loop 1 after
    proof { assert(this.m_commands@.take(this.m_commands.len() as int) =~= this.m_commands@); }
@ensures
    final(sok).id() == old(sok).id(), final(sok).nread() == old(sok).nread(), final(sok).set() == old(sok).set(), res is Err ==> final(sok).dead(),
    res is Ok ==> final(this).m_started && final(this).m_pipeline == old(this).m_pipeline,
    res is Ok && old(this).m_commands.len() > 0 ==> final(this).m_commands@ == old(this).m_commands@.skip(1) && final(this).m_lastCommandSent == old(this).m_commands@[0],
    res is Ok && old(this).m_pipeline && !old(this).m_started ==> final(sok).cmds() == old(sok).cmds() + texts(old(this).m_commands@),
    res is Ok && old(this).m_pipeline && old(this).m_started ==> final(sok).cmds() == old(sok).cmds(),
    res is Ok && !old(this).m_pipeline && old(this).m_commands.len() > 0 ==> final(sok).cmds() == old(sok).cmds().push(old(this).m_commands@[0].text()),
@source src/vmime/net/smtp/SMTPConnection.cpp
@fn vmime::net::smtp::SMTPConnection::isConnected as cn_is
@ensures
    res ==> this.m_socket.set() && this.m_authenticated, !res ==> !this.m_socket.set() || !this.m_authenticated || this.m_socket.dead(),
@fn vmime::net::smtp::SMTPConnection::sendRequest as cn_send
@throws
@ensures
    res is Ok ==> final(this).m_socket.cmds() == old(this).m_socket.cmds().push(cmd.text()), res is Err ==> final(this).m_socket.dead(),
    final(this).m_socket.set() == old(this).m_socket.set(), final(this).m_socket.nread() == old(this).m_socket.nread(), final(this).m_socket.id() == old(this).m_socket.id(), final(this).m_authenticated == old(this).m_authenticated, final(this).there == old(this).there,
@fn vmime::net::smtp::SMTPConnection::internalDisconnect as cn_idisc
@throws
@ensures
    res is Ok, !final(this).m_socket.set(),
@fn vmime::net::smtp::SMTPConnection::disconnect as cn_disc
@throws
@ensures
    res is Ok ==> !final(this).m_socket.set(), res is Err ==> *final(this) == *old(this) && (!old(this).m_socket.set() || !old(this).m_authenticated || old(this).m_socket.dead()),
@fn vmime::net::smtp::SMTPConnection::readResponse as cn_read
@throws
@requires
    old(this).m_socket.nread() < old(this).m_socket.cmds().len()
@ensures
    res matches Ok(v) ==> final(this).m_socket.nread() == old(this).m_socket.nread() + 1 && v.code() == rc(old(this).m_socket.id(), old(this).m_socket.nread()) && final(this).m_socket.cmds() == old(this).m_socket.cmds() && final(this).m_socket.id() == old(this).m_socket.id(),
    res is Err ==> final(this).m_socket.dead(), final(this).m_socket.set() == old(this).m_socket.set(), final(this).exts == old(this).exts, final(this).m_authenticated == old(this).m_authenticated, final(this).there == old(this).there,
@source src/vmime/net/smtp/SMTPTransport.cpp
@fn vmime::net::smtp::SMTPTransport::isConnected as tr_is
@ensures
    res ==> usable(&this.m_connection), !res ==> gone(this) || !this.m_connection.m_authenticated,
@fn vmime::net::smtp::SMTPTransport::disconnect as tr_disc
@throws
@ensures
    res is Ok ==> gone(final(this)), res is Err ==> *final(this) == *old(this) && (gone(old(this)) || !old(this).m_connection.m_authenticated), final(this).m_needReset == old(this).m_needReset,
@fn vmime::net::smtp::SMTPTransport::skipPipelinedReplies as tr_skip
@throws
@requires
    usable(&old(this).m_connection), due(&old(this).m_connection.m_socket, rcptCount as int, sentDATACommand),
@ensures
    gone(final(this)) || usable(&final(this).m_connection) && insync(&final(this).m_connection.m_socket), final(this).m_needReset == old(this).m_needReset,
@loop 1 invariant
    i <= rcptCount, usable(&this.m_connection), due(&this.m_connection.m_socket, rcptCount - i, sentDATACommand), this.m_needReset == old(this).m_needReset,
@loop 1 decreases
    rcptCount - i
@fn vmime::net::smtp::SMTPTransport::sendEnvelope as tr_env
@throws
@requires
    usable(&old(this).m_connection), insync(&old(this).m_connection.m_socket),
@ensures
    final(this).m_needReset || same_dialog(&old(this).m_connection.m_socket, &final(this).m_connection.m_socket) && usable(&final(this).m_connection),
    old(this).m_needReset ==> final(this).m_needReset,
    res is Err ==> gone(final(this)) || usable(&final(this).m_connection) && insync(&final(this).m_connection.m_socket),
    res is Ok ==> ({ let s0 = &old(this).m_connection.m_socket; let s = &final(this).m_connection.m_socket; let k = s0.cmds().len() as int; let nr = old(this).m_needReset;
        usable(&final(this).m_connection) && s.id() == s0.id() && s.nread() == s.cmds().len() && s.cmds().take(k) == s0.cmds() && accepted(s.id(), k, nr, recipients.mbs().len() as int, sendDATACommand)
        && dm(s.cmds(), s.id()) == sendDATACommand
        && exists|u: bool, z: usize, d: Dsn| env_is(s.cmds().skip(k), nr, #[trigger] mail_txt(envelope_from(*sender, *expeditor), u, z, d), recipients.mbs(), u, d, sendDATACommand) }),
@hint start
    let ghost c0 = this.m_connection.m_socket.cmds(); let ghost n0 = c0.len() as int; let ghost id = this.m_connection.m_socket.id(); let ghost nr = this.m_needReset; let ghost rs = recipients.mbs(); let ghost w: int = if nr { 1 } else { 0 };
    let ghost s00 = this.m_connection.m_socket;
@loop 2 invariant
    i <= rs.len(), !commands.m_started, commands.m_pipeline == hasPipelining, commands.m_commands.len() == w + 1 + i, nr ==> commands.m_commands@[0].text() == t_rset(), commands.m_commands@[w].text() == mt, forall|k: int| 0 <= k < commands.m_commands.len() ==> plain(#[trigger] commands.m_commands@[k].text()),
    forall|k: int| 0 <= k < i ==> (#[trigger] commands.m_commands@[w + 1 + k]).text() == rcpt_txt(rs[k], u, d),
@loop 2 decreases
    rs.len() - i
@hint before ~this.m_needReset = true~
    let ghost u = hasSMTPUTF8 && needSMTPUTF8; let ghost z = if hasSize { size } else { 0usize }; let ghost d = dsn_of(opts); let ghost mt = mail_txt(envelope_from(*sender, *expeditor), u, z, d);
    proof { lemma_plain(); assert(commands.m_commands@[w].text() == mt); }
@hint before ~if needReset~ #2
    let ghost cs = commands.m_commands@; let ghost e = texts(cs); let ghost nn = rs.len() as int;
    proof { lemma_plain(); assert(env_is(e, nr, mt, rs, u, d, sendDATACommand)); assert(cs.skip(0) =~= cs); assert(e.take(0) =~= Seq::<Seq<u8>>::empty()); assert(c0 + Seq::<Seq<u8>>::empty() =~= c0); assert(at(&commands, &this.m_connection, cs, c0, id, 0)); lemma_quiet(c0, e, id, sendDATACommand); lemma_seqs(cs, c0, 0); lemma_seqs(cs, c0, w); }
@loop 3 invariant
    i <= rs.len(), at(&commands, &this.m_connection, cs, c0, id, w + 1 + i), commands.m_pipeline == hasPipelining, this.m_needReset,
    nr ==> rc(id, n0) == 250 || rc(id, n0) == 200, rc(id, n0 + w) == 250, forall|k: int| 0 <= k < i ==> ok_rcpt(#[trigger] rc(id, n0 + w + 1 + k)),
@loop 3 decreases
    rs.len() - i
@hint loop 3 begin
    proof { lemma_seqs(cs, c0, w + 1 + i); }
@hint loop 3 after
    proof { if sendDATACommand { lemma_seqs(cs, c0, w + 1 + nn); } else { lemma_seqs(cs, c0, w); } }
@hint before ~return Ok~
    proof { assert(e.take(e.len() as int) =~= e); let f = this.m_connection.m_socket.cmds(); assert(f == c0 + e); assert(f.skip(n0) =~= e); assert(f.take(n0) =~= c0); }
@fn vmime::net::smtp::SMTPTransport::send ~inputStream~ as tr_send
@throws
@requires
    usable(&old(this).m_connection) ==> insync(&old(this).m_connection.m_socket),
@ensures
    old(this).m_needReset ==> final(this).m_needReset,
    gone(final(this)) || !final(this).m_connection.m_authenticated || insync(&final(this).m_connection.m_socket),
    res is Ok ==> ({ let s0 = &old(this).m_connection.m_socket; let s = &final(this).m_connection.m_socket; let k = s0.cmds().len() as int; let nr = old(this).m_needReset; let c = s.cmds().drop_last();
        usable(&final(this).m_connection) && s.id() == s0.id() && c.take(k) == s0.cmds() && s.cmds().last() == eod() && accepted(s.id(), k, nr, recipients.mbs().len() as int, true) && rc(s.id(), c.len() as int) == 250 && final(this).m_needReset
        && exists|u: bool, z: usize, d: Dsn| env_is(c.skip(k), nr, #[trigger] mail_txt(envelope_from(*sender, *expeditor), u, z, d), recipients.mbs(), u, d, true) }),
@hint before ~let mut exc1_~
    let ghost cdata = this.m_connection.m_socket.cmds();
@hint before ~cn_read~
    proof { let f = this.m_connection.m_socket.cmds(); assert(f.last() == eod()); assert(this.m_connection.m_socket.cmds().drop_last() =~= cdata); }
@fn vmime::net::smtp::SMTPTransport::noop as tr_noop
@throws
@requires
    usable(&old(this).m_connection) ==> insync(&old(this).m_connection.m_socket),
@hint after ~cn_send~
    proof { let f = this.m_connection.m_socket.cmds(); assert(f.drop_last() =~= old(this).m_connection.m_socket.cmds()); }
@ensures
    gone(final(this)) || !final(this).m_connection.m_authenticated || insync(&final(this).m_connection.m_socket),
