@unit tlsimap
@use strings
@source src/vmime/net/imap/IMAPConnection.cpp
@struct vmime::net::imap::IMAPConnection as Conn
@struct vmime::net::imap::IMAPServiceInfos::props as Settings
@type .*ProtocolStates.* = i32
@type .*timeoutHandlerFactory.* = stru:Tof
@type .*socketFactory.* = stru:Sof
@type .*IMAPServiceInfos::props.* = stru:Settings
@type .*serviceInfos::property.* = stru:PropId
@type .*serviceInfos.*|.*IMAPServiceInfos.* = stru:Infos
@type .*timeoutHandler.*|.*tracer.*|.*onnectionInfos.*|.*TLSSecuredConnectionInfos.*|.*TLSProperties.* = drop
@type .*IMAPCommand.* = stru:Cmd
@type .*continue_req_or_response_data.* = drop
@type .*_iterator.*response.*|.*\bmap *<.*response.*::iterator.* = iter:stru:Pending
@type .*\bmap *<.*response.* = vec:stru:Pending
@type .*resp_cond_state::.*|.*resp_cond_auth::.*|.*resp_text_code::.* = u32
@type .*resp_cond_state.* = stru:RCond
@type .*resp_cond_auth.* = stru:RAuth
@type .*resp_cond_bye.* = stru:RBye
@type .*capability_data.* = stru:CapData
@type .*resp_text_code.* = stru:RTextCode
@type .*resp_text.* = stru:RText
@type .*response_tagged.* = stru:Tagged
@type .*response_done.* = stru:Done
@type .*IMAPParser::greeting.* = stru:Greet
@type .*IMAPParser::response\b.* = stru:Resp
@type .*IMAPParser::\w.* = drop
@type .*IMAPTag.* = stru:Tag
@type .*IMAPParser.* = stru:Parser
@type .*certificateVerifier.* = stru:Verif
@type .*TLSSession.* = stru:Sess
@type .*TLSSocket.*|.*shared_ptr.*socket.* = stru:Sock
@type .*IMAPStore.* = stru:Trans
@type .*IMAPConnection.* = stru:Conn
@type .*net::session.* = drop
@field Conn.m_socket stru:Sock
@field Conn.m_store stru:Trans
@field Conn.m_parser stru:Parser
@struct vmime::net::imap::IMAPParser::response as Resp
@struct vmime::net::imap::IMAPParser::response_done as Done
@struct vmime::net::imap::IMAPParser::response_tagged as Tagged
@struct vmime::net::imap::IMAPParser::resp_cond_state as RCond
@struct vmime::net::imap::IMAPParser::greeting as Greet
@struct vmime::net::imap::IMAPParser::resp_cond_auth as RAuth
@struct vmime::net::imap::IMAPParser::resp_text as RText
@struct vmime::net::imap::IMAPParser::resp_text_code as RTextCode
@field Resp.response_done stru:Done
@field Done.response_tagged stru:Tagged
@field Tagged.resp_cond_state stru:RCond
@field Greet.resp_cond_auth stru:RAuth
@field Greet.resp_cond_bye stru:RBye
@field RAuth.resp_text stru:RText
@field RText.resp_text_code stru:RTextCode
@field RTextCode.capability_data stru:CapData
@struct vmime::net::imap::IMAPParser as Parser
@field Parser.m_socket stru:Sock
@field Parser.m_pendingResponses vec:stru:Pending
@obj Sock
@obj Sess
@obj Verif
@obj Trans
@obj Cmd
@obj Resp
@obj Done
@obj Tagged
@obj RCond
@obj RAuth
@obj RBye
@obj CapData
@obj RTextCode
@obj RText
@obj Greet
@obj Tag
@obj Parser
@obj Tof
@obj Sof
@extern vmime::net::imap::IMAPCommand::STARTTLS = cmd_starttls stru:Cmd
@extern vmime::net::tls::TLSSession::create = tls_create stru:Sess ref skip
@method vmime::net::imap::IMAPCommand::send = send_request? void ref mut
@method vmime::net::imap::IMAPParser::readResponse = read_response? stru:Resp mut drop
@method vmime::net::imap::IMAPParser::readGreeting = read_greeting? stru:Greet mut
@method vmime::net::imap::IMAPParser::response::isBad = resp_bad bool ref
@method vmime::net::imap::IMAPParser::setTimeoutHandler = set_toh void mut drop
@method vmime::net::imap::IMAPConnection::processCapabilityResponseData = process_capabilities void mut drop
@method vmime::net::imap::IMAPConnection::initHierarchySeparator = init_separator? void mut
@extern vmime::net::imap::IMAPCommand::LOGOUT = cmd_logout stru:Cmd
@method vmime::net::socket::isConnected = sock_is_connected bool ref
@method vmime::net::socket::disconnect = sock_disconnect void mut
@method vmime::net::service::getCertificateVerifier = get_verifier stru:Verif ref
@method vmime::net::tls::TLSSession::getSocket = tls_socket stru:Sock ref ref
@method vmime::net::tls::TLSSocket::handshake = tls_handshake? void mut
@method vmime::net::service::getTimeoutHandlerFactory = get_tof stru:Tof ref
@method vmime::net::service::getSocketFactory = get_sof stru:Sof ref
@method vmime::net::socketFactory::create = sock_create stru:Sock ref drop
@method vmime::net::socket::setTracer = sock_set_tracer void mut drop
@method vmime::net::socket::connect = sock_connect? void mut drop drop
@method vmime::net::imap::IMAPStore::isIMAPS = implicit_tls_x bool ref
@method vmime::net::imap::IMAPStore::getInfos = get_infos stru:Infos ref
@method vmime::net::imap::IMAPServiceInfos::getProperties = get_props stru:Settings ref
@method vmime::net::serviceInfos::hasProperty = has_prop bool ref drop ref
@method vmime::net::serviceInfos::getPropertyValue ~bool~ = get_bool bool ref drop ref
@method vmime::net::serviceInfos::getPropertyValue ~string~ = get_str str ref drop ref
@method vmime::net::serviceInfos::getPropertyValue ~short~ = get_u16 u16 ref drop ref
@method vmime::net::imap::IMAPConnection::authenticate = authenticate? void mut
@rust
@include tls_common.rs
@rust
#[verifier::external_body]
pub fn cmd_logout() -> (r: Cmd) { unimplemented!() }
#[verifier::external_body]
pub fn sock_is_connected(s: &Sock) -> (r: bool) { unimplemented!() }
pub fn sock_disconnect(s: &mut Sock) ensures *final(s) == *old(s) { }
pub fn Sock_isset(s: &Sock) -> (r: bool) ensures r == (*s != none_sock()) { s.id != 0 }
pub struct Tag { pub id: u64 }
pub struct RBye { pub id: u64 }
pub struct CapData { pub id: u64 }
pub struct Pending { pub id: u64 }
pub fn RBye_isset(b: &RBye) -> (r: bool) { b.id != 0 }
pub fn CapData_isset(b: &CapData) -> (r: bool) { b.id != 0 }
#[verifier::external_body]
pub fn RTextCode_isset(b: &RTextCode) -> (r: bool) { unimplemented!() }
pub fn Trans_isset(b: &Trans) -> (r: bool) { b.id != 0 }
#[verifier::external_body]
pub fn process_capabilities(c: &mut Conn) ensures same_but_buffer(*final(c), *old(c)), final(c).m_parser == old(c).m_parser { unimplemented!() }
#[verifier::external_body]
pub fn init_separator(c: &mut Conn) -> (r: Result<(), Exc>) ensures r is Ok ==> same_but_buffer(*final(c), *old(c)) { unimplemented!() }
@rust
#[verifier::external_body]
pub proof fn axiom_refusal() ensures refusal(sEXC_command_error()) { }
#[verifier::external_body]
pub fn cmd_starttls() -> (r: Cmd) { unimplemented!() }
pub fn Trans_lock(t: &Trans) -> (r: Trans) ensures r == *t { *t }
pub open spec fn same_but_buffer(a: Conn, b: Conn) -> bool { a.m_socket == b.m_socket && a.m_store == b.m_store && a.m_secured == b.m_secured && a.m_state == b.m_state }
#[verifier::external_body]
pub fn send_request(m: &Cmd, c: &mut Conn) -> (r: Result<(), Exc>) ensures *final(c) == *old(c), r is Err ==> !refusal(r->Err_0.kind) { unimplemented!() }
#[verifier::external_body]
pub fn read_response(p: &mut Parser) -> (r: Result<Resp, Exc>) ensures final(p).m_socket == old(p).m_socket, r is Err ==> !refusal(r->Err_0.kind) { unimplemented!() }
#[verifier::external_body]
pub fn read_greeting(p: &mut Parser) -> (r: Result<Greet, Exc>) ensures final(p).m_socket == old(p).m_socket { unimplemented!() }
pub fn set_toh(p: &mut Parser) ensures *final(p) == *old(p) { }
#[verifier::external_body]
pub fn resp_bad(r: &Resp) -> (b: bool) { unimplemented!() }
pub uninterp spec fn the_props() -> Settings;
#[verifier::external_body]
pub fn get_props(i: &Infos) -> (r: Settings) ensures r == the_props() { unimplemented!() }
pub open spec fn must_tls(t: Trans) -> bool { implicit_tls(t) || (asks(t, the_props().PROPERTY_CONNECTION_TLS) && asks(t, the_props().PROPERTY_CONNECTION_TLS_REQUIRED)) }
// what is said of the connection is true, and TLS is there when it is required
pub open spec fn tls_ok(c: Conn) -> bool { (must_tls(c.m_store) ==> c.m_secured) && (c.m_secured ==> secure_over(c.m_socket, c.m_store)) }
// PROPERTY: no credentials are sent over a connection which is not secured when TLS is required
#[verifier::external_body]
pub fn authenticate(c: &mut Conn) -> (r: Result<(), Exc>)
    requires tls_ok(*old(c))
    ensures r is Ok ==> final(c).m_socket == old(c).m_socket && final(c).m_store == old(c).m_store && final(c).m_secured == old(c).m_secured
{ unimplemented!() }
@fn vmime::net::imap::IMAPParser::setSocket as set_socket
@ensures
    final(this).m_socket == *sok, final(this).m_buffer@.len() == 0, final(this).m_pendingResponses@.len() == 0,
@loop 1 invariant
    it <= this.m_pendingResponses.len(), this.m_socket == *sok, this.m_buffer@.len() == 0,
@fn vmime::net::imap::IMAPConnection::getStoreOrThrow as store_or_throw
@throws
@ensures
    res is Ok ==> res->Ok_0 == old(this).m_store, *final(this) == *old(this),
@fn vmime::net::imap::IMAPConnection::isConnected as is_connected
@ensures
    res ==> this.m_state == 2 || this.m_state == 3,
@fn vmime::net::imap::IMAPConnection::internalDisconnect as internal_disconnect
@throws
@requires
    old(this).m_state != 2, old(this).m_state != 3,
@ensures
    res is Ok, final(this).m_socket == none_sock(), final(this).m_state == 4i32, !final(this).m_secured,
@fn vmime::net::imap::IMAPConnection::invalidateCapabilities as invalidate
@ensures
    final(this).m_capabilities@.len() == 0, !final(this).m_capabilitiesFetched, same_but_buffer(*final(this), *old(this)), final(this).m_parser == old(this).m_parser,
@fn vmime::net::imap::IMAPConnection::startTLS as start_tls
@throws
@requires
    old(this).m_state != 2, old(this).m_state != 3,
@ensures
    // what was received in clear is gone, and the certificates have been verified
    res is Ok ==> secure(final(this).m_socket, old(this).m_socket, old(this).m_store) && final(this).m_secured && final(this).m_capabilities@.len() == 0 && !final(this).m_capabilitiesFetched && final(this).m_parser.m_socket == final(this).m_socket && final(this).m_parser.m_buffer@.len() == 0 && final(this).m_parser.m_pendingResponses@.len() == 0,
    // the server has refused: still in clear
    res is Err && refusal(res->Err_0.kind) ==> same_but_buffer(*final(this), *old(this)),
    // anything else: disconnected
    res is Err && !refusal(res->Err_0.kind) ==> final(this).m_socket == none_sock() && !final(this).m_secured && final(this).m_state == 4,
    res is Ok ==> final(this).m_state == old(this).m_state && final(this).m_store == old(this).m_store,
@hint start
    proof { axiom_refusal(); }

@fn vmime::net::imap::IMAPConnection::connect as connect
@throws
@requires
    !old(this).m_secured, old(this).m_parser.m_socket == old(this).m_parser.m_socket,
@ensures
    res is Ok ==> tls_ok(*final(this)),
@hint start
    let ghost mut w0 = none_sock(); let ghost mut s0 = none_sock(); let ghost mut e0 = Sess { id: 0 };
@hint before ~this.m_socket = clone_Sock\(&tlsSocket\)~
    proof { w0 = this.m_socket; s0 = tlsSocket; e0 = tlsSession; }
@hint after ~sock_connect\(~
    proof { if implicit_tls(this.m_store) { assert(tls_over(s0, e0, w0)); assert(secure(this.m_socket, w0, this.m_store)); } assert(tls_ok(*this) || !implicit_tls(this.m_store)); }
