@unit tlspop3
@use strings
@source src/vmime/net/pop3/POP3Connection.cpp
@struct vmime::net::pop3::POP3Connection as Conn
@struct vmime::net::pop3::POP3ServiceInfos::props as Settings
@type .*timeoutHandlerFactory.* = stru:Tof
@type .*socketFactory.* = stru:Sof
@type .*POP3ServiceInfos::props.* = stru:Settings
@type .*serviceInfos::property.* = stru:PropId
@type .*serviceInfos.*|.*POP3ServiceInfos.* = stru:Infos
@type .*timeoutHandler.*|.*tracer.*|.*onnectionInfos.*|.*TLSSecuredConnectionInfos.*|.*TLSProperties.* = drop
@type .*POP3Command.* = stru:Cmd
@type .*POP3Response.* = stru:Reply
@type .*certificateVerifier.* = stru:Verif
@type .*TLSSession.* = stru:Sess
@type .*TLSSocket.*|.*shared_ptr.*socket.* = stru:Sock
@type .*POP3Store.* = stru:Trans
@type .*POP3Connection.* = stru:Conn
@type .*net::session.* = drop
@field Conn.m_socket stru:Sock
@field Conn.m_store stru:Trans
@obj Sock
@obj Sess
@obj Verif
@obj Trans
@obj Cmd
@obj Reply
@obj Tof
@obj Sof
@extern vmime::net::pop3::POP3Command::STLS = cmd_starttls stru:Cmd
@extern vmime::net::tls::TLSSession::create = tls_create stru:Sess ref skip
@method vmime::net::pop3::POP3Command::send = send_request? void ref mut
@extern vmime::net::pop3::POP3Response::readResponse = read_response? stru:Reply mut
@method vmime::net::pop3::POP3Connection::internalDisconnect = internal_disconnect void mut
@method vmime::net::pop3::POP3Response::isSuccess = resp_success bool ref
@method vmime::net::service::getCertificateVerifier = get_verifier stru:Verif ref
@method vmime::net::tls::TLSSession::getSocket = tls_socket stru:Sock ref ref
@method vmime::net::tls::TLSSocket::handshake = tls_handshake? void mut
@method vmime::net::service::getTimeoutHandlerFactory = get_tof stru:Tof ref
@method vmime::net::service::getSocketFactory = get_sof stru:Sof ref
@method vmime::net::socketFactory::create = sock_create stru:Sock ref drop
@method vmime::net::socket::setTracer = sock_set_tracer void mut drop
@method vmime::net::socket::connect = sock_connect? void mut drop drop
@method vmime::net::pop3::POP3Store::isPOP3S = implicit_tls_x bool ref
@method vmime::net::pop3::POP3Store::getInfos = get_infos stru:Infos ref
@method vmime::net::pop3::POP3ServiceInfos::getProperties = get_props stru:Settings ref
@method vmime::net::serviceInfos::hasProperty = has_prop bool ref drop ref
@method vmime::net::serviceInfos::getPropertyValue ~bool~ = get_bool bool ref drop ref
@method vmime::net::serviceInfos::getPropertyValue ~string~ = get_str str ref drop ref
@method vmime::net::serviceInfos::getPropertyValue ~short~ = get_u16 u16 ref drop ref
@method vmime::net::pop3::POP3Connection::isConnected = is_connected bool ref
@method vmime::net::pop3::POP3Connection::authenticate = authenticate? void mut drop
@rust
@include tls_common.rs
@rust
#[verifier::external_body]
pub proof fn axiom_refusal() ensures refusal(sEXC_command_error()) { }
#[verifier::external_body]
pub fn cmd_starttls() -> (r: Cmd) { unimplemented!() }
pub fn Trans_lock(t: &Trans) -> (r: Trans) ensures r == *t { *t }
pub open spec fn same_but_buffer(a: Conn, b: Conn) -> bool { a.m_socket == b.m_socket && a.m_store == b.m_store && a.m_secured == b.m_secured && a.m_authenticated == b.m_authenticated }
#[verifier::external_body]
pub fn send_request(m: &Cmd, c: &mut Conn) -> (r: Result<(), Exc>) ensures *final(c) == *old(c), r is Err ==> !refusal(r->Err_0.kind) { unimplemented!() }
#[verifier::external_body]
pub fn read_response(c: &mut Conn) -> (r: Result<Reply, Exc>) ensures *final(c) == *old(c), r is Err ==> !refusal(r->Err_0.kind) { unimplemented!() }
#[verifier::external_body]
pub fn resp_success(r: &Reply) -> (c: bool) { unimplemented!() }
pub fn Reply_null() -> (r: Reply) { Reply { id: 0 } }
pub uninterp spec fn the_props() -> Settings;
#[verifier::external_body]
pub fn get_props(i: &Infos) -> (r: Settings) ensures r == the_props() { unimplemented!() }
#[verifier::external_body]
pub fn is_connected(c: &Conn) -> (r: bool) { unimplemented!() }
pub open spec fn must_tls(t: Trans) -> bool { implicit_tls(t) || (asks(t, the_props().PROPERTY_CONNECTION_TLS) && asks(t, the_props().PROPERTY_CONNECTION_TLS_REQUIRED)) }
// what is said of the connection is true, and TLS is there when it is required
pub open spec fn tls_ok(c: Conn) -> bool { (must_tls(c.m_store) ==> c.m_secured) && (c.m_secured ==> secure_over(c.m_socket, c.m_store)) }
// PROPERTY: no credentials are sent over a connection which is not secured when TLS is required
#[verifier::external_body]
pub fn authenticate(c: &mut Conn) -> (r: Result<(), Exc>)
    requires tls_ok(*old(c))
    ensures r is Ok ==> final(c).m_socket == old(c).m_socket && final(c).m_store == old(c).m_store && final(c).m_secured == old(c).m_secured
{ unimplemented!() }
#[verifier::external_body]
pub fn internal_disconnect(c: &mut Conn) ensures final(c).m_socket == none_sock(), !final(c).m_authenticated, !final(c).m_secured { unimplemented!() }
@fn vmime::net::pop3::POP3Connection::invalidateCapabilities as invalidate
@ensures
    final(this).m_capabilities@.len() == 0, !final(this).m_capabilitiesFetched, same_but_buffer(*final(this), *old(this)),
@fn vmime::net::pop3::POP3Connection::startTLS as start_tls
@throws
@ensures
    // what was received in clear is gone, and the certificates have been verified
    res is Ok ==> secure(final(this).m_socket, old(this).m_socket, old(this).m_store) && final(this).m_secured && final(this).m_capabilities@.len() == 0 && !final(this).m_capabilitiesFetched,
    // the server has refused: still in clear
    res is Err && refusal(res->Err_0.kind) ==> same_but_buffer(*final(this), *old(this)),
    // anything else: disconnected
    res is Err && !refusal(res->Err_0.kind) ==> final(this).m_socket == none_sock() && !final(this).m_secured && !final(this).m_authenticated,
    res is Ok ==> final(this).m_authenticated == old(this).m_authenticated && final(this).m_store == old(this).m_store,
@hint start
    proof { axiom_refusal(); }

@fn vmime::net::pop3::POP3Connection::connect as connect
@throws
@requires
    !old(this).m_secured, !old(this).m_authenticated,
@ensures
    res is Ok ==> tls_ok(*final(this)),
@hint start
    let ghost mut w0 = none_sock(); let ghost mut s0 = none_sock(); let ghost mut e0 = Sess { id: 0 };
@hint before ~this.m_socket = clone_Sock\(&tlsSocket\)~
    proof { w0 = this.m_socket; s0 = tlsSocket; e0 = tlsSession; }
@hint after ~sock_connect\(~
    proof { if implicit_tls(this.m_store) { assert(tls_over(s0, e0, w0)); assert(secure(this.m_socket, w0, this.m_store)); } assert(tls_ok(*this) || !implicit_tls(this.m_store)); }
