@unit tlssmtp
@use strings
@source src/vmime/net/smtp/SMTPConnection.cpp
@struct vmime::net::smtp::SMTPConnection as Conn
@struct vmime::net::smtp::SMTPResponse::state as RState
@struct vmime::net::smtp::SMTPServiceInfos::props as Settings
@extrafield Conn.announced stru:Sock
@type .*timeoutHandlerFactory.* = stru:Tof
@type .*socketFactory.* = stru:Sof
@type .*SMTPServiceInfos::props.* = stru:Settings
@type .*serviceInfos::property.* = stru:PropId
@type .*serviceInfos.*|.*SMTPServiceInfos.* = stru:Infos
@type .*timeoutHandler.*|.*tracer.*|.*onnectionInfos.*|.*TLSSecuredConnectionInfos.*|.*TLSProperties.* = drop
@type .*SMTPCommandError.* = drop
@type .*SMTPCommand.* = stru:Cmd
@type .*SMTPResponse::state.* = stru:RState
@type .*SMTPResponse.* = stru:Reply
@type .*certificateVerifier.* = stru:Verif
@type .*TLSSession.* = stru:Sess
@type .*TLSSocket.*|.*shared_ptr.*socket.* = stru:Sock
@type .*SMTPTransport.* = stru:Trans
@type .*net::session.* = drop
@field Conn.m_socket stru:Sock
@field Conn.m_responseState stru:RState
@field Conn.m_transport stru:Trans
@obj Sock
@obj Sess
@obj Verif
@obj Trans
@obj Cmd
@obj Reply
@obj Tof
@obj Sof
@extern vmime::net::smtp::SMTPCommand::STARTTLS = cmd_starttls stru:Cmd
@extern vmime::net::tls::TLSSession::create = tls_create stru:Sess ref skip
@method vmime::net::smtp::SMTPConnection::sendRequest = send_request? void mut ref
@method vmime::net::smtp::SMTPConnection::readResponse = read_response? stru:Reply mut
@method vmime::net::smtp::SMTPConnection::getTransport = get_transport stru:Trans ref
@method vmime::net::smtp::SMTPConnection::internalDisconnect = internal_disconnect void mut
@method vmime::net::smtp::SMTPResponse::getCode = resp_code i32 ref
@method vmime::net::service::getCertificateVerifier = get_verifier stru:Verif ref
@method vmime::net::tls::TLSSession::getSocket = tls_socket stru:Sock ref ref
@method vmime::net::tls::TLSSocket::handshake = tls_handshake? void mut
@ctor RState 0 = rstate_new
@method vmime::net::service::getTimeoutHandlerFactory = get_tof stru:Tof ref
@method vmime::net::service::getSocketFactory = get_sof stru:Sof ref
@method vmime::net::socketFactory::create = sock_create stru:Sock ref drop
@method vmime::net::socket::setTracer = sock_set_tracer void mut drop
@method vmime::net::socket::connect = sock_connect? void mut drop drop
@method vmime::net::smtp::SMTPTransport::isSMTPS = implicit_tls_x bool ref
@method vmime::net::smtp::SMTPTransport::getInfos = get_infos stru:Infos ref
@method vmime::net::smtp::SMTPServiceInfos::getProperties = get_props stru:Settings ref
@method vmime::net::serviceInfos::hasProperty = has_prop bool ref drop ref
@method vmime::net::serviceInfos::getPropertyValue ~bool~ = get_bool bool ref drop ref
@method vmime::net::serviceInfos::getPropertyValue ~string~ = get_str str ref drop ref
@method vmime::net::serviceInfos::getPropertyValue ~short~ = get_u16 u16 ref drop ref
@method vmime::net::smtp::SMTPConnection::isConnected = is_connected bool ref
@method vmime::net::smtp::SMTPConnection::helo = helo? void mut
@method vmime::net::smtp::SMTPConnection::authenticate = authenticate? void mut
@rust
@include tls_common.rs
@rust
#[verifier::external_body]
pub proof fn axiom_refusal() ensures refusal(sEXC_SMTPCommandError()) { }
#[verifier::external_body]
pub fn cmd_starttls() -> (r: Cmd) { unimplemented!() }
pub fn Trans_lock(t: &Trans) -> (r: Trans) ensures r == *t { *t }
pub fn rstate_new() -> (r: RState) ensures r.responseBuffer@.len() == 0 { RState { responseBuffer: Vec::new() } }
pub open spec fn same_but_buffer(a: Conn, b: Conn) -> bool { a.m_socket == b.m_socket && a.m_transport == b.m_transport && a.m_secured == b.m_secured && a.m_authenticated == b.m_authenticated && a.announced == b.announced }
#[verifier::external_body]
pub fn send_request(c: &mut Conn, m: &Cmd) -> (r: Result<(), Exc>) ensures *final(c) == *old(c), r is Err ==> !refusal(r->Err_0.kind) { unimplemented!() }
#[verifier::external_body]
pub fn read_response(c: &mut Conn) -> (r: Result<Reply, Exc>) ensures same_but_buffer(*final(c), *old(c)), r is Err ==> !refusal(r->Err_0.kind) { unimplemented!() }
pub uninterp spec fn code_of(r: Reply) -> i32;
#[verifier::external_body]
pub fn resp_code(r: &Reply) -> (c: i32) ensures c == code_of(*r) { unimplemented!() }
pub fn Reply_null() -> (r: Reply) { Reply { id: 0 } }
pub uninterp spec fn the_props() -> Settings;
#[verifier::external_body]
pub fn get_props(i: &Infos) -> (r: Settings) ensures r == the_props() { unimplemented!() }
#[verifier::external_body]
pub fn is_connected(c: &Conn) -> (r: bool) { unimplemented!() }
// announced: the socket over which the server has last announced its extensions
#[verifier::external_body]
pub fn helo(c: &mut Conn) -> (r: Result<(), Exc>)
    ensures r is Ok ==> final(c).m_socket == old(c).m_socket && final(c).m_transport == old(c).m_transport && final(c).m_secured == old(c).m_secured && final(c).announced == old(c).m_socket,
        final(c).m_transport == old(c).m_transport, r is Err ==> final(c).m_authenticated == old(c).m_authenticated || !final(c).m_authenticated
{ unimplemented!() }
pub open spec fn must_tls(t: Trans) -> bool { implicit_tls(t) || (asks(t, the_props().PROPERTY_CONNECTION_TLS) && asks(t, the_props().PROPERTY_CONNECTION_TLS_REQUIRED)) }
// what is said of the connection is true, and TLS is there when it is required
pub open spec fn tls_ok(c: Conn) -> bool { (must_tls(c.m_transport) ==> c.m_secured) && (c.m_secured ==> secure_over(c.m_socket, c.m_transport)) }
// PROPERTY: no credentials are sent over a connection which is not secured when TLS is required, nor after what was announced in clear
#[verifier::external_body]
pub fn authenticate(c: &mut Conn) -> (r: Result<(), Exc>)
    requires tls_ok(*old(c)), old(c).announced == old(c).m_socket
    ensures r is Ok ==> final(c).m_socket == old(c).m_socket && final(c).m_transport == old(c).m_transport && final(c).m_secured == old(c).m_secured
{ unimplemented!() }
pub fn get_transport(c: &Conn) -> (r: Trans) ensures r == c.m_transport { c.m_transport }
#[verifier::external_body]
pub fn internal_disconnect(c: &mut Conn) ensures final(c).m_socket == none_sock(), !final(c).m_authenticated, !final(c).m_secured { unimplemented!() }
@fn vmime::net::smtp::SMTPConnection::startTLS as start_tls
@throws
@ensures
    // what was received in clear is gone, and the certificates have been verified
    res is Ok ==> secure(final(this).m_socket, old(this).m_socket, old(this).m_transport) && final(this).m_secured && final(this).m_responseState.responseBuffer@.len() == 0,
    // the server has refused: still in clear
    res is Err && refusal(res->Err_0.kind) ==> same_but_buffer(*final(this), *old(this)),
    // anything else: disconnected
    res is Err && !refusal(res->Err_0.kind) ==> final(this).m_socket == none_sock() && !final(this).m_secured && !final(this).m_authenticated,
    res is Ok ==> final(this).m_authenticated == old(this).m_authenticated && final(this).m_transport == old(this).m_transport,
@hint start
    proof { axiom_refusal(); }

@fn vmime::net::smtp::SMTPConnection::connect as connect
@throws
@requires
    !old(this).m_secured, !old(this).m_authenticated,
@ensures
    res is Ok ==> tls_ok(*final(this)),
@hint start
    let ghost mut w0 = none_sock(); let ghost mut s0 = none_sock(); let ghost mut e0 = Sess { id: 0 };
@hint before ~this.m_socket = clone_Sock\(&tlsSocket\)~
    proof { w0 = this.m_socket; s0 = tlsSocket; e0 = tlsSession; }
@hint after ~sock_connect\(~
    proof { if implicit_tls(this.m_transport) { assert(tls_over(s0, e0, w0)); assert(secure(this.m_socket, w0, this.m_transport)); } assert(tls_ok(*this) || !implicit_tls(this.m_transport)); }
