@unit tlshs
@use strings
@source src/vmime/net/tls/gnutls/TLSSocket_GnuTLS.cpp
@struct vmime::net::tls::TLSSocket_GnuTLS as TSock
@type .*timeoutHandler.*|.*tracer.* = drop
@type .*certificateChain.* = stru:Chain
@type .*certificateVerifier.* = stru:Verif
@type .*TLSSession_GnuTLS.* = stru:Sess
@type .*shared_ptr.*socket.* = stru:Wrapped
@field TSock.m_session stru:Sess
@field TSock.m_wrapped stru:Wrapped
@obj Chain
@obj Verif
@obj Sess
@obj Wrapped
@extern gnutls_server_name_set = g_sni i32 skip skip skip skip
@extern gnutls_handshake = g_handshake i32 skip
@extern gnutls_record_get_direction = g_dir i32 skip
@method vmime::net::tls::TLSSocket_GnuTLS::getPeerName = peer_name str ref
@method vmime::net::tls::TLSSocket_GnuTLS::getPeerCertificates = peer_certs stru:Chain mut
@method vmime::net::tls::TLSSocket_GnuTLS::resetException = reset_ex void mut
@method vmime::net::tls::TLSSocket_GnuTLS::throwException = throw_ex? void mut
@method vmime::net::socket::waitForRead = wait_io void mut drop
@method vmime::net::socket::waitForWrite = wait_io void mut drop
@extern vmime::net::tls::TLSSession_GnuTLS::throwTLSException = throw_tls? void skip val
@method vmime::net::tls::TLSSession_GnuTLS::getCertificateVerifier = verifier stru:Verif ref
@method vmime::net::socket::connect = w_connect? void mut drop drop
@method vmime::net::socket::disconnect = w_disconnect void mut
@method vmime::net::socket::isConnected = w_connected bool ref
@extern gnutls_bye = g_bye i32 skip skip
@method vmime::security::cert::certificateVerifier::verify = do_verify? void ref ref ref
@rust
#[derive(Clone, Copy)]
pub struct Chain { pub id: u64 }
#[derive(Clone, Copy)]
pub struct Verif { pub id: u64 }
pub struct Sess { pub id: u64 }
pub struct Wrapped { pub id: u64 }
pub fn clone_Chain(c: &Chain) -> (r: Chain) ensures r == *c { *c }
pub uninterp spec fn here(c: Chain) -> bool;
#[verifier::external_body]
pub fn Chain_isset(c: &Chain) -> (r: bool) ensures r == here(*c) { unimplemented!() }
// the peer, as the wrapped socket knows it; the certificates it has sent; the verifier of the session
pub uninterp spec fn name_of(w: u64) -> Seq<u8>;
pub uninterp spec fn chain_of(s: u64) -> Chain;
pub uninterp spec fn verifier_of(s: u64) -> Verif;
// what certificateVerifier::verify decides (units certv, certx, certt for the default one)
pub uninterp spec fn accepted(v: Verif, c: Chain, host: Seq<u8>) -> bool;
// gnutls_handshake has succeeded
pub uninterp spec fn shaken() -> bool;
#[verifier::external_body]
pub fn g_bye() -> (r: i32) { unimplemented!() }
#[verifier::external_body]
pub fn w_connect(w: &mut Wrapped) -> (r: Result<(), Exc>) ensures *final(w) == *old(w) { unimplemented!() }
#[verifier::external_body]
pub fn w_disconnect(w: &mut Wrapped) ensures *final(w) == *old(w) { unimplemented!() }
pub uninterp spec fn link_up(w: u64) -> bool;
#[verifier::external_body]
pub fn w_connected(w: &Wrapped) -> (r: bool) ensures r == link_up(w.id) { unimplemented!() }
#[verifier::external_body]
pub fn g_sni() -> (r: i32) { unimplemented!() }
#[verifier::external_body]
pub fn g_handshake() -> (r: i32) ensures r >= 0 ==> shaken() { unimplemented!() }
#[verifier::external_body]
pub fn g_dir() -> (r: i32) { unimplemented!() }
#[verifier::external_body]
pub fn peer_name(s: &TSock) -> (r: Vec<u8>) ensures r@ == name_of(s.m_wrapped.id) { unimplemented!() }
#[verifier::external_body]
pub fn peer_certs(s: &mut TSock) -> (r: Chain) ensures *final(s) == *old(s), here(r) ==> r == chain_of(old(s).m_session.id) { unimplemented!() }
#[verifier::external_body]
pub fn reset_ex(s: &mut TSock) ensures *final(s) == *old(s) { unimplemented!() }
#[verifier::external_body]
pub fn throw_ex(s: &mut TSock) -> (r: Result<(), Exc>) ensures *final(s) == *old(s) { unimplemented!() }
#[verifier::external_body]
pub fn wait_io(w: &mut Wrapped) ensures *final(w) == *old(w) { unimplemented!() }
#[verifier::external_body]
pub fn throw_tls(code: i32) -> (r: Result<(), Exc>) ensures r is Err { unimplemented!() }
#[verifier::external_body]
pub fn verifier(s: &Sess) -> (r: Verif) ensures r == verifier_of(s.id) { unimplemented!() }
#[verifier::external_body]
pub fn do_verify(v: &Verif, c: &Chain, h: &Vec<u8>) -> (r: Result<(), Exc>) ensures r.is_ok() == accepted(*v, *c, h@) { unimplemented!() }
@fn vmime::net::tls::TLSSocket_GnuTLS::handshake as handshake
@throws
@ensures
    res is Ok ==> final(this).m_connected && shaken() && accepted(verifier_of(old(this).m_session.id), chain_of(old(this).m_session.id), name_of(old(this).m_wrapped.id)),
    res is Err ==> final(this).m_connected == old(this).m_connected,
@hint start
    let ghost t0 = *this;
@loop 1 invariant
    *this == t0,
@loop 1 ensures
    shaken(), *this == t0,
@fn vmime::net::tls::TLSSocket_GnuTLS::isConnected as is_connected
@ensures
    // PROPERTY: connected means that the handshake is done
    res ==> this.m_connected,
@fn vmime::net::tls::TLSSocket_GnuTLS::disconnect as disconnect
@ensures
    !final(this).m_connected, final(this).m_session == old(this).m_session,
@fn vmime::net::tls::TLSSocket_GnuTLS::connect as connect
@throws
@ensures
    res is Ok ==> final(this).m_connected && shaken() && accepted(verifier_of(old(this).m_session.id), chain_of(old(this).m_session.id), name_of(old(this).m_wrapped.id)),
    res is Err ==> !final(this).m_connected,
