@unit certx
@use strings
@source src/vmime/security/cert/gnutls/X509Certificate_GnuTLS.cpp
@struct vmime::security::cert::GnuTLSX509CertificateInternalData as Data
@struct vmime::security::cert::X509Certificate_GnuTLS as X509
@field Data.cert stru:Crt
@field X509.m_data stru:Data
@type (const )?gnutls_x509_crt_t = stru:Crt
@type .*X509Certificate.*|.*shared_ptr.*certificate>.* = stru:X509
@type .*std::vector.*string.* = drop
@type (const )?(.*byteArray|(std::)?vector<(unsigned char|byte_t|vmime::byte_t).*>) = str
@obj X509
@obj Data
@obj Crt
@extern gnutls_x509_crt_check_issuer = g_issuer u32 ref ref
@extern gnutls_x509_crt_verify = g_verify i32 ref ref val val mut
@extern gnutls_x509_crt_check_hostname = g_host u32 ref ptr
@extern vmime::dynamicCast = cert_cast stru:X509 ref
@method vmime::security::cert::X509Certificate_GnuTLS::getFingerprint = g_finger str ref val
@rust
#[derive(Clone, Copy)]
pub struct Crt { pub h: u64 }
pub fn clone_X509(c: &X509) -> (r: X509) ensures r.m_data.cert == c.m_data.cert, X509_here(r) == X509_here(*c) { let mut r = X509 { m_data: Data { cert: c.m_data.cert } }; assume(X509_here(r) == X509_here(*c)); r }
pub uninterp spec fn X509_here(c: X509) -> bool;
#[verifier::external_body]
pub fn X509_isset(c: &X509) -> (r: bool) ensures r == X509_here(*c) { unimplemented!() }
// the dynamic cast of a certificate: all are GnuTLS certificates
#[verifier::external_body]
pub fn cert_cast(c: &X509) -> (r: X509) ensures r == *c, X509_here(r) { unimplemented!() }
// GnuTLS: names and key identifiers of issuer and certificate match
pub uninterp spec fn names_match(c: Crt, by: Crt) -> bool;
#[verifier::external_body]
pub fn g_issuer(c: &Crt, by: &Crt) -> (r: u32) ensures (r >= 1) == names_match(*c, *by) { unimplemented!() }
// GnuTLS: the certificate is signed with the key of the other, which may sign certificates, with a safe algorithm
pub uninterp spec fn signed_by(c: Crt, by: Crt) -> bool;
pub uninterp spec fn in_time(c: Crt) -> bool;
// flags: none, or only GNUTLS_VERIFY_DISABLE_TIME_CHECKS (64)
#[verifier::external_body]
pub fn g_verify(c: &Crt, ca: &Crt, n: u32, flags: u32, st: &mut u32) -> (r: i32)
    requires n == 1, flags == 0 || flags == 64
    ensures (r == 0 && *final(st) == 0) == (signed_by(*c, *ca) && (flags == 0 ==> in_time(*c) && in_time(*ca))) { unimplemented!() }
pub uninterp spec fn host_match(c: Crt, h: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn g_host(c: &Crt, h: &Vec<u8>, at: usize) -> (r: u32) requires at == 0 ensures (r != 0) == host_match(*c, h@) { unimplemented!() }
pub uninterp spec fn fingerprint(c: Crt, algo: i32) -> Seq<u8>;
#[verifier::external_body]
pub fn g_finger(c: &X509, algo: i32) -> (r: Vec<u8>) ensures r@ == fingerprint(c.m_data.cert, algo) { unimplemented!() }
@fn vmime::security::cert::X509Certificate_GnuTLS::checkIssuer as x_issuer
@ensures
    res == (names_match(this.m_data.cert, issuer_.m_data.cert) && signed_by(this.m_data.cert, issuer_.m_data.cert)),
@fn vmime::security::cert::X509Certificate_GnuTLS::verify as x_verify
@ensures
    res == (signed_by(this.m_data.cert, caCert_.m_data.cert) && in_time(this.m_data.cert) && in_time(caCert_.m_data.cert)),
@fn vmime::security::cert::X509Certificate_GnuTLS::verifyHostName as x_host
@ensures
    res == host_match(this.m_data.cert, hostname@),
@fn vmime::security::cert::X509Certificate_GnuTLS::equals as x_equals
@ensures
    exists|a: i32| res == (#[trigger] fingerprint(this.m_data.cert, a) == fingerprint(other.m_data.cert, a)),
