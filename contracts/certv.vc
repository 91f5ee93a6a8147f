@unit certv
@use strings
@source src/vmime/security/cert/defaultCertificateVerifier.cpp
@struct vmime::security::cert::defaultCertificateVerifier as Ver
@struct vmime::security::cert::certificateChain as Chain
@field Ver.m_x509RootCAs vec:stru:Cert
@field Ver.m_x509TrustedCerts vec:stru:Cert
@field Chain.m_certs vec:stru:Cert
@type .*certificateChain.* = stru:Chain
@type .*[cC]ertificateException|.*IdentityException|.*NotTrustedException|.*VerificationException|.*TypeException = drop
@type .*X509Certificate.*|.*shared_ptr.*certificate>.* = stru:Cert
@obj Cert
@obj Chain
@method vmime::security::cert::certificate::getType = cert_type str ref
@method vmime::security::cert::X509Certificate::checkIssuer = cert_issued bool ref ref
@method vmime::security::cert::X509Certificate::verify = cert_verified bool ref ref
@method vmime::security::cert::X509Certificate::checkValidity = cert_valid? void ref
@method vmime::security::cert::X509Certificate::verifyHostName = cert_host bool ref ref drop
@method vmime::security::cert::certificate::equals = cert_equals bool ref ref
@extern vmime::dynamicCast = cert_cast stru:Cert ref
@rust
// a certificate: what is said about it is decided by X509Certificate (unit certx) and by GnuTLS
#[derive(Clone, Copy)]
pub struct Cert { pub id: u64 }
pub fn clone_Cert(c: &Cert) -> (r: Cert) ensures r == *c { *c }
pub fn clone_Chain(c: &Chain) -> (r: Chain) ensures r.m_certs@ == c.m_certs@
{ let mut v: Vec<Cert> = Vec::new(); let mut i = 0; while i < c.m_certs.len() invariant i <= c.m_certs.len(), v@ == c.m_certs@.take(i as int) decreases c.m_certs.len() - i { v.push(c.m_certs[i]); i = i + 1; assert(c.m_certs@.take(i as int) =~= c.m_certs@.take(i - 1).push(c.m_certs@[i - 1])); } assert(c.m_certs@.take(i as int) =~= c.m_certs@); Chain { m_certs: v } }
pub uninterp spec fn issued(c: Cert, by: Cert) -> bool;
pub uninterp spec fn verified(c: Cert, ca: Cert) -> bool;
pub uninterp spec fn valid_now(c: Cert) -> bool;
pub uninterp spec fn names(c: Cert, host: Seq<u8>) -> bool;
pub uninterp spec fn same(c: Cert, d: Cert) -> bool;
pub uninterp spec fn type_of(c: Cert) -> Seq<u8>;
pub open spec fn x509() -> Seq<u8> { seq![88u8, 46u8, 53u8, 48u8, 57u8] }
#[verifier::external_body]
pub fn cert_type(c: &Cert) -> (r: Vec<u8>) ensures r@ == type_of(*c) { unimplemented!() }
#[verifier::external_body]
pub fn cert_issued(c: &Cert, by: &Cert) -> (r: bool) ensures r == issued(*c, *by) { unimplemented!() }
#[verifier::external_body]
pub fn cert_verified(c: &Cert, ca: &Cert) -> (r: bool) ensures r == verified(*c, *ca) { unimplemented!() }
#[verifier::external_body]
pub fn cert_valid(c: &Cert) -> (r: Result<(), Exc>) ensures r.is_ok() == valid_now(*c) { unimplemented!() }
#[verifier::external_body]
pub fn cert_host(c: &Cert, h: &Vec<u8>) -> (r: bool) ensures r == names(*c, h@) { unimplemented!() }
#[verifier::external_body]
pub fn cert_equals(c: &Cert, d: &Cert) -> (r: bool) ensures r == same(*c, *d) { unimplemented!() }
// dynamic_cast to X509Certificate: every certificate of the chain is one
pub fn cert_cast(c: &Cert) -> (r: Cert) ensures r == *c { *c }
// ---- what makes a chain acceptable ----
pub open spec fn linked(s: Seq<Cert>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] link(s, i) }
pub open spec fn link(s: Seq<Cert>, i: int) -> bool { issued(s[i], s[i + 1]) }
pub open spec fn all_valid(s: Seq<Cert>) -> bool { forall|i: int| 0 <= i < s.len() ==> valid_now(#[trigger] s[i]) }
pub open spec fn anchored(v: Ver, s: Seq<Cert>) -> bool {
    (exists|i: int| 0 <= i < v.m_x509RootCAs.len() && verified(s.last(), #[trigger] v.m_x509RootCAs[i])) || (exists|i: int| 0 <= i < v.m_x509TrustedCerts.len() && same(s[0], #[trigger] v.m_x509TrustedCerts[i]))
}
pub open spec fn good(v: Ver, s: Seq<Cert>) -> bool { s.len() > 0 && linked(s) && all_valid(s) && anchored(v, s) }
pub open spec fn why(v: Ver, s: Seq<Cert>, k: u64) -> bool { (!linked(s) ==> k == sEXC_certificateIssuerVerificationException()) && (linked(s) && all_valid(s) && !anchored(v, s) ==> k == sEXC_certificateNotTrustedException()) }
@source src/vmime/security/cert/certificateChain.cpp
@fn vmime::security::cert::certificateChain::getCount as chain_count
@ensures
    res == this.m_certs.len(),
@fn vmime::security::cert::certificateChain::getAt as chain_at
@constthis
@requires
    index < this.m_certs.len(),
@ensures
    res == this.m_certs[index as int],
@source src/vmime/security/cert/defaultCertificateVerifier.cpp
@fn vmime::security::cert::defaultCertificateVerifier::verifyX509chain as verify_chain
@constthis
@throws
@requires
    1 <= chainLen <= chain.m_certs.len(),
@ensures
    res.is_ok() == good(*this, chain.m_certs@.take(chainLen as int)),
    res.is_err() ==> why(*this, chain.m_certs@.take(chainLen as int), res->Err_0.kind),
@hint start
    let ghost c = chain.m_certs@; let ghost mut tr0 = false; let ghost sb = c.take(chainLen as int);
@hint loop 4 pre
    proof { tr0 = trusted; }
@loop 1 invariant
    chain.m_certs@ == c, 2 <= chainLen <= c.len(), forall|m: int| 0 <= m < i ==> #[trigger] link(sb, m), sb == c.take(chainLen as int),
@loop 1 decreases
    chainLen - i
@loop 2 invariant
    chain.m_certs@ == c, 1 <= chainLen <= c.len(), forall|m: int| 0 <= m < i ==> valid_now(#[trigger] sb[m]), sb == c.take(chainLen as int), linked(sb),
@loop 2 decreases
    chainLen - i
@loop 3 invariant
    chain.m_certs@ == c, i <= this.m_x509RootCAs.len(), lastCert == c[chainLen - 1], trusted == exists|m: int| 0 <= m < i && verified(lastCert, #[trigger] this.m_x509RootCAs[m]),
@loop 3 decreases
    this.m_x509RootCAs.len() - i
@loop 4 invariant
    chain.m_certs@ == c, i <= this.m_x509TrustedCerts.len(), firstCert == c[0], trusted == (tr0 || exists|m: int| 0 <= m < i && same(firstCert, #[trigger] this.m_x509TrustedCerts[m])),
@loop 4 decreases
    this.m_x509TrustedCerts.len() - i
@hint before ~cert_valid\(~
    proof { assert(sb[i as int] == cert); }
@hint before ~EXC_certificateIssuerVerificationException~
    proof { assert(!link(sb, i as int)); }
@fn vmime::security::cert::defaultCertificateVerifier::verifyX509 as verify_x509
@constthis
@throws
@requires
    chain.m_certs.len() >= 1,
@ensures
    res.is_ok() == (good(*this, chain.m_certs@) && names(chain.m_certs[0], hostname@)),
    res.is_err() ==> why(*this, chain.m_certs@, res->Err_0.kind) && (good(*this, chain.m_certs@) ==> res->Err_0.kind == sEXC_serverIdentityException()),
@hint start
    let ghost c = chain.m_certs@; let ghost nn = c.len() as int; let ghost mut tr0 = false; let ghost sb = c;
@hint loop 4 pre
    proof { tr0 = trusted; }
@loop 1 invariant
    chain.m_certs@ == c, 2 <= nn <= c.len(), forall|m: int| 0 <= m < i ==> #[trigger] link(sb, m), sb == c, nn == c.len(),
@loop 1 decreases
    nn - i
@loop 2 invariant
    chain.m_certs@ == c, 1 <= nn <= c.len(), forall|m: int| 0 <= m < i ==> valid_now(#[trigger] sb[m]), sb == c, nn == c.len(), linked(sb),
@loop 2 decreases
    nn - i
@loop 3 invariant
    chain.m_certs@ == c, i <= this.m_x509RootCAs.len(), lastCert == c[nn - 1], trusted == exists|m: int| 0 <= m < i && verified(lastCert, #[trigger] this.m_x509RootCAs[m]),
@loop 3 decreases
    this.m_x509RootCAs.len() - i
@loop 4 invariant
    chain.m_certs@ == c, i <= this.m_x509TrustedCerts.len(), firstCert == c[0], trusted == (tr0 || exists|m: int| 0 <= m < i && same(firstCert, #[trigger] this.m_x509TrustedCerts[m])),
@loop 4 decreases
    this.m_x509TrustedCerts.len() - i
@hint before ~cert_valid\(~
    proof { assert(sb[i as int] == cert); }
@hint before ~EXC_certificateIssuerVerificationException~
    proof { assert(!link(sb, i as int)); }
@loop 5 invariant
    chain.m_certs@ == c, chainLen == nn, nn == c.len(), good(*this, c), nn >= 1, names(c[0], hostname@),
@loop 5 decreases
    chainLen
@hint loop 5 begin
    proof { assert(c.take(nn) =~= c); }
@fn vmime::security::cert::defaultCertificateVerifier::verify as verify_any
@constthis
@throws
@ensures
    res.is_ok() == (chain.m_certs.len() > 0 && type_of(chain.m_certs[0]) == x509() && good(*this, chain.m_certs@) && names(chain.m_certs[0], hostname@)),
