@unit certt
@use strings
@source src/vmime/security/cert/X509Certificate.cpp
@struct vmime::security::cert::X509Certificate as X509
@extrafield X509.h usize
@type (const )?(vmime::)?datetime = stru:Dt
@extern vmime::datetime::now = dt_now stru:Dt
@method vmime::security::cert::X509Certificate::getActivationDate = x_from stru:Dt ref
@method vmime::security::cert::X509Certificate::getExpirationDate = x_to stru:Dt ref
@method vmime::datetime::operator< = dt_lt bool ref ref
@method vmime::datetime::operator> = dt_gt bool ref ref
@type .*(YetValid|Expired)Exception = drop
@rust
// a point in time (the comparisons of datetime are under contract in unit dtarith)
#[derive(Clone, Copy)]
pub struct Dt { pub t: i64 }
pub fn clone_Dt(d: &Dt) -> (r: Dt) ensures r == *d { *d }
pub fn dt_lt(a: &Dt, b: &Dt) -> (r: bool) ensures r == (a.t < b.t) { a.t < b.t }
pub fn dt_gt(a: &Dt, b: &Dt) -> (r: bool) ensures r == (a.t > b.t) { a.t > b.t }
pub uninterp spec fn clock() -> i64;
pub uninterp spec fn from_of(c: X509) -> i64;
pub uninterp spec fn to_of(c: X509) -> i64;
#[verifier::external_body]
pub fn dt_now() -> (r: Dt) ensures r.t == clock() { unimplemented!() }
#[verifier::external_body]
pub fn x_from(c: &X509) -> (r: Dt) ensures r.t == from_of(*c) { unimplemented!() }
#[verifier::external_body]
pub fn x_to(c: &X509) -> (r: Dt) ensures r.t == to_of(*c) { unimplemented!() }
@fn vmime::security::cert::X509Certificate::checkValidity as x_valid
@constthis
@throws
@ensures
    res.is_ok() == (from_of(*this) <= clock() <= to_of(*this)),
    res.is_err() ==> res->Err_0.kind == (if clock() < from_of(*this) { sEXC_certificateNotYetValidException() } else { sEXC_certificateExpiredException() }),
