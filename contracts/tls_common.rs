// sockets, TLS sessions and verifiers are named by an identity; what is said about them does not change in time
#[derive(Clone, Copy)]
pub struct Sock { pub id: u64 }
#[derive(Clone, Copy)]
pub struct Sess { pub id: u64 }
#[derive(Clone, Copy)]
pub struct Verif { pub id: u64 }
#[derive(Clone, Copy)]
pub struct Trans { pub id: u64 }
#[derive(Clone, Copy)]
pub struct Cmd { pub id: u64 }
#[derive(Clone, Copy)]
pub struct Reply { pub id: u64 }
pub open spec fn none_sock() -> Sock { Sock { id: 0 } }
pub fn Sock_null() -> (r: Sock) ensures r == none_sock() { Sock { id: 0 } }
pub fn clone_Sock(c: &Sock) -> (r: Sock) ensures r == *c { *c }
pub fn clone_Sess(c: &Sess) -> (r: Sess) ensures r == *c { *c }
pub fn clone_Verif(c: &Verif) -> (r: Verif) ensures r == *c { *c }
pub fn clone_Trans(c: &Trans) -> (r: Trans) ensures r == *c { *c }
pub fn clone_Cmd(c: &Cmd) -> (r: Cmd) ensures r == *c { *c }
pub fn clone_Reply(c: &Reply) -> (r: Reply) ensures r == *c { *c }
// s is the TLS socket of the session e on top of w
pub uninterp spec fn tls_over(s: Sock, e: Sess, w: Sock) -> bool;
// the verifier which the session e asks about certificates
pub uninterp spec fn sess_verifier(e: Sess) -> Verif;
pub uninterp spec fn verifier_of(t: Trans) -> Verif;
// the handshake of s has succeeded, with certificates accepted by the verifier of its session (unit tlshs)
pub uninterp spec fn shaken(s: Sock) -> bool;
pub open spec fn secure(s: Sock, w: Sock, t: Trans) -> bool { shaken(s) && exists|e: Sess| #[trigger] tls_over(s, e, w) && sess_verifier(e) == verifier_of(t) }
#[verifier::external_body]
pub fn tls_create(v: &Verif) -> (r: Sess) ensures sess_verifier(r) == *v { unimplemented!() }
#[verifier::external_body]
pub fn get_verifier(t: &Trans) -> (r: Verif) ensures r == verifier_of(*t) { unimplemented!() }
#[verifier::external_body]
pub fn tls_socket(e: &Sess, w: &Sock) -> (r: Sock) ensures tls_over(r, *e, *w), r != none_sock() { unimplemented!() }
// a failed handshake raises a TLS, certificate, socket or time-out exception, never a command_error
#[verifier::external_body]
pub fn tls_handshake(s: &mut Sock) -> (r: Result<(), Exc>) ensures *final(s) == *old(s), r is Ok ==> shaken(*old(s)), r is Err ==> !refusal(r->Err_0.kind) { unimplemented!() }
// exceptions::command_error and what derives from it: the server has answered with an error
pub uninterp spec fn refusal(k: u64) -> bool;
#[verifier::external_body]
pub fn catch_command_error(e: &Exc) -> (r: bool) ensures r == refusal(e.kind) { unimplemented!() }

// the settings
#[derive(Clone, Copy)]
pub struct PropId { pub id: u64 }
#[derive(Clone, Copy)]
pub struct Infos { pub id: u64 }
#[derive(Clone, Copy)]
pub struct Tof { pub id: u64 }
#[derive(Clone, Copy)]
pub struct Sof { pub id: u64 }
pub fn clone_Tof(c: &Tof) -> (r: Tof) ensures r == *c { *c }
pub fn clone_Sof(c: &Sof) -> (r: Sof) ensures r == *c { *c }
pub fn clone_Infos(c: &Infos) -> (r: Infos) ensures r == *c { *c }
pub fn Tof_isset(c: &Tof) -> (r: bool) { c.id != 0 }
pub uninterp spec fn infos_of(t: Trans) -> Infos;
pub uninterp spec fn has(i: Infos, p: PropId) -> bool;
pub uninterp spec fn setting(i: Infos, p: PropId) -> bool;
pub uninterp spec fn implicit_tls(t: Trans) -> bool;
#[verifier::external_body]
pub fn get_infos(t: &Trans) -> (r: Infos) ensures r == infos_of(*t) { unimplemented!() }
#[verifier::external_body]
pub fn get_tof(t: &Trans) -> (r: Tof) { unimplemented!() }
#[verifier::external_body]
pub fn get_sof(t: &Trans) -> (r: Sof) { unimplemented!() }
#[verifier::external_body]
pub fn sock_create(t: &Sof) -> (r: Sock) ensures r != none_sock() { unimplemented!() }
pub fn sock_set_tracer(s: &mut Sock) ensures *final(s) == *old(s) { }
// connecting a TLS socket includes the handshake (units tlshs, and TLSSocket::connect)
#[verifier::external_body]
pub fn sock_connect(s: &mut Sock) -> (r: Result<(), Exc>) ensures *final(s) == *old(s), r is Ok ==> forall|e: Sess, w: Sock| #[trigger] tls_over(*old(s), e, w) ==> shaken(*old(s)) { unimplemented!() }
#[verifier::external_body]
pub fn implicit_tls_x(t: &Trans) -> (r: bool) ensures r == implicit_tls(*t) { unimplemented!() }
#[verifier::external_body]
pub fn has_prop(i: &Infos, p: &PropId) -> (r: bool) ensures r == has(*i, *p) { unimplemented!() }
#[verifier::external_body]
pub fn get_bool(i: &Infos, p: &PropId) -> (r: bool) ensures r == setting(*i, *p) { unimplemented!() }
#[verifier::external_body]
pub fn get_str(i: &Infos, p: &PropId) -> (r: Vec<u8>) { unimplemented!() }
#[verifier::external_body]
pub fn get_u16(i: &Infos, p: &PropId) -> (r: u16) { unimplemented!() }
pub open spec fn asks(t: Trans, p: PropId) -> bool { has(infos_of(t), p) && setting(infos_of(t), p) }
pub open spec fn secure_over(s: Sock, t: Trans) -> bool { exists|w: Sock| secure(s, w, t) }
