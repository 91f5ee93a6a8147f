#include "common.hpp"
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
#include "vmime/security/cert/defaultCertificateVerifier.hpp"
#include "vmime/net/smtp/smtp.hpp"
#include "vmime/net/pop3/pop3.hpp"
#include "vmime/net/imap/imap.hpp"
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <chrono>
using namespace rp;
using namespace vmime::net;
using vmime::string; using vmime::byte_t; using vmime::shared_ptr;
// a connection in memory: what each side has sent and the other has not read, or that it has closed
struct Wire {
	std::mutex m; std::condition_variable cv; string c2s, s2c; bool closedC = false, closedS = false, connected = false;
	bool wait(string& q, bool& closed, int ms) { std::unique_lock<std::mutex> l(m); return cv.wait_for(l, std::chrono::milliseconds(ms), [&] { return !q.empty() || closed; }); }
	void put(string& q, const string& t) { std::lock_guard<std::mutex> l(m); q += t; cv.notify_all(); }
	size_t get(string& q, void* b, size_t n) { std::lock_guard<std::mutex> l(m); n = std::min(n, q.size()); memcpy(b, q.data(), n); q.erase(0, n); return n; }
	void close(bool& c) { std::lock_guard<std::mutex> l(m); c = true; cv.notify_all(); }
};
struct Sok : vmime::net::socket {
	std::shared_ptr<Wire> w; shared_ptr<timeoutHandler> th; bool on = false;
	Sok(std::shared_ptr<Wire> w_, shared_ptr<timeoutHandler> t) : w(w_), th(t) { }
	~Sok() { w->close(w->closedC); }
	void connect(const string&, const vmime::port_t) { on = true; std::lock_guard<std::mutex> l(w->m); w->connected = true; w->cv.notify_all(); }
	void disconnect() { on = false; w->close(w->closedC); }
	bool isConnected() const { return on; }
	bool waitForRead(const int ms) { return w->wait(w->s2c, w->closedS, ms); }
	bool waitForWrite(const int) { return true; }
	size_t receiveRaw(byte_t* b, const size_t n) {
		if (!waitForRead(50)) { if (th && th->isTimeOut() && !th->handleTimeOut()) throw vmime::exceptions::socket_exception("time-out"); return 0; }
		size_t k = w->get(w->s2c, b, n);
		if (k == 0) { on = false; throw vmime::exceptions::socket_exception("closed"); }
		if (th) th->resetTimeOut();
		return k;
	}
	void receive(string& b) { byte_t t[8192]; size_t n = receiveRaw(t, sizeof t); b = string(reinterpret_cast<char*>(t), n); }
	void send(const string& b) { w->put(w->c2s, b); }
	void send(const char* s) { send(string(s)); }
	void sendRaw(const byte_t* b, const size_t n) { send(string(reinterpret_cast<const char*>(b), n)); }
	size_t sendRawNonBlocking(const byte_t* b, const size_t n) { sendRaw(b, n); return n; }
	size_t getBlockSize() const { return 8192; }
	unsigned int getStatus() const { return 0; }
	const string getPeerName() const { return "h.example"; }
	const string getPeerAddress() const { return "192.0.2.1"; }
	shared_ptr<timeoutHandler> getTimeoutHandler() { return th; }
	void setTracer(const shared_ptr<tracer>&) { }
	shared_ptr<tracer> getTracer() { return shared_ptr<tracer>(); }
};
struct SokFactory : socketFactory { std::shared_ptr<Wire> w; shared_ptr<vmime::net::socket> create() { return vmime::make_shared<Sok>(w, shared_ptr<timeoutHandler>()); } shared_ptr<vmime::net::socket> create(const shared_ptr<timeoutHandler>& t) { return vmime::make_shared<Sok>(w, t); } };
struct Th : timeoutHandler { std::chrono::steady_clock::time_point t; Th() { resetTimeOut(); } bool isTimeOut() { return std::chrono::steady_clock::now() - t > std::chrono::seconds(10); } void resetTimeOut() { t = std::chrono::steady_clock::now(); } bool handleTimeOut() { return false; } };
struct ThFactory : timeoutHandlerFactory { shared_ptr<timeoutHandler> create() { return vmime::make_shared<Th>(); } };
// certificates
struct Id { gnutls_x509_privkey_t k; gnutls_x509_crt_t c; shared_ptr<vmime::security::cert::X509Certificate> v; };
static Id mk(const char* cn, const char* host, const Id* by) {
	static unsigned char sn = 0; Id r; const char* err; time_t n = time(0);
	gnutls_x509_privkey_init(&r.k); gnutls_x509_privkey_generate(r.k, GNUTLS_PK_ECDSA, GNUTLS_CURVE_TO_BITS(GNUTLS_ECC_CURVE_SECP256R1), 0);
	gnutls_x509_crt_init(&r.c); gnutls_x509_crt_set_version(r.c, 3); ++sn; gnutls_x509_crt_set_serial(r.c, &sn, 1);
	gnutls_x509_crt_set_dn(r.c, (string("CN=") + cn).c_str(), &err); gnutls_x509_crt_set_key(r.c, r.k);
	gnutls_x509_crt_set_activation_time(r.c, n - 9999); gnutls_x509_crt_set_expiration_time(r.c, n + 99999); gnutls_x509_crt_set_basic_constraints(r.c, by == nullptr, -1);
	if (!by) gnutls_x509_crt_set_key_usage(r.c, GNUTLS_KEY_KEY_CERT_SIGN);
	if (host) gnutls_x509_crt_set_subject_alt_name(r.c, GNUTLS_SAN_DNSNAME, host, static_cast<unsigned>(strlen(host)), GNUTLS_FSAN_SET);
	gnutls_x509_crt_sign2(r.c, by ? by->c : r.c, by ? by->k : r.k, GNUTLS_DIG_SHA256, 0);
	gnutls_datum_t d; gnutls_x509_crt_export2(r.c, GNUTLS_X509_FMT_DER, &d); r.v = vmime::security::cert::X509Certificate::import(d.data, d.size); gnutls_free(d.data);
	return r;
}
enum Proto { SMTP, POP3, IMAP };
enum Shake { GOOD, UNTRUSTED, WRONGHOST, GARBAGE, CLOSE, REFUSED, SILENT };
static const char* PN[] = { "SMTP", "POP3", "IMAP" };
static const char* SN[] = { "a trusted certificate", "an untrusted certificate", "the certificate of another host", "no TLS after the positive reply", "closing after the positive reply", "a refusal", "an error reply to the upgrade which asks for nothing" };
static Id ca, other, ids[3];
// the server: what it has received in clear and after the handshake
struct Srv {
	std::shared_ptr<Wire> w; Proto p; Shake sh; bool direct; bool login; bool odd = false; string inject; std::vector<string> clear, tls; bool secured = false, shaken = false; gnutls_session_t g = nullptr; gnutls_certificate_credentials_t cred = nullptr;
	static ssize_t push(gnutls_transport_ptr_t t, const void* b, size_t n) { Srv* s = static_cast<Srv*>(t); s->w->put(s->w->s2c, string(static_cast<const char*>(b), n)); return static_cast<ssize_t>(n); }
	static ssize_t pull(gnutls_transport_ptr_t t, void* b, size_t n) { Srv* s = static_cast<Srv*>(t); if (!s->w->wait(s->w->c2s, s->w->closedC, 5000)) return 0; return static_cast<ssize_t>(s->w->get(s->w->c2s, b, n)); }
	static int pullTimeout(gnutls_transport_ptr_t, unsigned) { return 1; }
	string in;
	bool more() {
		char b[4096]; ssize_t n;
		if (secured) { do { n = gnutls_record_recv(g, b, sizeof b); } while (n == GNUTLS_E_AGAIN || n == GNUTLS_E_INTERRUPTED); if (n <= 0) return false; }
		else { if (!w->wait(w->c2s, w->closedC, 5000)) return false; n = static_cast<ssize_t>(w->get(w->c2s, b, sizeof b)); if (n == 0) return false; }
		in.append(b, static_cast<size_t>(n)); return true;
	}
	bool line(string& l) { size_t e; while ((e = in.find("\r\n")) == string::npos) if (!more()) return false; l = in.substr(0, e); in.erase(0, e + 2); return true; }
	void out(const string& t) { if (secured) gnutls_record_send(g, t.data(), t.size()); else w->put(w->s2c, t); }
	bool upgrade() {
		if (sh == GARBAGE) { if (more()) in.clear(); out("this is not TLS\r\n"); return true; }
		if (sh == CLOSE) return false;
		gnutls_certificate_allocate_credentials(&cred); Id& i = ids[sh == UNTRUSTED ? 1 : sh == WRONGHOST ? 2 : 0]; gnutls_certificate_set_x509_key(cred, &i.c, 1, i.k);
		gnutls_init(&g, GNUTLS_SERVER); gnutls_set_default_priority(g); gnutls_credentials_set(g, GNUTLS_CRD_CERTIFICATE, cred);
		gnutls_transport_set_ptr(g, this); gnutls_transport_set_push_function(g, push); gnutls_transport_set_pull_function(g, pull); gnutls_transport_set_pull_timeout_function(g, pullTimeout);
		in.clear(); int e; do { e = gnutls_handshake(g); } while (e < 0 && !gnutls_error_is_fatal(e));
		if (e < 0) return false;
		secured = shaken = true; return true;
	}
	void run() {
		{ std::unique_lock<std::mutex> l(w->m); w->cv.wait(l, [&] { return w->connected || w->closedC; }); }
		if (!w->closedC) talk();
		w->close(w->closedS);
		if (g) gnutls_deinit(g); if (cred) gnutls_certificate_free_credentials(cred);
	}
	void talk() {
		if (direct && !upgrade()) return;
		out(p == SMTP ? "220 h\r\n" : p == POP3 ? "+OK h\r\n" : odd ? "* PREAUTH h\r\n" : "* OK h\r\n");
		string l; bool data = false;
		while (line(l)) {
			(secured ? tls : clear).push_back(l);
			if (data) { if (l == ".") { data = false; out("250 taken\r\n"); } continue; }
			string tag, c = l; if (p == IMAP) { tag = l.substr(0, l.find(' ')) + " "; c = l.substr(std::min(l.size(), tag.size())); }
			c = c.substr(0, c.find(' '));
			if (c == "STARTTLS" || c == "STLS") {
				if (sh == REFUSED) { out(p == SMTP ? "454 no\r\n" : p == POP3 ? "-ERR no\r\n" : tag + "NO no\r\n"); continue; }
				if (sh == SILENT) { out(p == SMTP ? "503 no\r\n" : p == POP3 ? "-ERR no\r\n" : tag + "BAD no\r\n"); continue; }
				out((p == SMTP ? "220 go\r\n" : p == POP3 ? "+OK go\r\n" : tag + "OK go\r\n") + inject);
				if (!upgrade()) return;
			}
			else if (c == "EHLO" && odd) out("502 no\r\n");
			else if (c == "HELO" && p == SMTP) out("250 h\r\n");
			else if (c == "EHLO") out(secured ? "250-h\r\n250 SIZE 700\r\n" : "250-h\r\n250-CHUNKING\r\n250-SIZE 1\r\n250 STARTTLS\r\n");
			else if (p == SMTP && (c == "MAIL" || c == "RCPT" || c == "RSET")) out("250 ok\r\n");
			else if (p == SMTP && c == "DATA") { data = true; out("354 go\r\n"); }
			else if (c == "NOOP") out("451 the reply to NOOP\r\n");
			else if (c == "AUTH") out("535 no\r\n");
			else if (c == "CAPA") out("-ERR no\r\n");
			else if (c == "USER") out("+OK\r\n");
			else if (c == "PASS") out(login ? "+OK\r\n" : "-ERR no\r\n");
			else if (c == "LOGIN") out(tag + (login ? "OK x\r\n" : "NO no\r\n"));
			else if (c == "CAPABILITY") out("* CAPABILITY IMAP4rev1\r\n" + tag + "OK x\r\n");
			else if (c == "LIST") out("* LIST () \"/\" \"\"\r\n" + tag + "OK x\r\n");
			else if (c == "QUIT" || c == "LOGOUT") { out(p == SMTP ? "221 bye\r\n" : p == POP3 ? "+OK\r\n" : "* BYE\r\n" + tag + "OK x\r\n"); return; }
			else out(p == SMTP ? "500 no\r\n" : p == POP3 ? "-ERR no\r\n" : tag + "BAD no\r\n");
		}
	}
};
static bool secret(const std::vector<string>& v) { for (auto& l : v) if (l.find("AUTH") == 0 || l.find("USER") == 0 || l.find("PASS") == 0 || l.find("LOGIN") != string::npos || l.find("hush") != string::npos) return true; return false; }
static void one(Run& r, Proto p, Shake sh, bool direct, bool tls, bool required, bool login, const string& inject, bool odd = false) {
	r.begin(string(PN[p]) + (direct ? " over TLS" : tls ? required ? ", TLS required" : ", TLS if possible" : ", no TLS") + ": server with " + SN[sh] + (login ? ", accepts" : ", refuses") + " the user, sends after its positive reply " + hex(inject) + (odd ? p == SMTP ? ", knows HELO only" : p == POP3 ? ", greets without a time stamp" : ", greets with PREAUTH" : ""), tls || direct);
	auto w = std::make_shared<Wire>(); Srv s; s.w = w; s.p = p; s.sh = sh; s.direct = direct; s.login = login; s.inject = inject; s.odd = odd;
	std::thread t([&] { s.run(); });
	bool ok = false, con = false, sec = false, closed = false, noop = false, sent = false; string err;
	{
		auto sess = session::create(); sess->getProperties()["store.protocol"] = "x";
		auto f = vmime::make_shared<SokFactory>(); f->w = w;
		auto cv = vmime::make_shared<vmime::security::cert::defaultCertificateVerifier>(); cv->setX509RootCAs({ ca.v });
		shared_ptr<service> sv; shared_ptr<transport> tr;
		vmime::utility::url u(string(p == SMTP ? direct ? "smtps" : "smtp" : p == POP3 ? direct ? "pop3s" : "pop3" : direct ? "imaps" : "imap") + "://u:hush@h.example");
		if (p == SMTP) sv = tr = sess->getTransport(u); else sv = sess->getStore(u);
		sv->setSocketFactory(f); sv->setTimeoutHandlerFactory(vmime::make_shared<ThFactory>()); sv->setCertificateVerifier(cv);
		if (!direct) { sv->setProperty("connection.tls", tls); sv->setProperty("connection.tls.required", required); }
		if (p == SMTP) sv->setProperty("options.need-authentication", !login); else sv->setProperty("options.sasl", false);
		if (p == POP3) sv->setProperty("options.apop", false);
		if (p == SMTP && !login) { sv->setProperty("options.sasl", true); }
		try { sv->connect(); ok = true; } catch (vmime::exception& e) { err = string(e.name()) + ": " + e.what(); }
		con = sv->isConnected(); try { sec = sv->isSecuredConnection(); } catch (vmime::exception&) { }
		closed = w->closedC;
		if (ok && tr) { try { tr->noop(); noop = true; } catch (vmime::exception&) { } }
		if (ok && tr && inject.empty()) { try { vmime::mailboxList to; to.appendMailbox(vmime::make_shared<vmime::mailbox>("b@h.example")); string m = "Subject: x\r\n\r\nhello\r\n"; vmime::utility::inputStreamStringAdapter in(m); tr->send(vmime::mailbox("a@h.example"), to, in, m.size()); sent = true; } catch (vmime::exception& e) { err = string(e.name()) + ": " + e.what(); } }
		try { if (con) sv->disconnect(); } catch (vmime::exception&) { }
	}
	w->close(w->closedC); { std::lock_guard<std::mutex> l(w->m); w->connected = true; w->cv.notify_all(); } t.join();
	bool reached = sh == GOOD, upgraded = s.shaken && reached && (direct || tls);
	// nothing secret in clear unless the user accepts that
	r.check(!secret(s.clear) || !(direct || (tls && required)), "secret-clear", "credentials were sent in clear");
	if ((tls || direct) && sh != GOOD && sh != REFUSED && sh != SILENT) {
		r.check(!ok && !con && (direct || (!sec && closed)), "failed-upgrade", "the upgrade has failed, yet connect() " + string(ok ? "returned" : "threw") + ", connected " + std::to_string(con) + ", said to be secured " + std::to_string(sec) + ", closed " + std::to_string(closed));
		r.check(!secret(s.clear) && !secret(s.tls), "failed-upgrade-secret", "credentials were sent after a failed upgrade");
	}
	r.check(!con || !sec || upgraded, "said-secured", "the connection is said to be secured and is not");
	if (tls && required && (sh == REFUSED || sh == SILENT)) r.check(!ok && !con, "required", "TLS is required and refused, yet connect() " + string(ok ? "returned" : "threw"));
	bool inClear = (!tls && !direct) || (tls && !required && !direct && (sh == REFUSED || sh == SILENT));
	if ((inClear || sh == GOOD) && inject.empty()) {
		bool want = login || (odd && p == IMAP);
		if (odd && p == SMTP && !login) want = false;
		r.check(ok == want, "connect", "connect() " + string(ok ? "returned" : "threw " + err) + " although the server " + (login ? "accepts" : "refuses"));
		if (ok) r.check(sec == !inClear, "secured", "said to be secured: " + std::to_string(sec));
	}
	// the extensions are those announced over the connection as it is now
	if (ok && p == SMTP && inject.empty()) { const auto& v = inClear ? s.clear : s.tls; bool bdat = false; for (auto& l : v) bdat = bdat || l.find("BDAT") == 0; r.check(inClear || (sent && !bdat), "extensions", "a message " + string(sent ? "was sent" : "could not be sent (" + err + ")") + (bdat ? " with BDAT" : "") + " after the upgrade: the server offers SIZE 700 and no CHUNKING now"); if (!inClear) r.check(!v.empty() && (v[0].find("EHLO") == 0), "ehlo", "the extensions are not asked for after the upgrade"); }
	// what was sent in clear after the reply counts for nothing: the outcome is that of the real replies (or an error)
	if (sh == GOOD && !inject.empty()) {
		r.check(!ok || login, "injected", "connect() succeeded with the text received in clear: the server has refused the user");
		r.check(!noop, "injected-noop", "NOOP succeeded with the text received in clear");
		if (ok) r.check(sec && s.shaken, "injected-secured", "not secured");
	}
	if (ok && p == SMTP && inject.empty()) r.check(!noop, "noop", "the reply to NOOP is not the one of the server");
}
int main(int argc, char** argv) {
	Run r(argc, argv);
	vmime::platform::setHandler<vmime::platforms::posix::posixHandler>(); gnutls_global_init();
	ca = mk("Root", 0, 0); other = mk("Other", 0, 0); ids[0] = mk("a", "h.example", &ca); ids[1] = mk("b", "h.example", &other); ids[2] = mk("c", "g.example", &ca);
	r.rule = "SMTP, POP3 and IMAP against a server in memory with real TLS handshakes: with and without TLS, required or not, and a server that refuses, has a bad certificate, breaks off, or sends text in clear after its positive reply; what the server sees in clear, the outcome of connect(), and what the connection is said to be; this harness is bounded to those";
	std::vector<string> inj[3] = {
		{ "250 x\r\n", "250-x\r\n250 AUTH PLAIN\r\n", "250 x\r\n250 y\r\n", "235 x\r\n", "\r\n", "25", "220 x\r\n250 x\r\n250 x\r\n" },
		{ "+OK x\r\n", "+OK x\r\n+OK x\r\n", "+OK x\r\n+OK x\r\n+OK x\r\n", "-ERR x\r\n" },
		{ "a002 OK x\r\n", "a002 OK x\r\na003 OK x\r\n", "* CAPABILITY AUTH=PLAIN\r\na002 OK x\r\na003 OK\r\na004 OK\r\n", "a003 OK x\r\n", "* OK x\r\n", "a00", "a002 OK x\r\na003 OK x\r\na004 OK x\r\na005 OK x\r\n" } };
	do {
		for (int p = 0; p < 3; ++p) {
			for (int sh = 0; sh < 7; ++sh) for (int m = 0; m < 4; ++m) for (int l = 0; l < 2; ++l) {
				if (m == 3 && (sh == REFUSED || sh == SILENT)) continue;
				if (m == 2 && sh != GOOD) continue;
				one(r, Proto(p), Shake(sh), m == 3, m < 2, m == 0, l, "");
				if (p != POP3 && r.time()) one(r, Proto(p), Shake(sh), m == 3, m < 2, m == 0, l, "", true);
				if (!r.time()) break;
			}
			for (auto& i : inj[p]) for (int m = 0; m < 2; ++m) for (int l = 0; l < 2; ++l) if (r.time()) one(r, Proto(p), GOOD, false, true, m == 0, l, i);
		}
	} while (r.thorough && r.time());
	return r.finish();
}
