#include "common.hpp"
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
#include "vmime/security/cert/defaultCertificateVerifier.hpp"
#include "vmime/security/cert/unsupportedCertificateTypeException.hpp"
#include "vmime/security/cert/serverIdentityException.hpp"
#include "vmime/security/cert/certificateNotYetValidException.hpp"
#include "vmime/security/cert/certificateNotTrustedException.hpp"
#include "vmime/security/cert/certificateIssuerVerificationException.hpp"
#include "vmime/security/cert/certificateExpiredException.hpp"
#include "vmime/security/cert/certificateException.hpp"
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
using namespace rp;
using namespace vmime::security::cert;
typedef std::shared_ptr<X509Certificate> CP;
static gnutls_x509_privkey_t newKey() { gnutls_x509_privkey_t k; gnutls_x509_privkey_init(&k); gnutls_x509_privkey_generate(k, GNUTLS_PK_ECDSA, GNUTLS_CURVE_TO_BITS(GNUTLS_ECC_CURVE_SECP256R1), 0); return k; }
// what is known about a certificate that was made here
struct C { std::string name, subject, issuer, host; int key, signer; bool ca; time_t from, to; CP v; gnutls_x509_crt_t c; };
static std::vector<gnutls_x509_privkey_t> keys;
static std::vector<C> pool;
static time_t now0;
// subject, name of the issuer, own key, key it is signed with
static int make(const char* name, const char* subject, const char* issuer, int key, int signer, bool ca, time_t from, time_t to, const char* host = "") {
	C r{ name, subject, issuer, host, key, signer, ca, now0 + from, now0 + to, CP(), nullptr };
	while (static_cast<int>(keys.size()) <= std::max(key, signer)) keys.push_back(newKey());
	gnutls_x509_crt_t iss; gnutls_x509_crt_init(&iss); const char* err;
	gnutls_x509_crt_set_version(iss, 3); gnutls_x509_crt_set_dn(iss, (std::string("CN=") + issuer).c_str(), &err); gnutls_x509_crt_set_key(iss, keys[signer]);
	gnutls_x509_crt_init(&r.c); gnutls_x509_crt_set_version(r.c, 3);
	unsigned char sn[2] = { 1, static_cast<unsigned char>(pool.size() + 1) }; gnutls_x509_crt_set_serial(r.c, sn, 2);
	gnutls_x509_crt_set_dn(r.c, (std::string("CN=") + subject).c_str(), &err); gnutls_x509_crt_set_key(r.c, keys[key]);
	gnutls_x509_crt_set_activation_time(r.c, r.from); gnutls_x509_crt_set_expiration_time(r.c, r.to);
	gnutls_x509_crt_set_basic_constraints(r.c, ca, -1);
	if (ca) gnutls_x509_crt_set_key_usage(r.c, GNUTLS_KEY_KEY_CERT_SIGN);
	if (*host) gnutls_x509_crt_set_subject_alt_name(r.c, GNUTLS_SAN_DNSNAME, host, static_cast<unsigned>(strlen(host)), GNUTLS_FSAN_SET);
	int e = gnutls_x509_crt_sign2(r.c, iss, keys[signer], GNUTLS_DIG_SHA256, 0);
	gnutls_x509_crt_deinit(iss);
	if (e < 0) { fprintf(stderr, "cannot sign: %s\n", gnutls_strerror(e)); exit(3); }
	gnutls_datum_t d; gnutls_x509_crt_export2(r.c, GNUTLS_X509_FMT_DER, &d); r.v = X509Certificate::import(d.data, d.size); gnutls_free(d.data);
	pool.push_back(r); return static_cast<int>(pool.size()) - 1;
}
static bool valid(const C& c) { return c.from <= now0 && now0 <= c.to; }
static bool issued(const C& c, const C& by) { return c.issuer == by.subject && c.signer == by.key && (by.ca || c.v == by.v); }
static bool hostOk(const C& c, const std::string& h) { if (h.empty()) return false; if (c.host == h) return true; size_t d = h.find('.'); return c.host.compare(0, 2, "*.") == 0 && d != std::string::npos && d > 0 && c.host.substr(1) == h.substr(d); }
struct V { std::string name; std::vector<int> roots, trusted; };
static std::string kind(vmime::exception& e) {
	if (dynamic_cast<certificateIssuerVerificationException*>(&e)) return "issuer"; if (dynamic_cast<certificateExpiredException*>(&e)) return "expired"; if (dynamic_cast<certificateNotYetValidException*>(&e)) return "not-yet";
	if (dynamic_cast<certificateNotTrustedException*>(&e)) return "untrusted"; if (dynamic_cast<serverIdentityException*>(&e)) return "host"; return "other";
}
static void one(Run& r, const V& v, const std::vector<int>& ch, const std::string& host) {
	std::string desc = "chain [";
	for (int i : ch) desc += (desc.back() == '[' ? "" : ", ") + pool[i].name;
	r.begin(desc + "], " + v.name + ", host " + host, ch.size() > 1);
	std::string want = "accepted";
	bool link = true, times = true, exp = false, nyv = false, anchor = false;
	for (size_t i = 0; i + 1 < ch.size(); ++i) link = link && issued(pool[ch[i]], pool[ch[i + 1]]);
	for (int i : ch) { if (!valid(pool[i])) { times = false; (now0 > pool[i].to ? exp : nyv) = true; } }
	if (!ch.empty()) {
		for (int c : v.roots) if (valid(pool[c]) && (c == ch.back() || issued(pool[ch.back()], pool[c]))) anchor = true;
		for (int c : v.trusted) if (c == ch[0]) anchor = true;
	}
	if (ch.empty()) want = "untrusted"; else if (!link) want = "issuer"; else if (!times) want = exp && nyv ? "dates" : exp ? "expired" : "not-yet"; else if (!anchor) want = "untrusted"; else if (!hostOk(pool[ch[0]], host)) want = "host";
	defaultCertificateVerifier ver; std::vector<CP> a, b;
	for (int c : v.roots) a.push_back(pool[c].v);
	for (int c : v.trusted) b.push_back(pool[c].v);
	ver.setX509RootCAs(a); ver.setX509TrustedCerts(b);
	std::vector<std::shared_ptr<certificate>> l; for (int i : ch) l.push_back(pool[i].v);
	std::string got = "accepted";
	try { ver.verify(std::make_shared<certificateChain>(l), host); } catch (vmime::exception& e) { got = kind(e); }
	if (want == "dates" && (got == "expired" || got == "not-yet")) got = want;
	bool acc = (got == "accepted") == (want == "accepted");
	r.check(acc, want == "accepted" ? "refused" : "accepted-" + want, got == "accepted" ? "accepted, but must be refused (" + want + ")" : "refused (" + got + "), but is acceptable");
	if (acc) r.check(got == want, "reason", "refused as \"" + got + "\" instead of \"" + want + "\"");
}
int main(int argc, char** argv) {
	vmime::platform::setHandler<vmime::platforms::posix::posixHandler>();
	Run r(argc, argv);
	r.rule = "a certificate chain is accepted exactly if every link is signed, all are valid, it ends at an anchor and the host is that of the first";
	now0 = time(0); const time_t L = -100000, H = 1000000;
	int root = make("root", "Root", "Root", 0, 0, true, L, H), other = make("other-root", "Other", "Other", 1, 1, true, L, H), oldr = make("expired-root", "Old", "Old", 2, 2, true, L, -5000);
	int in = make("inter", "Inter", "Root", 3, 0, true, L, H), in2 = make("inter2", "Inter2", "Inter", 4, 3, true, L, H);
	make("leaf", "leaf", "Inter", 5, 3, false, L, H, "mail.example.com"); make("leaf2", "leaf2", "Inter2", 6, 4, false, L, H, "*.example.com"); int direct = make("direct", "direct", "Root", 7, 0, false, L, H, "mail.example.com");
	int forged = make("forged-leaf", "leaf", "Inter", 8, 8, false, L, H, "mail.example.com");
	make("forged-inter", "Inter", "Root", 8, 8, true, L, H); make("by-forged-inter", "leaf", "Inter", 9, 8, false, L, H, "mail.example.com");
	make("by-leaf", "victim", "leaf", 9, 5, false, L, H, "mail.example.com"); make("expired-leaf", "leaf", "Inter", 5, 3, false, L, -4000, "mail.example.com"); make("future-leaf", "leaf", "Inter", 5, 3, false, 4000, H, "mail.example.com");
	make("expired-inter", "Inter", "Root", 3, 0, true, L, -4000); make("under-expired-root", "x", "Old", 10, 2, false, L, H, "mail.example.com"); make("not-ca-inter", "Inter", "Root", 3, 0, false, L, H);
	int self = make("self-signed", "mail.example.com", "mail.example.com", 11, 11, false, L, H, "mail.example.com"), selfx = make("expired-self-signed", "self", "self", 11, 11, false, L, -4000, "mail.example.com"); make("forged-direct", "direct", "Root", 12, 12, false, L, H, "mail.example.com");
	make("under-other", "x", "Other", 13, 1, false, L, H, "mail.example.com");
	std::vector<V> vs = { { "roots {root}", { root }, {} }, { "roots {other-root, root}", { other, root }, {} }, { "no roots", {}, {} }, { "roots {expired-root}", { oldr }, {} }, { "trusted {self-signed}", {}, { self } }, { "trusted {forged-leaf}", {}, { forged } }, { "trusted {expired-self-signed}, roots {other-root}", { other }, { selfx } }, { "trusted {self-signed, direct}, roots {root}", { root }, { self, direct } }, { "roots {inter}", { in }, {} } };
	std::vector<std::string> hosts = { "mail.example.com", "www.example.com", "example.com", "mail.example.org", "a.mail.example.com", "" };
	int n = static_cast<int>(pool.size());
	for (const V& v : vs) { one(r, v, {}, hosts[0]); for (int i = 0; i < n; ++i) for (const std::string& h : hosts) one(r, v, { i }, h); }
	for (const V& v : vs) for (int i = 0; i < n && r.time(); ++i) for (int j = 0; j < n; ++j) one(r, v, { i, j }, hosts[r.rnd(3)]);
	// longer chains: mostly those with matching names
	for (int it = 0; (it < 6000 || r.thorough) && r.time(); ++it) {
		std::vector<int> ch; size_t len = 2 + r.rnd(4); ch.push_back(static_cast<int>(r.rnd(n)));
		while (ch.size() < len) {
			std::vector<int> c; for (int i = 0; i < n; ++i) if (pool[i].subject == pool[ch.back()].issuer) c.push_back(i);
			if (c.empty() || r.rnd(8) == 0) ch.push_back(static_cast<int>(r.rnd(n))); else ch.push_back(c[r.rnd(c.size())]);
		}
		one(r, vs[r.rnd(vs.size())], ch, hosts[r.rnd(3) ? 0 : r.rnd(hosts.size())]);
	}
	(void)in2;
	for (C& c : pool) gnutls_x509_crt_deinit(c.c);
	return r.finish();
}
