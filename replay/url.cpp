#include "common.hpp"
#include "vmime/utility/url.hpp"
#include "vmime/utility/urlUtils.hpp"
#include "vmime/base.hpp"
#include "vmime/exception.hpp"
using namespace rp;
using vmime::utility::url;
using vmime::utility::urlUtils;
typedef std::map<std::string, std::string> PM;
static bool plain(unsigned char c) { return c > 32 && c < 127 && !strchr("$&+,/:;=?@<>#%{}[]|\\^\"~`", c); }
static std::string refDecode(const std::string& t, bool& ok) {
	std::string o; ok = true;
	auto hv = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
	for (size_t i = 0; i < t.size(); ++i) { if (t[i] != '%') { o += t[i]; continue; } if (i + 2 >= t.size() || hv(t[i + 1]) < 0 || hv(t[i + 2]) < 0) { ok = false; return o; } o += static_cast<char>(hv(t[i + 1]) * 16 + hv(t[i + 2])); i += 2; }
	return o;
}
static void enc(Run& r, const std::string& s) {
	r.begin("encode " + hex(s), !s.empty());
	std::string e = urlUtils::encode(s); bool ok;
	for (unsigned char c : e) r.check(plain(c) || c == '%', "charset", "illegal character in " + hex(e));
	r.check(refDecode(e, ok) == s && ok, "encode", "encoded as " + hex(e));
	r.check(urlUtils::decode(e) == s, "decode", "decoded as " + hex(urlUtils::decode(e)));
	std::string d = refDecode(s, ok); std::string g = urlUtils::decode(s);
	if (ok) r.check(g == d, "decode", "decoded as " + hex(g));
}
static void trip(Run& r, const std::string& proto, const std::string& user, const std::string& pw, const std::string& host, unsigned port, const std::string& path, const PM& pm) {
	std::string d = "url proto=" + proto + " user=" + hex(user) + " password=" + hex(pw) + " host=" + hex(host) + " port=" + std::to_string(port) + " path=" + hex(path);
	for (auto& p : pm) d += " " + hex(p.first) + "->" + hex(p.second);
	r.begin(d);
	url u(proto, host, static_cast<vmime::port_t>(port), path, user, pw);
	u.getParams() = pm;
	std::string t = u;
	try {
		url v(t);
		r.check(v.getProtocol() == proto, "protocol", hex(t)); r.check(v.getUsername() == user, "user", hex(t)); r.check(v.getPassword() == pw, "password", hex(t));
		r.check(v.getHost() == host, "host", hex(t)); r.check(v.getPort() == port, "port", hex(t)); r.check(v.getPath() == path, "path", hex(t)); r.check(v.getParams() == pm, "params", hex(t));
		bool v6 = host.find(':') != std::string::npos; for (char c : host) if (c != ':' && !isxdigit(static_cast<unsigned char>(c))) v6 = false;
		r.check((t.find('[') != std::string::npos) == v6, "brackets", hex(t));
	} catch (vmime::exception& e) { r.fail("rejected", hex(t) + ": " + e.what()); }
	catch (std::exception& e) { r.fail("exception", hex(t) + ": " + e.what()); }
}
static void any(Run& r, const std::string& s) {
	r.begin("parse " + hex(s), !s.empty());
	try { url u(s); std::string t = u; if (u.getHost() != "" && u.getProtocol() != "file") { url v(t); (void) v; } }
	catch (vmime::exceptions::malformed_url&) {}
	catch (std::exception& e) { r.fail("exception", std::string("raises ") + e.what()); }
}
int main(int argc, char** argv) {
	Run r(argc, argv);
	r.rule = "percent-encoding of all strings of one and two bytes and random ones; URLs built from random parts (delimiters, blanks, hexadecimal and IPv6 hosts, any port, parameters) and parsed back; arbitrary texts made of delimiters parsed (only malformed_url may be raised). Non-trivial: non-empty input.";
	for (int a = 0; a < 256; ++a) { enc(r, std::string(1, static_cast<char>(a))); for (int b = 0; b < 256; b += 7) enc(r, std::string{static_cast<char>(a), static_cast<char>(b)}); }
	const char* hosts[] = {"h", "ab", "abc", "cafe", "a.b", "::1", ":", "fe80::1", "a:", "1", "x:", "[::1]", "a b", "host", "127.0.0.1", "g::1"};
	const char* parts[] = {"", "a", ":", "@", "/", "?", "&", "=", "%", "a b", "u:p@h/x?y=z&w", " ", "#", "\xff\x01", "[", "]"};
	PM none;
	for (auto h : hosts) for (auto p : parts) { trip(r, "imap", p, "", h, 65535, "", none); trip(r, "imaps", "u", p, h, 143, p, none); trip(r, "x-p+1.2", "", "", h, 1, p, PM{{p, p}}); trip(r, "smtp", p, "", h, 65534, p, PM{{"a", p}, {p, "b"}}); }
	for (unsigned p = 1; p < 65536; p += 331) trip(r, "pop3", "", "", "h", p, "p", none);
	r.allStrings("a:/@?=", r.thorough ? 6 : 4, [&](const std::string& s) { any(r, "i://" + s); any(r, s + "://h"); any(r, s); });
	while (r.time()) {
		static const std::string al = "ab0:/@?&=%[]+ #\"~\xe9.";
		auto w = [&](size_t n) { return r.rnd(3) ? r.bytes(r.rnd(n), al) : r.bytes(r.rnd(n)); };
		PM pm; for (size_t i = r.rnd(4); i > 0; --i) pm[w(5)] = w(6);
		std::string user = w(6), host = w(8); if (host.empty()) host = "x";
		trip(r, r.rnd(2) ? "imap" : "a" + r.bytes(r.rnd(5), "az09+-."), user, user.empty() ? "" : w(6), host, 1 + static_cast<unsigned>(r.rnd(65535)), w(12), pm);
		enc(r, w(20)); enc(r, "%" + r.bytes(2, "09afAF") + w(5));
		any(r, r.bytes(r.rnd(4), "ab@") + "://" + r.bytes(r.rnd(14), "a1:/@?&=[]%"));
	}
	return r.finish();
}
