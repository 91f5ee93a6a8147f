#include "common.hpp"
#include "vmime/vmime.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
using namespace rp;
using vmime::net::imap::IMAPUtils;
typedef vmime::net::folder::path FP;
typedef std::vector<unsigned> Cps;
static std::string utf8(const Cps& v) {
	std::string o;
	for (unsigned c : v) {
		if (c < 0x80) o += static_cast<char>(c);
		else if (c < 0x800) { o += static_cast<char>(0xc0 | c >> 6); o += static_cast<char>(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += static_cast<char>(0xe0 | c >> 12); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
		else { o += static_cast<char>(0xf0 | c >> 18); o += static_cast<char>(0x80 | (c >> 12 & 63)); o += static_cast<char>(0x80 | (c >> 6 & 63)); o += static_cast<char>(0x80 | (c & 63)); }
	}
	return o;
}
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
// what a modified UTF-7 text stands for (RFC 3501, 5.1.3)
static bool refDec(const std::string& t, Cps& out) {
	std::vector<unsigned> u; size_t i = 0;
	while (i < t.size()) {
		unsigned char c = static_cast<unsigned char>(t[i]);
		if (c != '&') { if (c < 0x20 || c > 0x7e) return false; u.push_back(c); ++i; continue; }
		++i;
		if (i < t.size() && t[i] == '-') { u.push_back('&'); ++i; continue; }
		unsigned acc = 0; int n = 0;
		for (; ; ++i) {
			if (i >= t.size()) return false;
			if (t[i] == '-') { ++i; break; }
			const char* p = strchr(AL, t[i]); if (!p) return false;
			acc = (acc << 6 | static_cast<unsigned>(p - AL)) & 0xffffff; n += 6;
			if (n >= 16) { n -= 16; u.push_back(acc >> n & 0xffff); acc &= (1u << n) - 1; }
		}
		if (n >= 6 || acc) return false;     // padding bits are zero
	}
	for (size_t k = 0; k < u.size(); ++k) {
		if (u[k] >= 0xd800 && u[k] < 0xdc00 && k + 1 < u.size() && u[k + 1] >= 0xdc00 && u[k + 1] < 0xe000) { out.push_back(0x10000 + (u[k] - 0xd800) * 1024 + (u[k + 1] - 0xdc00)); ++k; }
		else if (u[k] >= 0xd800 && u[k] < 0xe000) return false;
		else out.push_back(u[k]);
	}
	return true;
}
// one way to write it (maximal runs), another than that of the library
static std::string refEnc(const Cps& v, Run& g) {
	std::string o; size_t i = 0;
	while (i < v.size()) {
		if (v[i] == '&') { o += "&-"; ++i; continue; }
		if (v[i] >= 0x20 && v[i] < 0x7f) { o += static_cast<char>(v[i]); ++i; continue; }
		o += '&'; unsigned acc = 0; int n = 0;
		auto put = [&](unsigned x) { acc = (acc << 16 | x); n += 16; while (n >= 6) { n -= 6; o += AL[acc >> n & 63]; acc &= (1u << n) - 1; } };
		bool first = true;
		while (i < v.size() && (first || v[i] < 0x20 || v[i] > 0x7e || (g.rnd(3) == 0 && v[i] != '+' && v[i] != '-'))) {
			first = false;
			if (v[i] > 0xffff) { put(0xd800 + (v[i] - 0x10000) / 1024); put(0xdc00 + (v[i] - 0x10000) % 1024); } else put(v[i]);
			++i;
		}
		if (n) o += AL[acc << (6 - n) & 63];
		o += '-';
	}
	return o;
}
static bool plusMinus(const Cps& v) { for (size_t i = 0; i + 1 < v.size(); ++i) if (v[i] == '+' && v[i + 1] == '-') return true; return false; }
static std::string text(const FP::component& c) { return c.getConvertedText(vmime::charset("utf-8")); }
static void name(Run& r, Run& g, char sep, const Cps& v) {
	const std::string s = utf8(v);
	r.begin("folder name " + hex(s) + " separator " + std::string(1, sep), !v.empty());
	const std::string t = IMAPUtils::toModifiedUTF7(sep, FP::component(s, vmime::charset("utf-8")));
	Cps d; const bool ok = refDec(t, d);
	r.check(ok && d == v, "encode", "written as " + hex(t) + (ok ? ", which stands for " + hex(utf8(d)) : ", which is not modified UTF-7"));
	r.check(t.find(sep) == std::string::npos, "separator", "written as " + hex(t));
	const char* const pk = plusMinus(v) ? "plus-minus" : "decode";
	const std::string b = text(IMAPUtils::fromModifiedUTF7(t));
	r.check(b == s, pk, "written as " + hex(t) + ", read back as " + hex(b));
	const std::string t2 = refEnc(v, g), b2 = text(IMAPUtils::fromModifiedUTF7(t2));
	r.check(b2 == s, pk, "the server sends " + hex(t2) + ", read as " + hex(b2));
}
static void path(Run& r, char sep, const std::vector<Cps>& v) {
	FP p; std::string d; bool pm = false;
	for (auto& c : v) { p /= FP::component(utf8(c), vmime::charset("utf-8")); d += " " + hex(utf8(c)); pm |= plusMinus(c); }
	r.begin("folder path" + d + " separator " + std::string(1, sep), v.size() > 1);
	const std::string t = IMAPUtils::pathToString(sep, p);
	const FP q = IMAPUtils::stringToPath(sep, t);
	bool same = q.getSize() == v.size(); std::string e;
	for (size_t i = 0; i < q.getSize(); ++i) { e += " " + hex(text(q[i])); if (same && text(q[i]) != utf8(v[i])) same = false; }
	r.check(same, pm ? "plus-minus" : "path", "written as " + hex(t) + ", read back as" + e);
	const FP q2 = IMAPUtils::stringToPath(sep, t + sep);
	if (!pm && !v.empty()) r.check(q2 == q, "path", "with a separator at the end: " + hex(t));
}
static void quote(Run& r, const std::string& s) {
	r.begin("quote " + hex(s), !s.empty());
	const std::string q = IMAPUtils::quoteString(s);
	for (char c : q) r.check(c != '\r' && c != '\n' && c != 0, "quote", "sent as " + hex(q));
	std::string o; bool ok = true;
	if (!q.empty() && q[0] == '"') {
		size_t i = 1; bool open = true;
		for (; i < q.size(); ++i) {
			if (q[i] == '"') { open = false; ++i; break; }
			if (q[i] == '\\') { ++i; if (i >= q.size() || (q[i] != '"' && q[i] != '\\')) { ok = false; break; } }
			o += q[i];
		}
		ok = ok && !open && i == q.size();
	} else {
		o = q; ok = !q.empty();
		for (unsigned char c : q) if (c <= 32 || c >= 127 || strchr("(){%*\"\\", c)) ok = false;
	}
	r.check(ok && o == s, "quote", "sent as " + hex(q));
}
int main(int argc, char** argv) {
	Run r(argc, argv); Run& g = r;
	if (r.prop == "C18") {
		r.rule = "independent modified UTF-7 codec (RFC 3501 5.1.3): what is written stands for the name, has no separator and is read back; other encodings of it too; quoted strings are read by the grammar of RFC 3501";
		const unsigned SP[] = {'+', '-', '~', '\\', '&', '/', '.', ',', ' ', 'a', 'Z', '"', 0x7f, 0x1f, 0x20, 0x7e, 0xe9, 0x7ff, 0x800, 0xfffd, 0x20ac, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff};
		const char SEP[] = {'/', '.', '|', '\\', '~', ':', '%', ' '};
		for (unsigned a : SP) for (char s : {'/', '.', '\\'}) { name(r, g, s, {a}); for (unsigned b : SP) { name(r, g, s, {a, b}); for (unsigned c : SP) if (s == '/') name(r, g, s, {a, b, c}); } }
		for (unsigned c = 1; c < 0x110000 && r.time(); c += c < 0x3000 ? 1 : 37) if (c < 0xd800 || c > 0xdfff) name(r, g, '/', {c, 'x'});
		auto rnd = [&](size_t mx) { Cps v; size_t n = g.rnd(mx); for (size_t i = 0; i < n; ++i) { unsigned k = g.rnd(6); unsigned c = k < 3 ? SP[g.rnd(sizeof SP / sizeof *SP)] : k == 3 ? 0x20 + g.rnd(95) : k == 4 ? 0x80 + g.rnd(0xd780) : 0x10000 + g.rnd(0x100000); if (c >= 0xd800 && c < 0xe000) c = 'x'; v.push_back(c); } return v; };
		for (int a = 1; a < 256; ++a) { if (a == 10 || a == 13) continue; quote(r, std::string(1, static_cast<char>(a))); quote(r, "x" + std::string(1, static_cast<char>(a)) + "y"); quote(r, " " + std::string(2, static_cast<char>(a))); }
		quote(r, "");
		while (r.time()) {
			char s = SEP[g.rnd(sizeof SEP)];
			name(r, g, s, rnd(g.rnd(8) ? 8 : 60));
			std::vector<Cps> p; size_t n = g.rnd(6); for (size_t i = 0; i < n; ++i) { Cps c = rnd(6); if (c.empty()) c.push_back('q'); p.push_back(c); }
			path(r, s, p);
			std::string q; size_t m = g.rnd(14); for (size_t i = 0; i < m; ++i) { char c = g.rnd(3) ? static_cast<char>(0x20 + g.rnd(95)) : g.rnd(2) ? "\"\\ (){%*"[g.rnd(8)] : static_cast<char>(1 + g.rnd(255)); if (c != '\r' && c != '\n') q += c; } quote(r, q);
		}
	}
	return r.finish();
}
