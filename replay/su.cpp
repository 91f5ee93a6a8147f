#include "common.hpp"
#include "vmime/base.hpp"
#include "vmime/utility/stringUtils.hpp"
using namespace rp;
typedef vmime::utility::stringUtils SU;
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int upp(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static std::string mapc(const std::string& s, int (*f)(int)) { std::string o; for (unsigned char c : s) o += static_cast<char>(f(c)); return o; }
static bool an(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool host(const std::string& s, int& dots) {
	dots = 0;
	std::vector<std::string> labels(1);
	for (char c : s) { if (c == '.') { labels.push_back(""); ++dots; } else labels.back() += c; }
	for (auto& l : labels) { if (l.empty() || l.front() == '-' || l.back() == '-') return false; for (char c : l) if (!an(c) && c != '-') return false; }
	return true;
}
static void one(Run& r, const std::string& s) {
	r.begin("text " + hex(s), !s.empty());
	r.check(SU::toLower(s) == mapc(s, low), "lower", hex(SU::toLower(s)));
	r.check(SU::toUpper(s) == mapc(s, upp), "upper", hex(SU::toUpper(s)));
	size_t b = 0, e = s.size();
	while (b < e && sp(s[b])) ++b;
	while (e > b && sp(s[e - 1])) --e;
	r.check(SU::trim(s) == s.substr(b, e - b), "trim", hex(SU::trim(s)));
	size_t n = 0, first = std::string::npos;
	for (size_t i = 0; i < s.size(); ++i) {
		if (static_cast<unsigned char>(s[i]) >= 128) { if (first == std::string::npos) first = i; continue; }
		if (s[i] != '=' || (i + 1 < s.size() && s[i + 1] != '?')) ++n;
	}
	r.check(SU::countASCIIchars(s.begin(), s.end()) == n, "count-ascii", std::to_string(SU::countASCIIchars(s.begin(), s.end())));
	r.check(SU::findFirstNonASCIIchar(s.begin(), s.end()) == first, "find-non-ascii", std::to_string(SU::findFirstNonASCIIchar(s.begin(), s.end())));
	r.check(SU::is7bit(s) == (first == std::string::npos), "is7bit", SU::is7bit(s) ? "true" : "false");
	std::string q = SU::quote(s, "\\\"", "\\"), qr;
	for (char c : s) { if (c == '\\' || c == '"') qr += '\\'; qr += c; }
	r.check(q == qr, "quote", hex(q));
	r.check(SU::unquote("\"" + q + "\"") == s, "unquote-quote", hex(SU::unquote("\"" + q + "\"")));
	std::string u = s;
	if (s.size() >= 2 && s.front() == '"' && s.back() == '"') { u.clear(); bool esc = false; for (size_t i = 1; i + 1 < s.size(); ++i) { if (!esc && s[i] == '\\') { esc = true; continue; } u += s[i]; esc = false; } }
	r.check(SU::unquote(s) == u, "unquote", hex(SU::unquote(s)));
	r.check(SU::needQuoting(s) == (s.find_first_of(" \t\"(),:;<>@[\\]") != std::string::npos), "need-quoting", "");
	r.check(SU::quote(s, "ab=", "%%") == [&] { std::string o; for (char c : s) { if (c == 'a' || c == 'b' || c == '=') o += "%%"; o += c; } return o; }(), "quote", "other characters");
	int dots; bool h = host(s, dots);
	r.check(SU::isValidHostname(s) == h, "hostname", SU::isValidHostname(s) ? "accepted" : "rejected");
	r.check(SU::isValidFQDN(s) == (h && dots >= 2), "fqdn", SU::isValidFQDN(s) ? "accepted" : "rejected");
	std::string hx; for (unsigned char c : s) { hx += "0123456789abcdef"[c / 16]; hx += "0123456789abcdef"[c % 16]; }
	r.check(SU::makeHexStringFromBytes(vmime::byteArray(s.begin(), s.end())) == hx, "hex-string", SU::makeHexStringFromBytes(vmime::byteArray(s.begin(), s.end())));
}
static void two(Run& r, const std::string& a, const std::string& b) {
	r.begin("texts " + hex(a) + " " + hex(b), !a.empty());
	std::string la = mapc(a, low), lb = mapc(b, low);
	r.check(SU::isStringEqualNoCase(a, b) == (la == lb), "equal-nocase", "two strings");
	if (lb.find('\0') == std::string::npos) {
		r.check(SU::isStringEqualNoCase(a, lb.c_str(), lb.size()) == (a.size() >= lb.size() && la.substr(0, lb.size()) == lb), "equal-nocase", "string and text");
		bool asc = true; for (unsigned char c : lb) if (c > 127) asc = false;
		if (asc) {
			std::string pad = "Zz" + a + "q";
			r.check(SU::isStringEqualNoCase(pad.begin() + 2, pad.end() - 1, lb.c_str(), lb.size()) == (a.size() >= lb.size() && la.substr(0, lb.size()) == lb), "equal-nocase", "range and text");
		}
	}
}
int main(int argc, char** argv) {
	Run r(argc, argv);
	r.rule = "each helper against a reference implementation on all one-byte texts, all short texts over small alphabets (quotes, dots and dashes, white space) and random ones; pairs of texts differing in case, length or one character. Non-trivial: non-empty text.";
	for (int c = 0; c < 256; ++c) { one(r, std::string(1, static_cast<char>(c))); one(r, "a" + std::string(1, static_cast<char>(c)) + "b"); for (int d = 0; d < 256; d += r.thorough ? 1 : 5) two(r, std::string(1, static_cast<char>(c)), std::string(1, static_cast<char>(d))); }
	r.allStrings("a-.", r.thorough ? 10 : 7, [&](const std::string& s) { one(r, s); });
	r.allStrings("\"\\a", r.thorough ? 9 : 6, [&](const std::string& s) { one(r, s); });
	r.allStrings(" \r\n\tx", r.thorough ? 6 : 4, [&](const std::string& s) { one(r, s); });
	r.allStrings("=?\xe9", r.thorough ? 8 : 5, [&](const std::string& s) { one(r, s); });
	r.allStrings("aA@`[{Z", r.thorough ? 4 : 2, [&](const std::string& s) { r.allStrings("aA@`[{z", r.thorough ? 3 : 2, [&](const std::string& t) { two(r, s, t); }); });
	while (r.time()) {
		static const std::string al = "aZ09.-_ \t\r\n\"\\=?\xc3\xa9";
		std::string s = r.rnd(3) ? r.bytes(r.rnd(20), al) : r.bytes(r.rnd(40));
		one(r, s);
		std::string t = s; for (char& c : t) if (!r.rnd(3)) c = static_cast<char>(r.rnd(2) ? low(static_cast<unsigned char>(c)) : upp(static_cast<unsigned char>(c)));
		if (!t.empty() && !r.rnd(3)) t[r.rnd(t.size())] ^= static_cast<char>(1 << r.rnd(8));
		if (!r.rnd(4)) t = t.substr(0, r.rnd(t.size() + 1));
		two(r, s, t); two(r, t, s);
		std::string h; for (size_t i = r.rnd(6); i > 0; --i) h += r.bytes(1 + r.rnd(4), "az09AZ-") + (r.rnd(8) ? "." : "");
		one(r, h); if (!h.empty()) one(r, h.substr(0, h.size() - 1));
	}
	return r.finish();
}
