#include "streams.hpp"
#include "vmime/utility/encoder/qpEncoder.hpp"
using namespace rp;
// RFC 2045 6.7 decoder, written independently (strict: returns false on anything malformed)
static bool hexv(char c, int& v) { if (c >= '0' && c <= '9') { v = c - '0'; return true; } if (c >= 'A' && c <= 'F') { v = c - 'A' + 10; return true; } return false; }
static bool rdec(const std::string& t, bool rfc, std::string& o) {
	for (size_t i = 0; i < t.size();) {
		if (t[i] == '=') {
			if (t.compare(i, 3, "=\r\n") == 0) { i += 3; continue; }
			int a, b;
			if (i + 2 >= t.size() || !hexv(t[i + 1], a) || !hexv(t[i + 2], b)) return false;
			o += static_cast<char>(a * 16 + b); i += 3;
		} else { o += (rfc && t[i] == '_') ? ' ' : t[i]; i++; }
	}
	return true;
}
static void one(Run& r, const std::string& d, long mx, int mode, const std::vector<size_t>& s1, const std::vector<size_t>& s2, bool lazy) {
	bool rfc = mode == 2, text = mode == 1 || mode == 3;
	r.begin("mode=" + std::string(rfc ? "rfc2047" : text ? "text" : "binary") + " maxlinelength=" + std::to_string(mx) + " in-chunks=" + schedStr(s1) + " dec-chunks=" + schedStr(s2) + (lazy ? " lazy-eof" : "") + " data(" + std::to_string(d.size()) + ")=" + hex(d, 4000), !d.empty());
	vmime::utility::encoder::qpEncoder e;
	if (mx >= 0) e.getProperties()["maxlinelength"] = static_cast<size_t>(mx);
	if (rfc) e.getProperties()["rfc2047"] = true;
	if (text) e.getProperties()["text"] = true;
	ChunkInput in(d, s1); in.m_lazy = lazy;
	StrOutput out;
	size_t n = e.encode(in, out);
	r.check(n == out.s.size(), "count", "encode() returned " + std::to_string(n) + " for " + std::to_string(out.s.size()) + " bytes");
	std::string ref;
	r.check(rdec(out.s, rfc, ref) && ref == d, "encode", "encoded text is not a valid encoding of the data: " + hex(out.s));
	if (rfc) {
		for (char c : out.s) if (!(isalnum((unsigned char) c) && (c & 0x80) == 0) && !strchr("!*+-/=_", c)) r.fail("wordchars", "character in a Q-encoded word: " + hex(out.s));
	} else {
		size_t col = 0, longest = 0;
		for (size_t i = 0; i < out.s.size(); ++i) {
			unsigned char c = out.s[i];
			bool nl = c == '\n' && i > 0 && out.s[i - 1] == '\r';
			if (c == '\r' && !(i + 1 < out.s.size() && out.s[i + 1] == '\n')) { if (!text || d.find("\r\n") != std::string::npos || true) { bool orig = text && d.find('\r') != std::string::npos && [&] { for (size_t k = 0; k < d.size(); ++k) if (d[k] == '\r' && !(k + 1 < d.size() && d[k + 1] == '\n')) return true; return false; }(); if (!orig) r.fail("crlf", "CR not followed by LF in the output: " + hex(out.s)); } }
			if (c == '\n' && !nl && !text) r.fail("crlf", "bare LF in the output");
			if (c == '\r' || c == '\n') { longest = std::max(longest, col); col = 0; if (i > 0 && (out.s[i - 1] == ' ' || out.s[i - 1] == '\t')) r.fail("blank", "blank before a line end: " + hex(out.s)); }
			else { if (col == 0 && c == '.' && !text) r.fail("dot", "line starting with a dot: " + hex(out.s)); col++; if (c < 32 || c > 126) r.fail("chars", "character outside printable ASCII: " + hex(out.s)); }
		}
		longest = std::max(longest, col);
		if (!out.s.empty() && out.s.back() == ' ') r.fail("blank", "blank at the end: " + hex(out.s));
		if (mx >= 5 && !text) r.check(longest <= std::min<size_t>(76, static_cast<size_t>(mx) + 2), "linelen", "line of " + std::to_string(longest) + " characters");
		if (mx >= 5 && mode == 3) r.check(longest <= std::min<size_t>(76, static_cast<size_t>(mx) + 2), "linelen", "line of " + std::to_string(longest) + " characters");
		if (text && mx >= 5) {
			// hard line breaks of the text are line breaks of the encoding
			auto cnt = [](const std::string& s) { size_t k = 0; for (size_t p = s.find("\r\n"); p != std::string::npos; p = s.find("\r\n", p + 2)) k++; return k; };
			size_t soft = 0; for (size_t p = out.s.find("=\r\n"); p != std::string::npos; p = out.s.find("=\r\n", p + 3)) soft++;
			r.check(cnt(out.s) - soft == cnt(d), "hardbreak", "hard line breaks: " + std::to_string(cnt(d)) + " in the text, " + std::to_string(cnt(out.s) - soft) + " in the encoding: " + hex(out.s));
		}
	}
	vmime::utility::encoder::qpEncoder dec;
	if (rfc) dec.getProperties()["rfc2047"] = true;
	ChunkInput in2(out.s, s2); in2.m_lazy = lazy;
	StrOutput out2;
	dec.decode(in2, out2);
	r.check(out2.s == d, "roundtrip", "decoded to " + hex(out2.s) + " (" + std::to_string(out2.s.size()) + " bytes)");
	// lower-case hex digits and bare LF soft breaks are accepted by the decoder
	std::string w; for (size_t i = 0; i < out.s.size(); ++i) {
		if (out.s[i] == '=' && i + 2 < out.s.size() && out.s[i + 1] == '\r') { w += "=\n"; i += 2; }
		else if (out.s[i] == '=' && i + 2 < out.s.size()) { w += '='; w += static_cast<char>(tolower(out.s[i + 1])); w += static_cast<char>(tolower(out.s[i + 2])); i += 2; }
		else w += out.s[i];
	}
	ChunkInput in3(w, s2); StrOutput out3; dec.decode(in3, out3);
	r.check(out3.s == d, "decode", "variant text " + hex(w) + " decoded to " + hex(out3.s));
}
int main(int argc, char** argv) {
	Run r(argc, argv);
	r.rule = "data: all strings over {A . = _ space CR LF 80} up to length 3/5, runs around the line limits, lengths around the internal buffer size, random text and bytes; binary, text and RFC 2047 modes; line limits; short-read schedules. Non-trivial: non-empty data.";
	const long mls[] = {-1, 5, 6, 7, 10, 15, 35, 73, 74, 76, 78, 1000};
	int k = 0;
	const std::string al("A.=_ \r\n\x80?\t", 10);
	// in text mode only data made of text lines is generated: CR and LF only as CRLF (mode 3), or anything (mode 1) without line claims
	auto crlf = [](const std::string& s) { std::string o; for (char c : s) { if (c == '\r' || c == '\n') o += "\r\n"; else o += c; } return o; };
	r.allStrings(al, r.thorough ? 4 : 3, [&](const std::string& s) { k++; for (int m = 0; m < 4; ++m) one(r, m == 3 ? crlf(s) : s, mls[(k + m) % 12], m, sched(r, k % 5), sched(r, (k / 5) % 5), k % 7 == 0); });
	// every fill level of the line before every kind of character
	for (long mx : {5L, 15L, 76L}) for (long p = 0; p <= std::min(mx, 74L) + 2; ++p) for (char c : al) for (int m = 0; m < 4; ++m) {
		std::string s = std::string(static_cast<size_t>(p), 'x') + c + (k++ % 2 ? "\r\nfoo" : "y .z\r\n");
		if (k % 3 == 0) s = "line\r\n" + s;
		one(r, m == 3 ? crlf(s) : s, mx, m, sched(r, k % 2 ? 0 : 4), {}, false);
	}
	for (size_t n : {16376u, 16377u, 16378u, 16379u, 16380u, 16383u, 16384u, 16385u, 5460u, 5461u, 5462u, 32768u, 40000u}) for (int m = 0; m < 3; ++m) {
		one(r, std::string(n, 'x'), -1, m, {}, {}, false);
		one(r, std::string(n - 1, 'x') + " y", 76, m, {}, {}, true);
		one(r, std::string(n - 1, 'x') + " \r\n", 76, m, {}, {16384}, false);
		one(r, std::string(n, '\xe9'), 76, m, {}, {5000, 3}, false);
	}
	while (r.time()) {
		size_t n = r.rnd(4) ? r.rnd(300) : r.rnd(3000);
		int m = static_cast<int>(r.rnd(4));
		std::string d = r.rnd(2) ? r.bytes(n) : r.bytes(n, "abcdefgh  ..=_\t\r\n\xe9?");
		one(r, m == 3 ? crlf(d) : d, mls[r.rnd(12)], m, sched(r, static_cast<int>(r.rnd(6))), sched(r, static_cast<int>(r.rnd(6))), r.rnd(5) == 0);
	}
	return r.finish();
}
