#include "streams.hpp"
#include "vmime/utility/filteredStream.hpp"
#include "vmime/utility/streamUtils.hpp"
using namespace rp;
using namespace vmime::utility;
template <class F> static std::string run(const std::string& d, const std::vector<size_t>& s, bool flush = true) {
	StrOutput out; F f(out);
	size_t p = 0, k = 0;
	while (p < d.size()) { size_t n = s.empty() ? d.size() : std::max<size_t>(1, s[k++ % s.size()]); n = std::min(n, d.size() - p); std::vector<vmime::byte_t> b(d.begin() + p, d.begin() + p + n); f.write(&b[0], n); p += n; }
	if (flush) f.flush();
	return out.s;
}
static bool canon(const std::string& w) { for (size_t i = 0; i < w.size(); ++i) if (w[i] == '\n' && (i == 0 || w[i - 1] != '\r')) return false; return true; }
static bool nl(char c) { return c == '\r' || c == '\n'; }
static void c05(Run& r, const std::string& w, const std::vector<size_t>& s) {
	r.begin("SMTP content chunks=" + schedStr(s) + " data(" + std::to_string(w.size()) + ")=" + hex(w), !w.empty());
	std::string t = run<dotFilteredOutputStream>(w, s);
	for (size_t i = 0; i < t.size(); ++i)
		if (t[i] == '.' && (i == 0 || t[i - 1] == '\n') && (i + 1 == t.size() || nl(t[i + 1]))) r.fail("early-end", "the server sees the end of the data at offset " + std::to_string(i) + " of " + hex(t));
	if (canon(w)) {
		// RFC 5321 4.5.2 receiver
		std::string all = t + "\r\n.\r\n", got; size_t p = 0; bool end = false;
		while (p < all.size() && !end) {
			size_t q = all.find("\r\n", p); if (q == std::string::npos) break;
			std::string l = all.substr(p, q - p);
			if (l == ".") end = true;
			else { if (!l.empty() && l[0] == '.') l.erase(0, 1); got += l + "\r\n"; }
			p = q + 2;
		}
		bool lead = w.size() > 1 && w[0] == '.' && !nl(w[1]);
		r.check(end && p == all.size(), "early-end", "end of data at the wrong place: " + hex(all));
		if (got != w + "\r\n") { if (lead && got == w.substr(1) + "\r\n") r.fail("leading-dot", "first dot lost: " + hex(t)); else r.fail("received", "the receiver gets " + hex(got)); }
	} else {
		// bare LF: nothing but dots after line feeds may be added
		std::string u; for (size_t i = 0; i < t.size(); ++i) { u += t[i]; if (t[i] == '.' && (i == 0 || t[i - 1] == '\n') && i + 1 < t.size() && t[i + 1] == '.' && !(i == 0 && w.size() > 1 && w[1] == '.')) ++i; }
		r.check(u == w, "content", "content changed: " + hex(t));
	}
}
static void c06(Run& r, const std::string& w, const std::vector<size_t>& s) {
	r.begin("line ends chunks=" + schedStr(s) + " data(" + std::to_string(w.size()) + ")=" + hex(w), !w.empty());
	std::string e; for (size_t i = 0; i < w.size(); ++i) { if (w[i] == '\r' && i + 1 < w.size() && w[i + 1] == '\n') { e += '\n'; ++i; } else e += w[i]; }
	std::string t = run<CRLFToLFFilteredOutputStream>(w, s);
	r.check(t == e, "crlf2lf", "CRLF->LF gives " + hex(t));
	std::string c; for (size_t i = 0; i < w.size(); ++i) { if (w[i] == '\r') { c += "\r\n"; if (i + 1 < w.size() && w[i + 1] == '\n') ++i; } else if (w[i] == '\n') c += "\r\n"; else c += w[i]; }
	std::string u = run<LFToCRLFFilteredOutputStream>(w, s);
	r.check(u == c, "lf2crlf", "LF->CRLF gives " + hex(u));
	if (w.find('\r') == std::string::npos) r.check(run<CRLFToLFFilteredOutputStream>(u, s) == w, "roundtrip", "LF->CRLF->LF differs");
}
template <class S> static std::string drain(Run& r, S& is, size_t bs) {
	std::string o; std::vector<vmime::byte_t> b(bs + 1, 0xEE); size_t idle = 0;
	while (!is.eof()) { size_t n = is.read(&b[0], bs); if (n > bs) { r.fail("overrun", "read returned " + std::to_string(n)); return o; } o.append(reinterpret_cast<char*>(&b[0]), n); if (b[bs] != 0xEE) r.fail("overrun", "wrote past the buffer"); if (n == 0 && ++idle > 100000) { r.fail("noend", "the end is never reached"); return o; } if (n) idle = 0; }
	return o;
}
static std::string upto(const std::string& d, const std::string& q) { return d.substr(0, d.find(q)); }
static void c07(Run& r, const std::string& w, const std::vector<size_t>& s, size_t bs) {
	r.begin("POP3 stream reads=" + schedStr(s) + " buffer=" + std::to_string(bs) + " data(" + std::to_string(w.size()) + ")=" + hex(w), !w.empty());
	{ ChunkInput in(w, s); stopSequenceFilteredInputStream<5> f(in, "\r\n.\r\n"); std::string g = drain(r, f, bs); r.check(g == upto(w, "\r\n.\r\n"), "stop5", "stop at CRLF.CRLF gives " + hex(g));
	  in.reset(); f.reset(); in.reset(); std::string g2 = drain(r, f, bs); r.check(g2 == upto(w, "\r\n.\r\n"), "stop5-reset", "after reset: " + hex(g2)); }
	{ ChunkInput in(w, s); stopSequenceFilteredInputStream<3> f(in, "\n.\n"); std::string g = drain(r, f, bs); r.check(g == upto(w, "\n.\n"), "stop3", "stop at LF.LF gives " + hex(g)); }
	{ ChunkInput in(w, s); stopSequenceFilteredInputStream<1> f(in, "."); std::string g = drain(r, f, bs); r.check(g == upto(w, "."), "stop1", "stop at a dot gives " + hex(g)); }
	// the chain used for POP3 on what a server sends for the message w
	std::string t = "+OK\r\n"; for (size_t i = 0; i < w.size(); ++i) { if (w[i] == '.' && (i == 0 || w[i - 1] == '\n')) t += '.'; t += w[i]; }
	{ ChunkInput in(t, s); dotFilteredInputStream f(in); std::string g = drain(r, f, bs); r.check(g == "+OK\r\n" + w, "unstuff", "dot removal gives " + hex(g)); }
	{ ChunkInput in(t + "\r\n.\r\n+OK next\r\n", s); stopSequenceFilteredInputStream<5> f1(in, "\r\n.\r\n"); stopSequenceFilteredInputStream<3> f2(f1, "\n.\n"); dotFilteredInputStream f3(f2);
	  if (bs > 8) { std::string g = drain(r, f3, bs); r.check(g == "+OK\r\n" + w, "pop3", "the client gets " + hex(g)); } }
}
int main(int argc, char** argv) {
	Run r(argc, argv);
	r.rule = "all strings over {. CR LF a} up to length 6 (quick) / 8, cut in chunks of 1, 2, 3, all or random sizes; random longer texts made of dots, line ends and letters. Non-trivial: non-empty data.";
	size_t k = 0;
	const size_t bss[] = {6, 7, 9, 16, 64, 70000};
	auto f = [&](const std::string& w, const std::vector<size_t>& s) { k++; if (r.prop == "C05") c05(r, w, s); else if (r.prop == "C06") c06(r, w, s); else c07(r, w, s, bss[k % 6]); };
	r.allStrings(std::string(".\r\na"), r.thorough ? 8 : 6, [&](const std::string& w) { f(w, {}); f(w, {1}); if (w.size() > 2) { f(w, {2}); f(w, {k % 3 + 1, 2}); } if (w.size() > 3) f(w, sched(r, 4)); });
	if (r.prop == "C07") { // sequences begun and broken
		const char* parts[] = {"\r", "\r\n", "\r\n.", "\r\n.\r", "\r\n.\r\n", "\n.", "\n.\n", "x", ".", "..", "\n"};
		for (auto a : parts) for (auto b : parts) for (auto c : parts) for (auto d : parts) { std::string w = std::string(a) + b + c + d; f(w, {1 + k % 4}); f(w, {strlen(a), strlen(b), strlen(c), 99}); }
	}
	while (r.time()) {
		static const char* parts[] = {"\r\n", "\r\n.", "\r\n..", ".", "\r", "\n", "ab", "\n.", "\r\n.\r", "text text", "\r\n.a"};
		std::string w; size_t n = r.rnd(30); for (size_t i = 0; i < n; ++i) w += r.rnd(3) ? parts[r.rnd(11)] : std::string(1, static_cast<char>(r.rnd(256)));
		f(w, sched(r, static_cast<int>(r.rnd(5))));
		if (r.rnd(50) == 0) f(r.bytes(40000, ".\r\nabc"), {1000, 3});
	}
	return r.finish();
}
