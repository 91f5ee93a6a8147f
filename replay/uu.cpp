#include "streams.hpp"
#include "vmime/utility/encoder/uuEncoder.hpp"
using namespace rp;
typedef vmime::utility::encoder::uuEncoder UU;
static char uc(unsigned v) { return static_cast<char>((v & 63) + 32); }
static std::string line(const std::string& d) {
	std::string o(1, uc(static_cast<unsigned>(d.size())));
	for (size_t i = 0; i < d.size(); i += 3) {
		unsigned a = (unsigned char) d[i], b = i + 1 < d.size() ? (unsigned char) d[i + 1] : 0, c = i + 2 < d.size() ? (unsigned char) d[i + 2] : 0;
		o += uc(a >> 2); o += uc((a << 4 | b >> 4) & 63); o += uc((b << 2 | c >> 6) & 63); o += uc(c & 63);
	}
	return o;
}
static void one(Run& r, const std::string& d, long mx, const std::string& name, const std::string& mode, const std::vector<size_t>& s1, const std::vector<size_t>& s2, bool lazy) {
	r.begin("maxlinelength=" + std::to_string(mx) + " filename=" + hex(name) + " mode=" + mode + " in-chunks=" + schedStr(s1) + " dec-chunks=" + schedStr(s2) + (lazy ? " lazy-eof" : "") + " data(" + std::to_string(d.size()) + ")=" + hex(d, 3000), !d.empty());
	UU e;
	if (mx >= 0) e.getProperties()["maxlinelength"] = static_cast<size_t>(mx);
	e.getProperties()["filename"] = name;
	if (!mode.empty()) e.getProperties()["mode"] = mode;
	ChunkInput in(d, s1); in.m_lazy = lazy;
	StrOutput out;
	e.encode(in, out);
	// the text: header, lines, trailer
	std::string head = name.empty() ? "begin\r\n" : "begin " + (mode.empty() ? "644" : mode) + " " + name + "\r\n";
	if (!r.check(out.s.compare(0, head.size(), head) == 0, "header", "header is " + hex(out.s.substr(0, 60)))) return;
	if (!r.check(out.s.size() >= head.size() + 5 && out.s.substr(out.s.size() - 5) == "end\r\n", "trailer", "text ends with " + hex(out.s.substr(out.s.size() > 9 ? out.s.size() - 9 : 0)))) return;
	std::string body = out.s.substr(head.size(), out.s.size() - head.size() - 5);
	size_t pos = 0, dp = 0;
	while (pos < body.size()) {
		size_t e2 = body.find("\r\n", pos);
		if (e2 == std::string::npos) { r.fail("lines", "line without CRLF"); return; }
		std::string l = body.substr(pos, e2 - pos);
		if (l.empty()) { r.fail("lines", "empty line"); return; }
		size_t n = static_cast<unsigned>(l[0] - 32) & 63;
		if (n > 45 || dp + n > d.size() || l != line(d.substr(dp, n))) { r.fail("lines", "line at byte " + std::to_string(dp) + " is " + hex(l)); return; }
		dp += n; pos = e2 + 2;
	}
	r.check(dp == d.size(), "lines", "only " + std::to_string(dp) + " bytes written");
	UU dec_; const UU& dec = dec_;
	ChunkInput in2(out.s, s2); in2.m_lazy = lazy;
	StrOutput out2;
	dec_.decode(in2, out2);
	r.check(out2.s == d, "roundtrip", "decoded to " + hex(out2.s) + " (" + std::to_string(out2.s.size()) + " bytes)");
	std::string fn = dec.getResults().getProperty<std::string>("filename", "?");
	r.check(fn == (name.empty() ? "untitled" : name), "filename", "file name read back: " + hex(fn));
	if (!name.empty()) { std::string m = dec.getResults().getProperty<std::string>("mode", "?"); r.check(m == (mode.empty() ? "644" : mode), "mode", "mode read back: " + hex(m)); }
}
// any text: no out-of-bounds access, terminates (sanitizers and the alarm decide)
static void any(Run& r, const std::string& t, const std::vector<size_t>& s) {
	r.begin("decode chunks=" + schedStr(s) + " text=" + hex(t, 3000));
	UU dec_; ChunkInput in(t, s); StrOutput out;
	dec_.decode(in, out);
	// lines of any length up to 63
	for (size_t n = t.size() % 64, k = 0; k < 1; ++k) {
		std::string d = t.substr(0, n);
		if (n == 0 || n == 'b' - 32 - 64 || n == 'e' - 32 - 64) continue;
		std::string x = "begin 644 a\n" + line(d) + "\n`\nend\n";
		// the backquote line stands for an empty line in other implementations
		ChunkInput i2(x, s); StrOutput o2; UU d2; d2.decode(i2, o2);
		r.check(o2.s == d, "foreign", "text " + hex(x) + " decoded to " + hex(o2.s));
	}
}
int main(int argc, char** argv) {
	Run r(argc, argv);
	r.rule = "data: every length 0..200 with random bytes, all strings over {00,ff,20} up to length 4; line limits 0..60; file names with spaces and non-ASCII bytes; short-read schedules; arbitrary and mutated encoded texts. Non-trivial: non-empty data or text.";
	const std::string names[] = {"", "a", "file.bin", "two words.txt", "\xc3\xa9t\xc3\xa9", std::string(300, 'n')};
	const std::string modes[] = {"", "644", "0777"};
	auto pick = [&](const std::string& d, int j) { one(r, d, r.rnd(3) ? -1 : static_cast<long>(r.rnd(60)), names[r.rnd(6)], modes[r.rnd(3)], sched(r, j), sched(r, static_cast<int>(r.rnd(6))), r.rnd(5) == 0); };
	r.allStrings(std::string("\x00\xff ", 3), 4, [&](const std::string& s) { one(r, s, -1, "", "", {}, {}, false); one(r, s, 4, "x y", "600", {}, {1}, true); });
	for (long mx = 0; mx < 60; ++mx) one(r, r.bytes(100), mx, "f", "", {}, {}, false);
	for (size_t n = 0; n <= 200; ++n) for (int j = 0; j < 6; ++j) pick(r.bytes(n), j);
	const char* bad[] = {"", "b", "be", "bXXXXXXXX", "begin", "begin ", "begin 644", "begin 644 x\r", "begin 644 x\r\nend", "eXXXX", "e", "en", "end", "~", "~~~~", "bbbbbbbbbbbb", "begin 644 a\r\nM\r\nend\r\n", "begin\r\nbegin 600 q\r\n#86)C\r\nend\r\n"};
	for (const char* t : bad) for (int j = 0; j < 5; ++j) any(r, t, sched(r, j));
	for (size_t n : {500u, 509u, 510u, 511u, 512u, 513u, 600u}) { any(r, "begin " + std::string(n, 'x') + "\n#86)C\r\nend\r\n", {}); any(r, "begin " + std::string(n, ' ') + "\n#86)C\r\nend\r\n", {}); any(r, "begin " + std::string(n, 'x'), {}); }
	for (size_t n = 0; n < 130; ++n) any(r, r.bytes(n), {});
	while (r.time()) {
		if (r.rnd(2)) { pick(r.bytes(r.rnd(5) ? r.rnd(300) : r.rnd(20000)), static_cast<int>(r.rnd(6))); continue; }
		UU e; e.getProperties()["filename"] = std::string("f"); ChunkInput in(r.bytes(r.rnd(200)), {}); StrOutput out; e.encode(in, out);
		std::string t = out.s;
		for (size_t k = r.rnd(4); k > 0 && !t.empty(); --k) { size_t p = r.rnd(t.size()); switch (r.rnd(3)) { case 0: t[p] = static_cast<char>(r.rnd(256)); break; case 1: t.erase(p, 1 + r.rnd(5)); break; default: t.insert(p, r.bytes(1, "be \r\n`~")); } }
		any(r, t, sched(r, static_cast<int>(r.rnd(6))));
	}
	return r.finish();
}
