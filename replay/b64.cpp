#include "streams.hpp"
#include "vmime/utility/encoder/b64Encoder.hpp"
using namespace rp;
static const char* AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string rfc(const std::string& d) {
	std::string o;
	for (size_t i = 0; i < d.size(); i += 3) {
		unsigned a = (unsigned char) d[i], b = i + 1 < d.size() ? (unsigned char) d[i + 1] : 0, c = i + 2 < d.size() ? (unsigned char) d[i + 2] : 0;
		unsigned v = (a << 16) | (b << 8) | c;
		o += AL[v >> 18]; o += AL[(v >> 12) & 63];
		o += i + 1 < d.size() ? AL[(v >> 6) & 63] : '=';
		o += i + 2 < d.size() ? AL[v & 63] : '=';
	}
	return o;
}
static void one(Run& r, const std::string& d, long mx, const std::vector<size_t>& s1, const std::vector<size_t>& s2, bool lazy) {
	r.begin("maxlinelength=" + std::to_string(mx) + " in-chunks=" + schedStr(s1) + " dec-chunks=" + schedStr(s2) + (lazy ? " lazy-eof" : "") + " data(" + std::to_string(d.size()) + ")=" + hex(d, 4000), !d.empty());
	vmime::utility::encoder::b64Encoder e;
	if (mx >= 0) e.getProperties()["maxlinelength"] = static_cast<size_t>(mx);
	ChunkInput in(d, s1); in.m_lazy = lazy;
	StrOutput out;
	e.encode(in, out);
	std::string flat; size_t col = 0, longest = 0;
	for (size_t i = 0; i < out.s.size(); ++i) {
		char c = out.s[i];
		if (c == '\r' || c == '\n') { longest = std::max(longest, col); col = 0; }
		else { flat += c; col++; }
	}
	longest = std::max(longest, col);
	r.check(flat == rfc(d), "encode", "encoded text is not the RFC 4648 text: " + hex(out.s));
	if (mx >= 4) r.check(longest <= std::min<size_t>(76, static_cast<size_t>(mx)), "linelen", "line of " + std::to_string(longest) + " characters");
	for (size_t i = 0; i < out.s.size(); ++i) {
		if (out.s[i] == '\r' && !(i + 1 < out.s.size() && out.s[i + 1] == '\n')) r.fail("crlf", "bare CR in the output");
		if (out.s[i] == '\n' && !(i > 0 && out.s[i - 1] == '\r')) r.fail("crlf", "bare LF in the output");
	}
	vmime::utility::encoder::b64Encoder dec;
	ChunkInput in2(out.s, s2); in2.m_lazy = lazy;
	StrOutput out2;
	dec.decode(in2, out2);
	r.check(out2.s == d, "roundtrip", "decoded to " + hex(out2.s) + " (" + std::to_string(out2.s.size()) + " bytes)");
	// a standard text wrapped in any way decodes as well
	std::string w; std::string f = rfc(d); size_t k = 1 + r.rnd(9);
	for (size_t i = 0; i < f.size(); ++i) { if (i && i % k == 0) w += (i / k) % 3 ? "\r\n" : ((i / k) % 2 ? " " : "\t"); w += f[i]; }
	ChunkInput in3(w, s2); StrOutput out3;
	dec.decode(in3, out3);
	r.check(out3.s == d, "decode", "wrapped text " + hex(w) + " decoded to " + hex(out3.s));
}
int main(int argc, char** argv) {
	Run r(argc, argv);
	r.rule = "data: all strings over {00,7f,80,ff,41} up to length 5, every length 0..160, lengths around the internal buffer sizes, random bytes; line limits; short-read schedules. Non-trivial: non-empty data.";
	const long mls[] = {-1, 4, 5, 10, 11, 20, 72, 74, 76, 77, 1000};
	int k = 0;
	r.allStrings(std::string("\x00\x7f\x80\xff" "A", 5), r.thorough ? 6 : 4, [&](const std::string& s) { k++; one(r, s, mls[k % 11], sched(r, k % 5), sched(r, (k / 5) % 5), k % 7 == 0); });
	for (size_t n = 0; n <= 160; ++n) for (int j = 0; j < 5; ++j) one(r, r.bytes(n), mls[r.rnd(11)], sched(r, j), sched(r, 4), j == 2);
	for (size_t n : {16383u, 16384u, 16385u, 65535u, 65536u, 65537u, 65538u, 131072u, 131075u}) { one(r, r.bytes(n), -1, {}, {}, false); one(r, r.bytes(n), 76, {}, {}, true); one(r, r.bytes(n), 76, {40000, 7}, {5000, 3}, false); }
	while (r.time()) { size_t n = r.rnd(4) ? r.rnd(300) : r.rnd(3000); one(r, r.bytes(n), mls[r.rnd(11)], sched(r, static_cast<int>(r.rnd(6))), sched(r, static_cast<int>(r.rnd(6))), r.rnd(5) == 0); }
	return r.finish();
}
