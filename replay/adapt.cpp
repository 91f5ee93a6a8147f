#include "streams.hpp"
#include "vmime/utility/inputStreamStringAdapter.hpp"
#include "vmime/utility/inputStreamByteBufferAdapter.hpp"
#include "vmime/utility/seekableInputStreamRegionAdapter.hpp"
#include "vmime/utility/outputStreamStringAdapter.hpp"
#include "vmime/utility/outputStreamByteArrayAdapter.hpp"
#include "vmime/utility/streamUtils.hpp"
#include "vmime/utility/progressListener.hpp"
using namespace rp;
using namespace vmime::utility;
struct Prog : progressListener {
	size_t last = 0, starts = 0, stops = 0, stopTotal = 0; bool back = false;
	void start(const size_t) { starts++; }
	void progress(const size_t c, const size_t) { if (c < last) back = true; last = c; }
	void stop(const size_t t) { stops++; stopTotal = t; }
};
// seekable stream that may read and skip less than asked
struct ShortSeek : seekableInputStream {
	std::string d; std::vector<size_t> s; size_t p = 0, k = 0;
	ShortSeek(const std::string& x, const std::vector<size_t>& y) : d(x), s(y) {}
	size_t lim(size_t c) { size_t n = s.empty() ? c : std::max<size_t>(1, s[k++ % s.size()]); return std::min(std::min(n, c), d.size() - p); }
	bool eof() const { return p >= d.size(); }
	void reset() { p = 0; }
	size_t read(vmime::byte_t* const b, const size_t c) { size_t n = lim(c); memcpy(b, d.data() + p, n); p += n; return n; }
	size_t skip(const size_t c) { size_t n = lim(c); p += n; return n; }
	size_t getPosition() const { return p; }
	void seek(const size_t q) { p = std::min(q, d.size()); }
};
// d: the text the stream stands for
template <class S> static void drive(Run& r, S& is, const std::string& d, bool exact, const std::string& ops) {
	size_t p = 0;
	for (size_t i = 0; i + 1 < ops.size(); i += 2) {
		size_t n = static_cast<unsigned char>(ops[i + 1]);
		switch (ops[i] % 5) {
			case 0: case 1: {
				std::vector<vmime::byte_t> b(n + 8, 0xEE);
				size_t g = is.read(&b[0], n);
				bool past = false; for (size_t k = n; k < b.size(); ++k) past |= b[k] != 0xEE;
				r.check(!past, "overrun", "op " + std::to_string(i / 2) + ": read(" + std::to_string(n) + ") wrote past the buffer it was given");
				if (!r.check(g <= n && g <= d.size() - p && (!exact || g == std::min(n, d.size() - p)) && (g || !n || p == d.size()), "count", "read(" + std::to_string(n) + ") at " + std::to_string(p) + " of " + std::to_string(d.size()) + " gives " + std::to_string(g))) return;
				r.check(memcmp(&b[0], d.data() + p, g) == 0, "bytes", "read(" + std::to_string(n) + ") at " + std::to_string(p) + " gives " + hex(std::string(b.begin(), b.begin() + g)));
				p += g; break;
			}
			case 2: { size_t g = is.skip(n); if (!r.check(g <= n && g <= d.size() - p && (!exact || g == std::min(n, d.size() - p)), "skip", "skip(" + std::to_string(n) + ") at " + std::to_string(p) + " of " + std::to_string(d.size()) + " gives " + std::to_string(g))) return; p += g; break; }
			case 3: { size_t q = d.empty() ? 0 : n % (d.size() + 1); is.seek(q); p = q; break; }
			case 4: is.reset(); p = 0; break;
		}
		r.check(is.getPosition() == p, "position", "after op " + std::to_string(i / 2) + " position is " + std::to_string(is.getPosition()) + " instead of " + std::to_string(p));
		r.check(is.eof() == (p == d.size()), "eof", "after op " + std::to_string(i / 2) + " at " + std::to_string(p) + " of " + std::to_string(d.size()) + " eof is " + (is.eof() ? "true" : "false"));
	}
}
static void adapters(Run& r, const std::string& w, size_t a, size_t b, const std::string& ops, const std::vector<size_t>& s) {
	std::string d = w.substr(a, b - a);
	r.begin("adapters data(" + std::to_string(w.size()) + ")=" + hex(w, 80) + " range=" + std::to_string(a) + ".." + std::to_string(b) + " reads=" + schedStr(s) + " ops=" + hex(ops), !w.empty());
	{ inputStreamStringAdapter is(w, a, b); drive(r, is, d, true, ops); }
	{ inputStreamStringAdapter is(w); drive(r, is, w, true, ops); }
	{ inputStreamByteBufferAdapter is(reinterpret_cast<const vmime::byte_t*>(d.data()), d.size()); drive(r, is, d, true, ops); }
	{ auto u = vmime::make_shared<inputStreamStringAdapter>(w); seekableInputStreamRegionAdapter is(u, a, b - a); drive(r, is, d, true, ops); }
	{ auto u = vmime::make_shared<ShortSeek>(w, s); seekableInputStreamRegionAdapter is(u, a, b - a); drive(r, is, d, false, ops); }
}
static void copies(Run& r, const std::string& w, size_t a, size_t n, const std::vector<size_t>& s) {
	r.begin("copy data(" + std::to_string(w.size()) + ")=" + hex(w, 60) + " start=" + std::to_string(a) + " length=" + std::to_string(n) + " reads=" + schedStr(s), !w.empty());
	std::string e = a < w.size() ? w.substr(a, n) : std::string();
	{ ShortSeek in(w, s); StrOutput o; size_t g = bufferedStreamCopyRange(in, o, a, n); r.check(o.s == e && g == e.size(), "range", "copies " + hex(o.s, 80) + " and says " + std::to_string(g)); }
	{ inputStreamStringAdapter in(w, std::min(a, w.size()), w.size()); StrOutput o; size_t g = bufferedStreamCopyRange(in, o, 0, n); r.check(o.s == e && g == e.size(), "range0", "copies " + hex(o.s, 80) + " and says " + std::to_string(g)); }
	{ ChunkInput in(w, s); std::string x = "x"; outputStreamStringAdapter o(x); size_t g = bufferedStreamCopy(in, o); r.check(x == "x" + w && g == w.size(), "copy", "copies " + hex(x, 80) + " and says " + std::to_string(g)); }
	{ ChunkInput in(w, s); vmime::byteArray x; outputStreamByteArrayAdapter o(x); Prog p; size_t g = bufferedStreamCopy(in, o, n, &p);
	  r.check(std::string(x.begin(), x.end()) == w && g == w.size(), "progress-copy", "copies " + hex(std::string(x.begin(), x.end()), 80) + " and says " + std::to_string(g));
	  r.check(p.starts == 1 && p.stops == 1 && !p.back && p.last == w.size(), "progress", "progress ends at " + std::to_string(p.last) + ", starts " + std::to_string(p.starts) + ", stops " + std::to_string(p.stops)); }
}
int main(int argc, char** argv) {
	Run r(argc, argv);
	r.rule = "texts of 0..5 bytes with every sub-range and operation pairs; random texts up to 200 bytes (some of 70000 for the copies), random sub-ranges and sequences of read/skip/seek/reset with counts 0..255; copies with every start and length around block borders and short reads and skips. Non-trivial: non-empty text.";
	for (size_t n = 0; n <= 5; ++n) { std::string w = std::string("abcdef").substr(0, n); for (size_t a = 0; a <= n; ++a) for (size_t b = a; b <= n; ++b) for (size_t c = 0; c <= n + 1; ++c) for (char o = 0; o < 4; ++o) for (size_t e = 0; e <= n; ++e) for (char q = 1; q < 4; ++q) { std::string ops; ops += o; ops += char(c); ops += q; ops += char(e); ops += "\x01\xff"; adapters(r, w, a, b, ops, {1}); } }
	for (size_t n : {0, 1, 5, 40}) { std::string w = r.bytes(n); for (size_t a = 0; a <= n + 2; ++a) for (size_t k : {size_t(0), size_t(1), n / 2, n, n + 3, size_t(100000)}) { copies(r, w, a, k, {}); copies(r, w, a, k, {1}); copies(r, w, a, k, {3, 2}); } }
	const size_t B = 32768;
	for (size_t n : {B - 1, B, B + 1, 2 * B, size_t(70000)}) { std::string w = r.bytes(n); for (size_t a : {size_t(0), size_t(1), B - 1, B, B + 1}) for (size_t k : {size_t(1), B - 1, B, B + 1, size_t(65535), n}) { copies(r, w, a, k, {}); copies(r, w, a, k, {4096, 100}); } }
	while (r.time()) {
		std::string w = r.bytes(r.rnd(200)); size_t a = r.rnd(w.size() + 1), b = a + r.rnd(w.size() - a + 1);
		std::string ops; size_t m = 1 + r.rnd(12); for (size_t i = 0; i < m; ++i) { ops += char(r.rnd(5)); ops += char(r.rnd(3) ? r.rnd(20) : r.rnd(256)); }
		adapters(r, w, a, b, ops, sched(r, r.rnd(6)));
		copies(r, w, r.rnd(w.size() + 3), r.rnd(w.size() + 3), sched(r, r.rnd(6)));
	}
	return r.finish();
}
