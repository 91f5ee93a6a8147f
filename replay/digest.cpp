#include "common.hpp"
#include "vmime/base.hpp"
#include "vmime/security/digest/messageDigestFactory.hpp"
#include "vmime/security/digest/md5/md5MessageDigest.hpp"
#include "vmime/security/digest/sha1/sha1MessageDigest.hpp"
#include <gnutls/gnutls.h>
#include <gnutls/crypto.h>
#include <thread>
using namespace rp;
namespace D = vmime::security::digest;
// reference: GnuTLS
static std::string ref(bool md5, const std::string& s) {
	unsigned char o[32];
	gnutls_hash_fast(md5 ? GNUTLS_DIG_MD5 : GNUTLS_DIG_SHA1, s.data(), s.size(), o);
	return std::string(reinterpret_cast<char*>(o), md5 ? 16 : 20);
}
static std::string hx(const std::string& s) { std::string o; for (unsigned char c : s) { o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; } return o; }
static const vmime::byte_t* B(const std::string& s) { return reinterpret_cast<const vmime::byte_t*>(s.data()); }
static void one(Run& r, bool md5, const std::string& s, const std::vector<size_t>& cuts, int how, bool reuse) {
	std::string d = std::string(md5 ? "md5" : "sha1") + " of " + std::to_string(s.size()) + " bytes in pieces";
	for (size_t c : cuts) d += " " + std::to_string(c);
	r.begin(d + " way " + std::to_string(how) + (reuse ? " after a reset " : " ") + hex(s, 80), !s.empty());
	vmime::shared_ptr<D::messageDigest> h = D::messageDigestFactory::getInstance()->create(md5 ? "md5" : "sha1");
	if (reuse) { h->update(std::string(s.size() / 2 + 3, 'z')); if (how & 1) h->finalize(); h->reset(); }
	size_t at = 0;
	for (size_t k = 0; k < cuts.size(); ++k) {
		std::string p = s.substr(at, cuts[k]); at += p.size();
		const bool last = k + 1 == cuts.size() && at == s.size() && (how & 8);
		std::vector<vmime::byte_t> ex; ex.reserve(p.size() + (p.empty() ? 1 : 0)); ex.assign(p.begin(), p.end());      // exact-size copy: reads beyond it are caught
		std::string pad = "ab" + p; std::vector<vmime::byte_t> exo(pad.begin(), pad.end());
		switch ((how + static_cast<int>(k)) & 3) {
			case 0: last ? h->finalize(ex.data(), ex.size()) : h->update(ex.data(), ex.size()); break;
			case 1: last ? h->finalize(p) : h->update(p); break;
			case 2: last ? h->finalize(exo.data(), 2, p.size()) : h->update(exo.data(), 2, p.size()); break;
			default: if (last) h->finalize(p); else for (char c : p) h->update(static_cast<vmime::byte_t>(c));
		}
		if (last) goto done;
	}
	if (at < s.size()) h->update(B(s) + at, s.size() - at);
	h->finalize();
done:
	r.check(h->getDigestLength() == (md5 ? 16u : 20u), "length", std::to_string(h->getDigestLength()));
	std::string got(reinterpret_cast<const char*>(h->getDigest()), md5 ? 16 : 20);
	r.check(got == ref(md5, s), "digest", hx(got) + ", expected " + hx(ref(md5, s)));
	r.check(h->getHexDigest() == hx(got), "hex", h->getHexDigest());
}
static void threads(Run& r, bool md5) {
	r.begin(std::string("two threads computing ") + (md5 ? "md5" : "sha1") + " digests of their own data");
	std::string a(20000, 'a'), b(20000, 'b'), ra = ref(md5, a), rb = ref(md5, b);
	size_t bad[2] = { 0, 0 };
	auto go = [&](const std::string& s, const std::string& e, size_t& n) {
		for (int i = 0; i < 60; ++i) {
			auto h = vmime::shared_ptr<D::messageDigest>(md5 ? static_cast<D::messageDigest*>(new D::md5::md5MessageDigest) : new D::sha1::sha1MessageDigest);
			h->finalize(s);
			if (memcmp(h->getDigest(), e.data(), e.size())) ++n;
		}
	};
	std::thread x([&] { go(a, ra, bad[0]); }), y([&] { go(b, rb, bad[1]); });
	x.join(); y.join();
	r.check(bad[0] + bad[1] == 0, "threads", std::to_string(bad[0] + bad[1]) + " of 120 digests wrong");
}
// more than 2^32 bits, so that the high word of the bit count is not 0
static void large(Run& r, bool md5, size_t n) {
	r.begin(std::string(md5 ? "md5" : "sha1") + " of " + std::to_string(n) + " bytes 'q' in pieces of 1000003 bytes");
	r.patience(150);
	std::string p(1000003, 'q');
	auto h = D::messageDigestFactory::getInstance()->create(md5 ? "md5" : "sha1");
	gnutls_hash_hd_t g; gnutls_hash_init(&g, md5 ? GNUTLS_DIG_MD5 : GNUTLS_DIG_SHA1);
	for (size_t k = 0; k < n; ) { size_t c = std::min(p.size(), n - k); h->update(B(p), c); gnutls_hash(g, p.data(), c); k += c; }
	h->finalize();
	unsigned char o[20]; gnutls_hash_deinit(g, o);
	std::string e(reinterpret_cast<char*>(o), md5 ? 16 : 20), got(reinterpret_cast<const char*>(h->getDigest()), md5 ? 16 : 20);
	r.check(got == e, "large", hx(got) + ", expected " + hx(e));
}
int main(int argc, char** argv) {
	Run r(argc, argv);
	r.rule = "MD5 and SHA-1 of random data of every length up to 300 (and longer ones), in random pieces, through every overload of update and finalize, on a fresh or a reset object, against GnuTLS; two threads at the same time; in thorough runs and when the proof fails also one message of more than 2^32 bits each. Non-trivial: non-empty data.";
	threads(r, true); threads(r, false);
	for (size_t n = 0; n <= 300; ++n) for (int m = 0; m < 2; ++m) {
		std::string s = r.bytes(n);
		one(r, m, s, {n}, 0, false); one(r, m, s, {n}, 8 + static_cast<int>(n & 3), false);
		for (size_t c : {size_t(1), size_t(55), size_t(56), size_t(63), size_t(64), size_t(65), size_t(127), size_t(128)}) if (c < n) { one(r, m, s, {c, n - c}, static_cast<int>(r.rnd(16)), r.rnd(4) == 0); one(r, m, s, {c, 0, n - c}, static_cast<int>(r.rnd(16)), false); }
	}
	if (getenv("REPLAY_DEEP") && *getenv("REPLAY_DEEP") == '1') { large(r, true, (size_t(1) << 29) + 77); large(r, false, (size_t(1) << 29) + 77); }
	while (r.time()) {
		std::string s = r.rnd(4) ? r.bytes(r.rnd(400)) : r.bytes(r.rnd(20000));
		if (!r.rnd(5)) s = std::string(s.size(), static_cast<char>(r.rnd(2) ? 0 : 255));
		std::vector<size_t> cuts; size_t at = 0;
		while (at < s.size() && cuts.size() < 40) { size_t c = r.rnd(3) ? r.rnd(140) : r.rnd(2) ? 64 : 1; c = std::min(c, s.size() - at); cuts.push_back(c); at += c; }
		one(r, r.rnd(2), s, cuts, static_cast<int>(r.rnd(16)), r.rnd(4) == 0);
	}
	return r.finish();
}
