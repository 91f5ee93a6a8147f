// C16: paths of folders and files, against lists of names
#include "common.hpp"
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
using namespace rp;
typedef vmime::utility::path P; typedef P::component C; typedef std::vector<std::string> V;
static const vmime::charset U(vmime::charsets::UTF_8), L("iso-8859-1");
static V names(const P& p) { V v; for (size_t i = 0; i < p.getSize(); ++i) v.push_back(p[i].getConvertedText(U)); return v; }
// the same name may be held in another charset
static C comp(Run& r, const std::string& s) { if (r.rnd(3) == 0) { try { std::string o; vmime::charset::convert(s, o, U, L); std::string b; vmime::charset::convert(o, b, L, U); if (b == s) return C(o, L); } catch (vmime::exception&) {} } return C(s, U); }
static P make(Run& r, const V& v) { P p; for (auto& s : v) { if (r.rnd(2)) p /= comp(r, s); else p.appendComponent(comp(r, s)); } return p; }
static std::string show(const V& v) { std::string s = "["; for (auto& x : v) s += (s.size() > 1 ? " | " : "") + hex(x); return s + "]"; }
static std::string join(const V& v, const std::string& sep) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? sep : "") + v[i]; return s; }
static bool prefix(const V& a, const V& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
static V split(const std::string& t, const std::string& sep) { V v; size_t i = 0; for (;;) { size_t k = t.find(sep, i); std::string x = t.substr(i, k == std::string::npos ? k : k - i); if (!x.empty()) v.push_back(x); if (k == std::string::npos) return v; i = k + sep.size(); } }
static V plus(V a, const V& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void one(Run& r, const V& a, const V& b, const V& c, const std::string& text, const std::string& sep) {
	r.begin("paths " + show(a) + ", " + show(b) + ", " + show(c) + ", text '" + hex(text) + "', separator '" + hex(sep) + "'", !a.empty() && !b.empty());
	try {
		const P pa = make(r, a), pb = make(r, b), pc = make(r, c);
		auto same = [&](const P& p, const V& v, const std::string& what) { r.check(names(p) == v && p.getSize() == v.size(), what, what + " gives " + show(names(p)) + " instead of " + show(v)); };
		same(pa, a, "the path itself"); same(pa / pb, plus(a, b), "first / second"); { P p(pa); p /= pb; same(p, plus(a, b), "first /= second"); p = pc; same(p, c, "= third"); }
		{ P p(pa); p /= p; same(p, plus(a, a), "first /= itself"); same(pb / pb, plus(b, b), "second / itself"); p = p; same(p, plus(a, a), "= itself"); if (!a.empty()) { P q(pa); q.renameParent(q, pc); same(q, c, "a path renamed with itself as parent"); } }
		if (!b.empty()) { same(pa / pb[0], plus(a, V{b[0]}), "first / name"); P p(pa); p = pb[0]; same(p, V{b[0]}, "= name"); same(P(pb[0]), V{b[0]}, "path of a name"); }
		{ V u(a); if (!u.empty()) u.pop_back(); same(pa.getParent(), u, "parent"); } if (!a.empty()) { std::string l = pa.getLastComponent().getConvertedText(U), w = a.empty() ? "" : a.back(); r.check(l == w, "last name", "the last name is '" + hex(l) + "' instead of '" + hex(w) + "'"); }
		r.check((pa == pb) == (a == b) && (pa != pb) == (a != b), "comparison", "the first two paths are said to be " + std::string(pa == pb ? "the same" : "different"));
		r.check(pa.isEmpty() == a.empty() && pa.isRoot() == a.empty(), "empty path", "the first path is said to be " + std::string(pa.isEmpty() ? "empty" : "not empty"));
		r.check(pa.isParentOf(pb) == (prefix(a, b) && a.size() < b.size()), "parent of", "the first path is said " + std::string(pa.isParentOf(pb) ? "" : "not ") + "to be above the second");
		r.check(pa.isDirectParentOf(pb) == (prefix(a, b) && a.size() + 1 == b.size()), "direct parent of", "the first path is said " + std::string(pa.isDirectParentOf(pb) ? "" : "not ") + "to be directly above the second");
		if (!b.empty()) { P p(pb); p.renameParent(pa, pc); same(p, prefix(a, b) ? plus(c, V(b.begin() + static_cast<long>(a.size()), b.end())) : b, "second with its parent, the first, renamed to the third"); }
		{ std::string t = pa.toString(sep, U), w = join(a, sep); if (r.check(t == w, "text of a path", "the text of the first path is '" + hex(t) + "' instead of '" + hex(w) + "'")) { bool clean = true; for (auto& x : a) if (x.empty() || x.find(sep) != std::string::npos || (x + sep).find(sep) != x.size()) clean = false; if (clean) same(P::fromString(t, sep, U), a, "the text of the first path read back"); } }
		same(P::fromString(text, sep, U), split(text, sep), "path of the text"); if (sep == "/") same(P::fromString(text, "/", U), split(text, "/"), "path of the text");
	} catch (vmime::exception& e) { r.fail("exception", std::string(e.name()) + ": " + e.what()); }
}
int main(int argc, char** argv) {
	vmime::platform::setHandler<vmime::platforms::posix::posixHandler>();
	Run r(argc, argv);
	r.rule = "triples of paths with shared beginnings, equal names held in different charsets, names that contain one another, and texts with leading, trailing and doubled separators of one or more characters: all operations on them against lists of names; nontrivial: the first two paths are not empty";
	static const V N{"a", "b", "ab", "A", "a.b", "\xc3\xa9", "\xe6\x97\xa5", "a b", "~", "INBOX"}; static const V SEP{"/", ".", "::", "ab", "--", "\xc3\xa9"};
	auto path = [&](size_t n) { V v; size_t k = r.rnd(n + 1); for (size_t i = 0; i < k; ++i) v.push_back(N[r.rnd(r.rnd(2) ? 3 : N.size())]); return v; };
	r.allStrings("a/.", 5, [&](const std::string& t) { one(r, {}, {"a"}, {}, t, "/"); one(r, {"a"}, {"a", "b"}, {"c"}, t, "//"); });
	std::vector<V> all{{}}; for (size_t i = 0; i < all.size() && all[i].size() < 3; ++i) for (const char* s : {"a", "b"}) all.push_back(plus(all[i], V{s}));
	for (auto& a : all) for (auto& b : all) for (const V& c : {V{}, V{"x"}, V{"x", "y"}, V{"a", "a"}}) one(r, a, b, c, "", "/");
	while (r.time()) {
		V a = path(4), b = r.rnd(2) ? plus(a, path(3)) : path(5), c = path(4); std::string sep = SEP[r.rnd(SEP.size())], t; size_t k = r.rnd(8);
		for (size_t i = 0; i < k; ++i) t += r.rnd(2) ? sep : N[r.rnd(N.size())];
		one(r, a, b, c, t, sep);
	}
	return r.finish();
}
