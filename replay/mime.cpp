#include "streams.hpp"
#include "vmime/vmime.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
using namespace rp;
struct F { std::string name; size_t b, e, s, z; };
static bool bl(char c) { return c == ' ' || c == '\t'; }
static bool sp(char c) { return bl(c) || c == '\r' || c == '\n'; }
// the property, by lines: what a header of b[p, e) consists of
static size_t ref(const std::string& b, size_t p, size_t e, bool stop, std::vector<F>& fs) {
	auto eol = [&](size_t q) { while (q < e && b[q] != '\n') ++q; return q < e ? q + 1 : e; };
	size_t last = p;
	while (p < e) {
		size_t q = p;
		while (q < e && bl(b[q])) ++q;
		if (q < e && b[q] == '\n') return q + 1;
		if (q + 1 < e && b[q] == '\r' && b[q + 1] == '\n') return q + 2;
		if (sp(b[p])) { p = eol(p); continue; }
		size_t n = p;
		while (n < e && b[n] != ':' && !sp(b[n])) ++n;
		size_t c = n;
		while (c < e && bl(b[c])) ++c;
		if (c >= e || b[c] != ':') { if (stop) return last; p = eol(p); continue; }
		while (c < e && b[c] == ':') ++c;
		while (c < e && bl(b[c])) ++c;
		size_t z = eol(c);
		while (z < e && z > c && bl(b[z])) z = eol(z);
		F f; f.name = b.substr(p, n - p); f.b = p; f.e = z; f.s = c;
		size_t t = z;
		while (t > c && sp(b[t - 1])) --t;
		f.z = t; fs.push_back(f);
		p = last = z;
	}
	return p;
}
static void hdr(Run& r, const std::string& b, size_t p, size_t e, bool stop) {
	r.begin("header " + hex(b) + " from " + std::to_string(p) + " to " + std::to_string(e) + (stop ? " stopping at errors" : ""), e > p);
	vmime::parsingContext ctx;
	ctx.setHeaderParseErrorRecoveryMethod(stop ? vmime::headerParseRecoveryMethod::ASSUME_END_OF_HEADERS : vmime::headerParseRecoveryMethod::SKIP_LINE);
	vmime::header h; size_t np = 123456;
	try { h.parse(ctx, b, p, e, &np); } catch (std::exception& x) { r.fail("exception", x.what()); return; }
	std::vector<F> fs; size_t q = ref(b, p, e, stop, fs);
	r.check(np == q, "end", "ends at " + std::to_string(np) + " instead of " + std::to_string(q));
	if (!r.check(h.getFieldList().size() == fs.size(), "count", std::to_string(h.getFieldList().size()) + " fields instead of " + std::to_string(fs.size()))) return;
	for (size_t i = 0; i < fs.size(); ++i) {
		auto f = h.getFieldList()[i];
		r.check(f->getName() == fs[i].name, "name", hex(f->getName()) + " instead of " + hex(fs[i].name));
		r.check(f->getParsedOffset() == fs[i].b && f->getParsedLength() == fs[i].e - fs[i].b, "bounds", "field " + std::to_string(i));
		auto v = f->getValue();
		r.check(v->getParsedOffset() == fs[i].s && v->getParsedLength() == fs[i].z - fs[i].s, "value", "value " + std::to_string(v->getParsedOffset()) + "+" + std::to_string(v->getParsedLength()) + " instead of " + std::to_string(fs[i].s) + "+" + std::to_string(fs[i].z - fs[i].s));
	}
}
static void headers(Run& r) {
	r.rule = "headers made of all short strings of letters, colons, blanks and line ends, and of random ones, in sub-ranges of larger texts, with both recovery methods: the fields, their names and bounds, and the end compared with the property. Non-trivial: non-empty range.";
	r.allStrings("A: \r\n", r.thorough ? 7 : 5, [&](const std::string& s) { if (!r.time()) return; hdr(r, s, 0, s.size(), false); hdr(r, s, 0, s.size(), true); if (s.size() > 1) { hdr(r, s, 1, s.size() - 1, false); hdr(r, s, 0, s.size() - 1, false); } });
	static const char* pieces[] = {"A: b\r\n", "X-N:c\n", " ", "\t", "\r\n", "\n", "\r", ":", "Subject: x y\r\n  z\r\n", "foo", "\r\n\r\n", "Q :: v", "\xe9", "From ", "B:"};
	while (r.time()) {
		std::string s; size_t n = r.rnd(9);
		for (size_t i = 0; i < n; ++i) s += r.rnd(4) ? std::string(pieces[r.rnd(15)]) : r.bytes(r.rnd(4), "aA: \t\r\n");
		size_t a = r.rnd(3) ? 0 : r.rnd(s.size() + 1), z = r.rnd(2) ? s.size() : a + r.rnd(s.size() - a + 1);
		hdr(r, s, a, z, r.rnd(3) == 0);
	}
}
// ---- multipart bodies
class SeekInput : public vmime::utility::seekableInputStream {
public:
	SeekInput(const std::string& d, const std::vector<size_t>& s) : m_d(d), m_s(s) {}
	bool eof() const { return m_hit; }
	void reset() { m_pos = 0; m_hit = false; }
	size_t read(vmime::byte_t* const data, const size_t count) {
		size_t n = m_s.empty() ? count : std::max<size_t>(1, m_s[m_k++ % m_s.size()]);
		n = std::min(std::min(n, count), m_d.size() - m_pos);
		memcpy(data, m_d.data() + m_pos, n); m_pos += n;
		if (n == 0 && count) m_hit = true;
		return n;
	}
	size_t skip(const size_t count) { size_t n = std::min(count, m_d.size() - m_pos); m_pos += n; return n; }
	size_t getPosition() const { return m_pos; }
	void seek(const size_t p) { m_pos = std::min(p, m_d.size()); m_hit = false; }
private:
	std::string m_d; std::vector<size_t> m_s; size_t m_pos = 0, m_k = 0; bool m_hit = false;
};
struct B { std::vector<std::pair<size_t, size_t>> parts; std::pair<size_t, size_t> prolog{0, 0}, epilog{0, 0}; };
// the property: where the parts of the multipart body d[a, e) with boundary t are
static B refBody(const std::string& d, const std::string& t, size_t a, size_t e) {
	auto next = [&](size_t p) {
		for (; p < e; ++p)
			if (p >= 3 && p + t.size() <= e && p + t.size() < d.size() && d.compare(p - 3, 3, "\n--") == 0 && d.compare(p, t.size(), t) == 0 && (isspace((unsigned char) d[p + t.size()]) || d[p + t.size()] == '-')) return p;
		return std::string::npos;
	};
	B r; size_t from = a, start = a; bool first = true;
	for (;;) {
		size_t p = next(from);
		if (p == std::string::npos) { r.parts.push_back({start, e}); return r; }
		size_t q = p + t.size(); bool closing = q + 1 < e && d[q] == '-' && d[q + 1] == '-';
		if (closing) q += 2;
		while (q < e && bl(d[q])) ++q;
		if (q + 1 < e && d[q] == '\r' && d[q + 1] == '\n') q += 2;
		else if (q < e && d[q] == '\n') ++q;
		else if (q < e) { while (q < e && d[q] != '\n') ++q; from = q; continue; }
		size_t z = p >= 4 && d[p - 4] == '\r' ? p - 4 : p - 3;
		if (first) r.prolog = {start, z}; else r.parts.push_back({std::min(start, z), std::max(start, z)});
		first = false; from = start = q;
		if (closing) { if (q < e) r.epilog = {q, e}; return r; }
	}
}
static std::string words(const std::string& d, std::pair<size_t, size_t> x) {
	if (x.first >= x.second) return "";
	vmime::text t; t.parse(d, x.first, x.second); return t.getWholeBuffer();
}
// the first empty line of d[a, e): the header ends there (the texts below have one)
static size_t bodyStart(const std::string& d, size_t a) { size_t p = d.find("\r\n\r\n", a); return p + 4; }
static void multi(Run& r, const std::string& d, const std::string& t, size_t a, size_t e, const std::vector<size_t>* sc) {
	r.begin("body parts of " + hex(d, 900) + " from " + std::to_string(a) + " to " + std::to_string(e) + " boundary " + hex(t) + (sc ? " reads " + schedStr(*sc) : ""), e > a);
	vmime::shared_ptr<vmime::bodyPart> p = vmime::make_shared<vmime::bodyPart>();
	try {
		if (sc) p->parse(vmime::make_shared<SeekInput>(d, *sc), a, e, NULL); else p->parse(d, a, e, NULL);
	} catch (std::exception& x) { r.fail("exception", x.what()); return; }
	size_t s = bodyStart(d, a);
	auto b = p->getBody();
	if (!r.check(b->getParsedOffset() == s && b->getParsedLength() == e - s, "body", "body at " + std::to_string(b->getParsedOffset()))) return;
	if (s == e) { r.check(b->getPartCount() == 0, "empty", "parts in an empty body"); return; }
	B x = refBody(d, t, s, e);
	std::string got, want;
	for (size_t i = 0; i < b->getPartCount(); ++i) got += " " + std::to_string(b->getPartAt(i)->getParsedOffset()) + "+" + std::to_string(b->getPartAt(i)->getParsedLength());
	for (auto& q : x.parts) want += " " + std::to_string(q.first) + "+" + std::to_string(q.second - q.first);
	r.check(got == want, "parts", "parts" + got + " instead of" + want);
	r.check(b->getPrologText() == words(d, x.prolog), "prolog", hex(b->getPrologText()) + " instead of " + hex(words(d, x.prolog)));
	r.check(b->getEpilogText() == words(d, x.epilog), "epilog", hex(b->getEpilogText()) + " instead of " + hex(words(d, x.epilog)));
}
// a body parsed on its own (its owner has the header)
static void alone(Run& r, const std::string& d, const std::string& t, size_t a, size_t e) {
	r.begin("body " + hex(d, 900) + " from " + std::to_string(a) + " to " + std::to_string(e) + " boundary " + hex(t), e > a);
	vmime::bodyPart p; p.parse("Content-Type: multipart/mixed; boundary=\"" + t + "\"\r\n\r\n--" + t + "\r\nold");
	auto b = p.getBody();
	vmime::parsingContext ctx;
	try { b->parse(ctx, d, a, e, NULL); } catch (std::exception& x) { r.fail("exception", x.what()); return; }
	if (a == e) { StrOutput o; b->getContents()->extractRaw(o); r.check(b->getPartCount() == 0 && o.s.empty(), "empty", "parts or contents in an empty body"); return; }
	B x = refBody(d, t, a, e);
	std::string got, want;
	for (size_t i = 0; i < b->getPartCount(); ++i) got += " " + std::to_string(b->getPartAt(i)->getParsedOffset()) + "+" + std::to_string(b->getPartAt(i)->getParsedLength());
	for (auto& q : x.parts) want += " " + std::to_string(q.first) + "+" + std::to_string(q.second - q.first);
	r.check(got == want, "parts", "parts" + got + " instead of" + want);
	r.check(b->getPrologText() == words(d, x.prolog), "prolog", hex(b->getPrologText()) + " instead of " + hex(words(d, x.prolog)));
	r.check(b->getEpilogText() == words(d, x.epilog), "epilog", hex(b->getEpilogText()) + " instead of " + hex(words(d, x.epilog)));
}
static void simple(Run& r, const std::string& d, size_t a, size_t e, const std::vector<size_t>* sc) {
	r.begin("contents of " + hex(d, 900) + " from " + std::to_string(a) + " to " + std::to_string(e) + (sc ? " reads " + schedStr(*sc) : ""), e > a);
	vmime::bodyPart p; StrOutput o;
	try {
		if (sc) p.parse(vmime::make_shared<SeekInput>(d, *sc), a, e, NULL); else p.parse(d, a, e, NULL);
		p.getBody()->getContents()->extractRaw(o);
	} catch (std::exception& x) { r.fail("exception", x.what()); return; }
	r.check(p.getBody()->getPartCount() == 0, "parts", "parts in a simple body");
	r.check(o.s == d.substr(bodyStart(d, a), e - bodyStart(d, a)), "contents", hex(o.s));
}
static bool cleanText(const std::string& x, const std::string& t) {
	std::string y = "\n" + x + "\r";
	for (size_t p = y.find("\n--" + t); p != std::string::npos; p = y.find("\n--" + t, p + 1)) { char c = y[p + 3 + t.size()]; if (isspace((unsigned char) c) || c == '-') return false; }
	return true;
}
static void roundtrip(Run& r, const std::vector<std::string>& parts, const std::string& t, const std::string& prolog, const std::string& epilog, int kind) {
	std::string in; for (auto& x : parts) in += hex(x) + " | ";
	r.begin("write and read parts " + in + " boundary " + hex(t) + " prologue " + hex(prolog) + " epilogue " + hex(epilog), !parts.empty());
	vmime::bodyPart p; StrOutput o;
	std::vector<std::string> texts; std::string bt = t;
	try {
		if (kind) { auto f = p.getHeader()->getField<vmime::contentTypeField>("Content-Type"); f->setValue(vmime::mediaType("multipart/mixed")); if (!t.empty()) f->setBoundary(t); }
		for (auto& x : parts) {
			auto q = vmime::make_shared<vmime::bodyPart>();
			if (x.empty() || x[0] != '@') q->getHeader()->getField("X-N")->setValue(std::string("v"));
			q->getBody()->setContents(vmime::make_shared<vmime::stringContentHandler>(x), vmime::mediaType("text/plain"), vmime::charset("us-ascii"), vmime::encoding(vmime::encodingTypes::EIGHT_BIT));
			p.getBody()->appendPart(q);
			texts.push_back(q->generate());
		}
		p.getBody()->setPrologText(prolog); p.getBody()->setEpilogText(epilog);
		p.generate(o);
		auto ctf = p.getHeader()->findField<vmime::contentTypeField>("Content-Type");
		if (ctf && ctf->hasBoundary()) bt = ctf->getBoundary();
	} catch (std::exception& x) { r.fail("exception", x.what()); return; }
	if (parts.empty()) return;
	r.check(!bt.empty() && bt.size() < 70, "boundary", "boundary " + hex(bt));
	for (char c : bt) if (!r.check((isalnum((unsigned char) c) || strchr("'()+_,-./:=?", c)) && c, "boundary", "boundary " + hex(bt))) return;
	for (auto& x : texts) if (!cleanText(x, bt)) return;
	if (!cleanText(prolog, bt)) return;
	vmime::bodyPart g; std::string d = o.s;
	try { g.parse(d); } catch (std::exception& x) { r.fail("exception", x.what()); return; }
	if (!r.check(g.getBody()->getPartCount() == texts.size(), "roundtrip", std::to_string(g.getBody()->getPartCount()) + " parts in " + hex(d, 900))) return;
	for (size_t i = 0; i < texts.size(); ++i) {
		auto q = g.getBody()->getPartAt(i); std::string x = d.substr(q->getParsedOffset(), q->getParsedLength());
		r.check(x == texts[i], "roundtrip", "part " + std::to_string(i) + " is " + hex(x) + " instead of " + hex(texts[i]) + " in " + hex(d, 900));
	}
}
static void bodies(Run& r) {
	r.rule = "multipart texts made of delimiters (also wrong, cut, indented, followed by blanks or junk, closing, before the end of the text), line ends and other text, parsed from memory, from streams with short reads, and as part of a longer text: ranges of the parts, prologue, epilogue compared with the property; bodies with generated parts written and read back. Non-trivial: non-empty.";
	static const char* bs[] = {"B", "=_x", "a-b", "BB", "b'(c)", "0123456789012345678901234567890123456789012345678901234567890123456789"};
	size_t turn = 0;
	while (r.time()) {
		std::string t = bs[r.rnd(6)];
		if (turn++ % 4 == 3) {
			std::vector<std::string> ps; size_t n = r.rnd(4);
			for (size_t i = 0; i < n; ++i) { std::string x; size_t m = r.rnd(6); for (size_t k = 0; k < m; ++k) { switch (r.rnd(7)) { case 0: x += "\r\n"; break; case 1: x += "--" + t; break; case 2: x += "\r\n--" + t.substr(0, r.rnd(t.size() + 1)); break; case 3: x += r.bytes(r.rnd(5), "-B \n\r"); break; case 4: x += "text of a line\r\n"; break; case 5: x += "@"; break; default: x += r.bytes(r.rnd(12)); } } ps.push_back(x); }
			roundtrip(r, ps, r.rnd(4) ? t.substr(0, 69) : "", r.rnd(2) ? "" : "prologue text", r.rnd(2) ? "" : "epilogue", r.rnd(4));
			continue;
		}
		std::string h = "Content-Type: multipart/mixed; boundary=\"" + t + "\"\r\n\r\n", x;
		bool one = r.rnd(12) == 0;
		if (one) h = r.rnd(2) ? "Content-Type: text/plain\r\nContent-Transfer-Encoding: 8bit\r\n\r\n" : "X: y\r\n\r\n";
		size_t n = r.rnd(12), big = r.rnd(40) ? 0 : 1;
		for (size_t i = 0; i < n; ++i) {
			switch (r.rnd(14)) {
				case 0: case 1: case 2: x += "\r\n--" + t + "\r\n"; break;
				case 3: x += "--" + t + "\r\n"; break;
				case 4: x += "\n--" + t + "\n"; break;
				case 5: x += "\r\n--" + t + "--\r\n"; break;
				case 6: x += "\r\n--" + t + "--" + r.bytes(r.rnd(3), " \tx\r\n"); break;
				case 7: x += "\r\n--" + t + r.bytes(r.rnd(4), " \t-x\r\n\xe9"); break;
				case 8: x += "\r\n" + r.bytes(r.rnd(3), "- \n") + t.substr(0, r.rnd(t.size() + 1)); break;
				case 9: x += "X: y\r\n\r\ntext\r\n"; break;
				case 10: x += r.bytes(r.rnd(4), "\r\n-B "); break;
				case 11: x += r.bytes(r.rnd(9)); break;
				case 12: if (big) x += std::string(1900 + r.rnd(300), 'q'); break;
				default: x += "abc"; break;
			}
		}
		std::string pre = r.rnd(4) ? "" : r.bytes(r.rnd(5), "a\r\n-B"), post = r.rnd(3) ? "" : r.rnd(2) ? "\r\n--" + t + "\r\nmore" : r.bytes(r.rnd(6), "-\r\nB ") + "-";
		std::string d = pre + h + x + post;
		size_t a = pre.size(), e = a + h.size() + x.size();
		if (post.size() && r.rnd(3) == 0) e = std::max(a + h.size(), e - std::min<size_t>(r.rnd(6), x.size()));
		if (!one && r.rnd(6) == 0) { size_t k = r.rnd(3); std::string y = d.substr(a + h.size() - k); alone(r, y, t, r.rnd(k + 1), e - (a + h.size() - k)); continue; }
		std::vector<size_t> sc = sched(r, r.rnd(6)); bool st = r.rnd(3) == 0;
		if (one) simple(r, d, a, e, st ? &sc : nullptr); else multi(r, d, t, a, e, st ? &sc : nullptr);
	}
}
int main(int argc, char** argv) {
	Run r(argc, argv);
	vmime::platform::setHandler<vmime::platforms::posix::posixHandler>();
	if (r.prop == "C31") bodies(r); else headers(r);
	return r.finish();
}
