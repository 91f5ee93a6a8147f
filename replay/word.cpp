#include "common.hpp"
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
using namespace rp;
typedef std::string S;
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static S vis(const S& s) { S o; char b[8]; for (unsigned char c : s) if (c < 32 || c > 126) { sprintf(b, "\\x%02x", c); o += b; } else o += static_cast<char>(c); return o; }
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static S encB(const S& d) {
	S o;
	for (size_t i = 0; i < d.size(); i += 3) {
		unsigned v = static_cast<unsigned char>(d[i]) << 16; if (i + 1 < d.size()) v |= static_cast<unsigned char>(d[i + 1]) << 8; if (i + 2 < d.size()) v |= static_cast<unsigned char>(d[i + 2]);
		o += B64[v >> 18]; o += B64[v >> 12 & 63]; o += i + 1 < d.size() ? B64[v >> 6 & 63] : '='; o += i + 2 < d.size() ? B64[v & 63] : '=';
	}
	return o;
}
static S encQ(const S& d, Run& g) {
	S o; char b[8];
	for (unsigned char c : d) {
		if (c == ' ' && g.rnd(3)) o += '_';
		else if (isalnum(c) && g.rnd(8)) o += static_cast<char>(c);
		else { sprintf(b, g.rnd(2) ? "=%02X" : "=%02x", c); o += b; }
	}
	return o;
}
// Base64 digits, possibly not whole groups: the octets of whole groups, the rest is left over
static S decB(const S& d, S& left) {
	S o; size_t i = 0;
	for (; i + 4 <= d.size(); i += 4) {
		unsigned v = 0; int pad = 0;
		for (int k = 0; k < 4; ++k) { const char* p = strchr(B64, d[i + k]); if (d[i + k] == '=') { ++pad; v <<= 6; } else v = v << 6 | static_cast<unsigned>(p - B64); }
		o += static_cast<char>(v >> 16); if (pad < 2) o += static_cast<char>(v >> 8); if (pad < 1) o += static_cast<char>(v);
	}
	left = d.substr(i);
	return o;
}
struct W { S b, cs, lang; size_t lo, hi; };
// CR? LF and the blanks after it are one space, nothing at the end
static S unfold(const S& s, bool atend) {
	S o;
	for (size_t i = 0; i < s.size(); ) {
		size_t j = i;
		if (s[i] == '\n' || (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n')) {
			j = i + (s[i] == '\r' ? 2 : 1);
			while (j < s.size() && sp(s[j])) ++j;
			if (j < s.size() || !atend) o += ' ';
			i = j;
		} else o += s[i++];
	}
	return o;
}
// what a text is made of: the pieces it was written with
struct Piece { int kind; S raw; W w; S data; bool b; };    // 0: encoded word, 1: text, 2: blanks
static S blanks(Run& r, bool may_be_empty) {
	static const char* t[] = { " ", "  ", "\t", "\r\n ", "\r\n\t", "\n ", " \r\n  ", "\r\n \r\n ", " \t" };
	return may_be_empty && r.rnd(4) == 0 ? "" : t[r.rnd(9)];
}
static S someText(Run& r) {
	S o; size_t n = 1 + r.rnd(6);
	for (size_t i = 0; i < n; ++i) {
		if (i) o += blanks(r, true);
		size_t m = 1 + r.rnd(6); for (size_t k = 0; k < m; ++k) o += "abcXYZ019?=.,*_\r"[r.rnd(r.rnd(10) ? 15 : 16)];
		for (size_t q; (q = o.find("=?")) != S::npos; ) o[q] = '-';     // no encoded word begins in it
	}
	while (!o.empty() && sp(o[o.size() - 1])) o.resize(o.size() - 1);
	if (o.empty() || sp(o[0])) o = "x" + o;
	return o;
}
static void checkParse(Run& r, const vmime::parsingContext& c0, const S& pre, const S& mid, const S& post, const std::vector<W>& want, const char* rule) {
	vmime::parsingContext ctx(c0);
	S buf = pre + mid + post; buf.shrink_to_fit();
	r.begin("text \"" + vis(mid) + "\" at " + std::to_string(pre.size()) + " of " + std::to_string(buf.size()), want.size() > 1);
	vmime::text t; size_t np = 0;
	t.parse(ctx, buf, pre.size(), pre.size() + mid.size(), &np);
	S got, exp;
	for (size_t i = 0; i < t.getWordCount(); ++i) { auto w = t.getWordAt(i); got += "[" + vis(w->getBuffer()) + "|" + w->getCharset().getName() + "|" + w->getLanguage() + "|" + std::to_string(w->getParsedOffset()) + "+" + std::to_string(w->getParsedLength()) + "]"; }
	for (const W& w : want) exp += "[" + vis(w.b) + "|" + w.cs + "|" + w.lang + "|" + std::to_string(w.lo + pre.size()) + "+" + std::to_string(w.hi - w.lo) + "]";
	r.check(got == exp, rule, "words are " + got + " instead of " + exp);
	// the same as one string
	if (pre.empty() && post.empty()) {
		vmime::text t2; t2.parse(ctx, mid);
		r.check(t2 == t, "parse-string", "parsing the text alone gives other words");
	}
}
static const char* CS[] = { "utf-8", "UTF-8", "iso-8859-1", "us-ascii", "x-unknown", "ISO-2022-JP", "gb2312" };
static W eword(Run& r, S& raw, const S& carry, S& left, bool cutB) {
	W w; w.cs = CS[r.rnd(7)]; if (r.rnd(3) == 0) w.lang = r.rnd(2) ? "en" : "fr-CA*x";
	S d = r.bytes(r.rnd(9), S("abc \xc3\xa9\xff=?_\n\x01Z", 13));
	left.clear(); S enc; bool b = cutB || r.rnd(2);
	if (b) { enc = encB(d); if (cutB) { while (!enc.empty() && enc[enc.size() - 1] == '=') enc.resize(enc.size() - 1); } w.b = decB(carry + enc, left); }
	else { enc = encQ(d, r); w.b = d; }
	raw = "=?" + w.cs + (w.lang.empty() ? "" : "*" + w.lang) + "?" + (b ? (r.rnd(2) ? "B" : "b") : (r.rnd(2) ? "Q" : "q")) + "?" + enc + "?=";
	return w;
}
static void parseCases(Run& r) {
	vmime::parsingContext ctx, eai; eai.setInternationalizedEmailSupport(true);
	static const char* ENDS[] = { "", "=?utf-8?Q?junk?=", "?=", "=", " more\r\n x", "\n", "?= =?" };
	for (int it = 0; (it < 4000 || r.thorough) && r.time(); ++it) {
		bool e = r.rnd(4) == 0; S raw8 = e ? "utf-8" : "us-ascii";
		std::vector<W> want; S mid; size_t n = 1 + r.rnd(5); bool prevText = false, prevEnc = false, first = true; S carry; S pend;
		bool cut = r.rnd(6) == 0;
		if (r.rnd(3) == 0) mid += blanks(r, false);
		size_t lo = 0;
		for (size_t i = 0; i < n; ++i) {
			bool text = !cut && !prevText && r.rnd(2);
			S raw, left; W w;
			if (text) {
				raw = someText(r);
				if (prevEnc) {
					if (pend.empty() && raw[0] == '=') raw[0] = 'y';
					S b; for (char c : pend) if (c != '\r' && c != '\n') b += c;
					w.b = b; w.lo = lo;
				} else w.lo = first ? 0 : lo;
				w.cs = raw8;
			} else {
				raw.clear(); w = eword(r, raw, carry, left, cut);
				w.lo = mid.size();
				if (w.lo + 0 < 1 && 0) return;
			}
			bool last = i + 1 == n;
			S tail = last ? (r.rnd(3) ? S() : blanks(r, false)) : blanks(r, true);
			if (text) {
				// the text goes on to the next encoded word, or to the end
				S body = raw + tail;
				if (!tail.empty() || last || 1) { if (!last && !body.empty() && body[body.size() - 1] == '=') body += "."; }
				mid += body; w.b += unfold(body, last); w.hi = mid.size(); lo = mid.size(); pend.clear();
			} else {
				carry = left; mid += raw; w.hi = mid.size(); lo = mid.size(); mid += tail; pend = tail;
			}
			want.push_back(w); prevText = text; prevEnc = !text; first = false;
		}
		// an encoded word needs eight characters after its start
		bool ok = true; for (const W& w : want) { S s = mid.substr(w.lo, 2); if (s == "=?" && !(w.lo + 8 < mid.size())) ok = false; }
		if (!ok) continue;
		S pre = r.rnd(2) ? "" : r.bytes(1 + r.rnd(4), "=?a \n"), post = ENDS[r.rnd(7)];
		checkParse(r, e ? eai : ctx, pre, mid, post, want, "words");
	}
	// anything: nothing outside the range is read, the words are in order and cover what is not blank
	for (int it = 0; (it < 6000 || r.thorough) && r.time(); ++it) {
		S mid, raw, left; size_t n = 1 + r.rnd(7);
		for (size_t i = 0; i < n; ++i) switch (r.rnd(5)) { case 0: eword(r, raw, "", left, r.rnd(2)); mid += raw.substr(0, r.rnd(3) ? raw.size() : r.rnd(raw.size() + 1)); break; case 1: mid += blanks(r, true); break; case 2: mid += someText(r); break; default: mid += r.bytes(r.rnd(5), "=?QBqb_ \r\nax*="); }
		S post = ENDS[r.rnd(7)]; S buf = "?" + mid + post; buf.shrink_to_fit();
		r.begin("text \"" + vis(mid) + "\" before \"" + vis(post) + "\"", mid.size() > 8);
		vmime::text t, t2; size_t np = 0; vmime::parsingContext c;
		t.parse(c, buf, 1, 1 + mid.size(), &np);
		S alone(mid); alone.shrink_to_fit(); t2.parse(c, alone);
		r.check(t == t2, "range", "the text is parsed differently when other text follows the range");
		size_t at = 1; S miss;
		for (size_t i = 0; i < t.getWordCount(); ++i) { auto w = t.getWordAt(i); if (w->getParsedOffset() < at || w->getParsedLength() == 0) { r.fail("order", "a word begins before the end of the one before it, or is empty"); break; } miss += buf.substr(at, w->getParsedOffset() - at); at = w->getParsedOffset() + w->getParsedLength(); }
		if (at <= 1 + mid.size()) miss += buf.substr(at, 1 + mid.size() - at); else r.fail("order", "a word ends outside the range");
		bool blank = true; for (char ch : miss) if (!sp(ch)) blank = false;
		r.check(blank, "cover", "text \"" + vis(miss) + "\" belongs to no word");
	}
}
static S squeeze(const S& s) { S o; for (char c : s) if (!sp(c)) o += c; return o; }
static S uni(Run& r, size_t n, int kind, bool sps) {
	static const char* two[] = { "\xc3\xa9", "\xc3\xa0", "\xc2\xa3", "\xc3\xbf" };
	static const char* more[] = { "\xe2\x82\xac", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xd0\x96" };
	S o;
	for (size_t i = 0; i < n; ++i) {
		size_t k = r.rnd(10);
		if (sps && k == 0 && !o.empty() && i + 1 < n && o[o.size() - 1] != ' ') o += ' ';
		else if (kind >= 1 && k < 3) o += two[r.rnd(4)];
		else if (kind >= 2 && k < 6) o += more[r.rnd(4)];
		else o += "abcdefgXYZ0189.,_?=\""[r.rnd(20)];
	}
	return o;
}
static void roundTrips(Run& r) {
	static const size_t LEN[] = { 76, 78, 40, 100, 998, static_cast<size_t>(-1), 60 };
	vmime::charset u8("utf-8");
	// one word
	for (int it = 0; (it < 3000 || r.thorough) && r.time(); ++it) {
		int kind = static_cast<int>(r.rnd(4)); S s = uni(r, 1 + r.rnd(r.rnd(5) ? 30 : 150), kind == 3 ? 1 : kind, true);
		vmime::charset cs(kind == 3 ? "iso-8859-1" : kind == 0 && r.rnd(2) ? "us-ascii" : "utf-8");
		S buf; vmime::charset::convert(s, buf, u8, cs);
		size_t mx = LEN[r.rnd(7)], pos = r.rnd(50); vmime::text t; t.appendWord(vmime::make_shared<vmime::word>(buf, cs, r.rnd(4) ? "" : "en"));
		bool force = r.rnd(2);
		r.begin(cs.getName() + " text \"" + vis(buf) + "\", line length " + std::to_string(mx) + ", position " + std::to_string(pos) + (force ? ", encoded" : ""), s.size() > 20);
		vmime::generationContext g; g.setMaxLineLength(mx); bool eai = !force && cs == u8 && r.rnd(4) == 0; g.setInternationalizedEmailSupport(eai);
		S out; { vmime::utility::outputStreamStringAdapter os(out); size_t nl; t.encodeAndFold(g, os, pos, &nl, force ? vmime::text::FORCE_ENCODING : 0); }
		for (size_t i = 0; i < out.size(); ++i) if ((!eai && static_cast<unsigned char>(out[i]) > 126) || (out[i] == '\n' && (i + 1 >= out.size() || out[i + 1] != ' '))) { r.fail("ascii", "written as \"" + vis(out) + "\", which is not ASCII or not folded"); break; }
		if (!force && (s.find("=?") != S::npos) && out.find("=?" + cs.getName()) == S::npos) continue;      // plain text that looks like an encoded word
		vmime::text p; { vmime::parsingContext pc; pc.setInternationalizedEmailSupport(eai); p.parse(pc, out); }
		S back = p.getConvertedText(u8);
		r.check(back == s, eai ? "one-word-eai" : "one-word", "written as \"" + vis(out) + "\", read back as \"" + vis(back) + "\" instead of \"" + vis(s) + "\"");
		for (size_t i = 0; i < p.getWordCount(); ++i) if (out.find("=?") == 0 || force) r.check(p.getWordAt(i)->getLanguage() == t.getWordAt(0)->getLanguage() && p.getWordAt(i)->getCharset() == cs, "language", "charset or language of the word are not read back");
	}
	// unconvertible text
	for (int it = 0; it < 300 && r.time(); ++it) {
		S s = r.bytes(1 + r.rnd(60), S("ab\xff\x80 z", 6)); size_t mx = 22 + r.rnd(60), pos = r.rnd(30);
		vmime::charset cs("x-unknown"); vmime::text t; t.appendWord(vmime::make_shared<vmime::word>(s, cs));
		r.begin("x-unknown text \"" + vis(s) + "\", line length " + std::to_string(mx) + ", position " + std::to_string(pos), true);
		vmime::generationContext g; g.setMaxLineLength(mx);
		S out; { vmime::utility::outputStreamStringAdapter os(out); size_t nl; t.encodeAndFold(g, os, pos, &nl, vmime::text::FORCE_ENCODING); }
		vmime::text p; p.parse(out);
		r.check(p.getWholeBuffer() == s, "unknown-charset", "written as \"" + vis(out) + "\", read back as \"" + vis(p.getWholeBuffer()) + "\"");
	}
	// several words: nothing but blanks between words may be added, and nothing more the second time
	for (int it = 0; (it < 2000 || r.thorough) && r.time(); ++it) {
		vmime::text t; S all; size_t n = 1 + r.rnd(5); S desc;
		for (size_t i = 0; i < n; ++i) {
			bool enc = r.rnd(2); S s = uni(r, 1 + r.rnd(r.rnd(4) ? 15 : 90), enc ? 2 : 0, true); for (size_t q; (q = s.find("=?")) != S::npos; ) s[q] = '-';
			if (enc) s += "\xc3\xa9"; else if (s[s.size() - 1] == '=') s += "z";
			if (i && r.rnd(2)) s = " " + s;
			t.appendWord(vmime::make_shared<vmime::word>(s, vmime::charset(enc ? "utf-8" : "us-ascii"))); all += s; desc += "[" + vis(s) + "]";
		}
		size_t mx = LEN[r.rnd(7)], pos = r.rnd(40);
		r.begin("words " + desc + ", line length " + std::to_string(mx) + ", position " + std::to_string(pos), n > 1);
		vmime::generationContext g; g.setMaxLineLength(mx);
		S prev, lastOut;
		for (int k = 0; k < 3; ++k) {
			S out; { vmime::utility::outputStreamStringAdapter os(out); size_t nl; t.encodeAndFold(g, os, pos, &nl, 0); }
			vmime::text p; p.parse(out);
			S back = p.getConvertedText(u8);
			r.check(squeeze(back) == squeeze(all), "several-words", "written as \"" + vis(out) + "\", read back as \"" + vis(back) + "\"");
			if (k) r.check(back == prev, lastOut.find(" \r\n =?") != S::npos || out.find(" \r\n =?") != S::npos ? "stable-blank-fold" : "stable", "written as \"" + vis(out) + "\": a second writing and reading changes \"" + vis(prev) + "\" to \"" + vis(back) + "\"");
			prev = back; t = p; lastOut = out;
			// an encoded word that is only ASCII is written as text the next time, with blanks around
			bool ascii = false; for (size_t i = 0; i < p.getWordCount(); ++i) { auto w = p.getWordAt(i); if (out.compare(w->getParsedOffset(), 2, "=?") == 0 && std::all_of(w->getBuffer().begin(), w->getBuffer().end(), [](char c) { return static_cast<unsigned char>(c) < 128; })) ascii = true; }
			if (ascii) break;
		}
	}
	// from a string
	for (int it = 0; (it < 2000 || r.thorough) && r.time(); ++it) {
		S s = uni(r, 1 + r.rnd(r.rnd(4) ? 30 : 120), static_cast<int>(r.rnd(3)), true); for (size_t q; (q = s.find("=?")) != S::npos; ) s[q] = '-';
		size_t mx = LEN[r.rnd(7)], pos = r.rnd(40);
		r.begin("string \"" + vis(s) + "\", line length " + std::to_string(mx) + ", position " + std::to_string(pos), s.size() > 10);
		auto t = vmime::text::newFromString(s, u8);
		r.check(t->getWholeBuffer() == s, "from-string", "the words of the text are \"" + vis(t->getWholeBuffer()) + "\"");
		vmime::generationContext g; g.setMaxLineLength(mx);
		S out; { vmime::utility::outputStreamStringAdapter os(out); size_t nl; t->encodeAndFold(g, os, pos, &nl, 0); }
		vmime::text p; p.parse(out);
		S back = p.getConvertedText(u8);
		r.check(back == s, "string-roundtrip", "written as \"" + vis(out) + "\", read back as \"" + vis(back) + "\"");
	}
	// copies
	for (int it = 0; it < 200 && r.time(); ++it) {
		S a = r.bytes(r.rnd(6), "ab\xc3\xa9"), cs = CS[r.rnd(7)], l = r.rnd(2) ? "en" : "";
		r.begin("copies of word \"" + vis(a) + "\" " + cs + " " + l, true);
		vmime::word w(a, vmime::charset(cs), l), c1(w), c2("x", vmime::charset("y"), "z"); c2 = w; auto c3 = std::dynamic_pointer_cast<vmime::word>(w.clone()); vmime::word c4; c4.copyFrom(w);
		for (const vmime::word* c : std::vector<const vmime::word*>{ &c1, &c2, c3.get(), &c4 }) r.check(c->getBuffer() == a && c->getCharset() == vmime::charset(cs) && c->getLanguage() == l && *c == w, "copy", "a copy differs: \"" + vis(c->getBuffer()) + "\" " + c->getCharset().getName() + " " + c->getLanguage());
	}
}
int main(int argc, char** argv) {
	vmime::platform::setHandler<vmime::platforms::posix::posixHandler>();
	Run r(argc, argv);
	r.rule = "RFC 2047 words are read as written and written so that they read back";
	roundTrips(r); parseCases(r);
	return r.finish();
}
