// Replay of the contracts on message sets (C20) against the real code.
#include "common.hpp"
#include "vmime/net/messageSet.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/pop3/POP3Utils.hpp"
#include "vmime/net/maildir/maildirUtils.hpp"
#include <set>
#include <stdexcept>
using namespace rp;
using namespace vmime;
using namespace vmime::net;

struct Collect : public messageSetEnumerator {
	std::vector <std::pair <size_t, size_t> > nums;
	std::vector <std::pair <string, string> > uids;
	void enumerateNumberMessageRange(const numberMessageRange& r) { nums.push_back(std::make_pair(r.getFirst(), r.getLast())); }
	void enumerateUIDMessageRange(const UIDMessageRange& r) { uids.push_back(std::make_pair(string(r.getFirst()), string(r.getLast()))); }
};
// the ranges a set of numbers has to be made of
template <class T> static std::vector <std::pair <T, T> > runs(const std::set <T>& s) {
	std::vector <std::pair <T, T> > v;
	for (typename std::set <T>::const_iterator it = s.begin() ; it != s.end() ; ++it) {
		if (!v.empty() && v.back().second + 1 == *it) v.back().second = *it; else v.push_back(std::make_pair(*it, *it));
	}
	return v;
}
template <class T> static std::string seqtext(const std::vector <std::pair <T, T> >& v) {
	std::ostringstream o;
	for (size_t i = 0 ; i < v.size() ; ++i) { if (i) o << ","; o << v[i].first; if (v[i].first != v[i].second) o << ":" << v[i].second; }
	return o.str();
}
template <class T> static std::string show(const std::vector <T>& v) { std::ostringstream o; for (size_t i = 0 ; i < v.size() && i < 12 ; ++i) o << (i ? " " : "") << v[i]; return o.str(); }

static void numbers(Run& r, const std::vector <size_t>& v) {
	bool bad = false;
	for (size_t x : v) bad = bad || x == 0 || x == size_t(-1);
	r.begin("messageSet::byNumber {" + show(v) + "}", v.size() > 1);
	std::set <size_t> s(v.begin(), v.end());
	try {
		messageSet m = messageSet::byNumber(v);
		if (!r.check(!bad, "nums-bad", "a number that is no message number is accepted")) return;
		Collect c; m.enumerate(c);
		r.check(c.uids.empty() && c.nums == runs(s), "nums-set", "ranges are " + seqtext(c.nums) + ", not " + seqtext(runs(s)));
		r.check(m.isEmpty() == v.empty() && m.getRangeCount() == runs(s).size(), "nums-count", "isEmpty or getRangeCount");
		const messageSet cp(m); messageSet as = messageSet::empty(); as = cp;
		Collect c2; as.enumerate(c2);
		r.check(c2.nums == c.nums && c2.uids == c.uids, "nums-copy", "a copy of the set differs from it");
		r.check(imap::IMAPUtils::messageSetToSequenceSet(m) == seqtext(runs(s)), "nums-imap", "IMAP sequence set is " + imap::IMAPUtils::messageSetToSequenceSet(m) + ", not " + seqtext(runs(s)));
		if (s.size() < 5000 && (s.empty() || *s.rbegin() - *s.begin() < 100000)) {
			const std::vector <size_t> w(s.begin(), s.end());
			const std::vector <size_t> p = pop3::POP3Utils::messageSetToNumberList(m, 3), d = maildir::maildirUtils::messageSetToNumberList(m, 3);
			r.check(p == w, "nums-pop3", "POP3 list is " + show(p) + ", not " + show(w));
			r.check(d == w, "nums-maildir", "maildir list is " + show(d) + ", not " + show(w));
		}
	} catch (std::invalid_argument&) {
		r.check(bad, "nums-refused", "valid message numbers are refused");
	}
}
static void range(Run& r, size_t a, size_t b, size_t count) {
	const bool open = b == size_t(-1), bad = a == 0 || a == size_t(-1) || (!open && b < a);
	std::ostringstream o; o << "messageSet::byNumber(" << a << ", " << b << ") of " << count; r.begin(o.str(), true);
	try {
		messageSet m = messageSet::byNumber(a, b);
		if (!r.check(!bad, "range-bad", "a range that is none is accepted")) return;
		std::ostringstream w; w << a; if (open) w << ":*"; else if (a != b) w << ":" << b;
		r.check(imap::IMAPUtils::messageSetToSequenceSet(m) == w.str(), "range-imap", "IMAP sequence set is " + imap::IMAPUtils::messageSetToSequenceSet(m) + ", not " + w.str());
		const size_t last = open ? count : b;
		if (last < a || last - a < 5000) {
			std::vector <size_t> e; if (a <= last) for (size_t i = a ; ; ++i) { e.push_back(i); if (i == last) break; }
			r.check(pop3::POP3Utils::messageSetToNumberList(m, count) == e, "range-pop3", "POP3 list is " + show(pop3::POP3Utils::messageSetToNumberList(m, count)) + ", not " + show(e));
			r.check(maildir::maildirUtils::messageSetToNumberList(m, count) == e, "range-maildir", "maildir list is " + show(maildir::maildirUtils::messageSetToNumberList(m, count)) + ", not " + show(e));
		}
	} catch (std::invalid_argument&) {
		r.check(bad, "range-refused", "a valid range is refused");
	}
}
static void uids(Run& r, const std::vector <string>& v) {
	std::vector <vmime::net::message::uid> u; bool num = true; std::set <unsigned long long> s;
	for (const string& x : v) {
		u.push_back(vmime::net::message::uid(x));
		unsigned long long n = 0; bool ok = !x.empty();
		for (char ch : x) { if (ch < '0' || ch > '9') { ok = false; break; } n = n * 10 + (ch - '0'); if (n > 4294967294ull) { ok = false; break; } }
		if (ok) s.insert(n); else num = false;
	}
	r.begin("messageSet::byUID {" + show(v) + "}", v.size() > 1);
	messageSet m = messageSet::byUID(u);
	Collect c; m.enumerate(c);
	std::vector <std::pair <string, string> > w;
	if (num) {
		for (const std::pair <unsigned long long, unsigned long long>& x : runs(s)) { std::ostringstream a, b; a << x.first; b << x.second; w.push_back(std::make_pair(a.str(), b.str())); }
	} else {
		for (const string& x : v) w.push_back(std::make_pair(x, x));
	}
	r.check(c.nums.empty() && c.uids == w, "uids-set", "ranges are " + seqtext(c.uids) + ", not " + seqtext(w));
	r.check(imap::IMAPUtils::messageSetToSequenceSet(m) == seqtext(w), "uids-imap", "IMAP sequence set is " + imap::IMAPUtils::messageSetToSequenceSet(m) + ", not " + seqtext(w));
}

// addRange: the same kind as the ranges it has, kept in order; then kind and copies
static void add(Run& r, int kinds) {
	messageSet m = messageSet::empty(); size_t n = 0; int kind = -1;
	std::ostringstream o; o << "addRange, kinds " << kinds; r.begin(o.str(), true);
	for (int i = 0 ; i < 4 ; ++i) {
		const int k = (kinds >> i) & 1; bool threw = false;
		try { if (k) m.addRange(vmime::net::UIDMessageRange("7", "9")); else m.addRange(vmime::net::numberMessageRange(5, 6)); } catch (std::invalid_argument&) { threw = true; }
		const bool bad = kind >= 0 && kind != k;
		if (!bad) { kind = k; ++n; }
		r.check(threw == bad, "add-kind", bad ? "a range of the other kind is accepted" : "a range of the same kind is refused");
		r.check(m.getRangeCount() == n, "add-count", "wrong number of ranges");
		r.check(m.isNumberSet() == (kind == 0) && m.isUIDSet() == (kind == 1), "add-is", "the set is not of the kind of its ranges");
		messageSet c(m), d = messageSet::byNumber(1); d = m;
		r.check(imap::IMAPUtils::messageSetToSequenceSet(c) == imap::IMAPUtils::messageSetToSequenceSet(m) && imap::IMAPUtils::messageSetToSequenceSet(d) == imap::IMAPUtils::messageSetToSequenceSet(m), "add-copy", "a copy has other ranges");
	}
}

int main(int argc, char** argv) {
	Run r(argc, argv);
	r.rule = "message numbers and UIDs: every list of up to 4 of {1,2,3,4,5,9} (with 0 and the special value too), random lists with runs, duplicates and any order, values next to 2^31, 2^32 and the largest; open and closed ranges; copies; the IMAP text and the POP3 and maildir lists against a std::set";
	const size_t base[] = { 1, 2, 3, 4, 5, 9, 0, size_t(-1) };
	const string ub[] = { "1", "2", "3", "10", "9", "4294967294", "4294967295", "2147483647", "2147483648", "abc", "007", "4294967293", "4294967296", "99999999999999999999", "1x" };
	for (int n = 0 ; n <= 4 ; ++n) {
		int t = 1; for (int i = 0 ; i < n ; ++i) t *= 8;
		for (int k = 0 ; k < t ; ++k) { std::vector <size_t> v; for (int i = 0, q = k ; i < n ; ++i, q /= 8) v.push_back(base[q % 8]); numbers(r, v); }
	}
	for (int n = 0 ; n <= 3 ; ++n) {
		int t = 1; for (int i = 0 ; i < n ; ++i) t *= 15;
		for (int k = 0 ; k < t ; ++k) { std::vector <string> v; for (int i = 0, q = k ; i < n ; ++i, q /= 15) v.push_back(ub[q % 15]); uids(r, v); }
	}
	const size_t edge[] = { 0, 1, 2, 3, 7, 100, 2147483647u, 2147483648u, 4294967295u, size_t(4294967295u) + 1, size_t(-3), size_t(-2), size_t(-1) };
	for (size_t a : edge) for (size_t b : edge) for (size_t c : { size_t(0), size_t(1), size_t(5), size_t(150) }) range(r, a, b, c);
	for (int k = 0 ; k < 16 ; ++k) add(r, k);
	while (r.time()) {
		const size_t n = r.rnd(30), span = 1 + r.rnd(60), off = r.rnd(4) ? 1 : (r.rnd(2) ? 2147483600u : (r.rnd(2) ? 4294967240u : size_t(-1) - 70));
		std::vector <size_t> v; std::vector <string> u;
		for (size_t i = 0 ; i < n ; ++i) v.push_back(off + r.rnd(span) + (r.rnd(40) ? 0 : 4294967296u));
		numbers(r, v);
		for (size_t i = 0 ; i < n ; ++i) { std::ostringstream o; if (r.rnd(20) == 0) o << "0"; o << (off > 4294967295u ? 0 : off) + r.rnd(span); u.push_back(o.str()); }
		if (n && r.rnd(10) == 0) u[r.rnd(n)] = ub[r.rnd(15)];
		uids(r, u);
		range(r, 1 + r.rnd(50), r.rnd(4) ? r.rnd(80) : size_t(-1), r.rnd(90));
	}
	return r.finish();
}
