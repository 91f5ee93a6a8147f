#include "common.hpp"
#include "vmime/base.hpp"
#include "vmime/dateTime.hpp"
#include "vmime/utility/datetimeUtils.hpp"
using namespace rp;
using vmime::datetime;
typedef vmime::utility::datetimeUtils DU;
static bool leap(long y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int dim(long y, int m) { return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31; }
// days from civil (era based), 1970-01-01 = 0
static long days(long y, int m, int d) {
	y -= m <= 2;
	long era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400;
	long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}
static int wday(long n) { return static_cast<int>(((n + 4) % 7 + 7) % 7); }
static long long inst(const datetime& d) { return ((days(d.getYear(), d.getMonth(), d.getDay()) * 24LL + d.getHour()) * 60 + d.getMinute() - d.getZone()) * 60 + d.getSecond(); }
static int isoWeek(long y, int m, int d) {
	long n = days(y, m, d), t = n - (wday(n) + 6) % 7 + 3, ty = y;
	if (t < days(y, 1, 1)) ty = y - 1; else if (t >= days(y + 1, 1, 1)) ty = y + 1;
	return static_cast<int>((t - days(ty, 1, 1)) / 7) + 1;
}
static std::string str(const datetime& d) { char b[120]; snprintf(b, sizeof b, "%d-%02d-%02d %02d:%02d:%02d zone %d min", d.getYear(), d.getMonth(), d.getDay(), d.getHour(), d.getMinute(), d.getSecond(), d.getZone()); return b; }
static bool norm(const datetime& d) { return d.getMonth() >= 1 && d.getMonth() <= 12 && d.getDay() >= 1 && d.getDay() <= dim(d.getYear(), d.getMonth()) && d.getHour() >= 0 && d.getHour() <= 23 && d.getMinute() >= 0 && d.getMinute() <= 59; }

static void calendar(Run& r, int y, int m, int d) {
	char b[80]; snprintf(b, sizeof b, "day %d-%02d-%02d", y, m, d);
	r.begin(b);
	try {
		int w = wday(days(y, m, d));
		r.check(DU::getDayOfWeek(y, m, d) == w, "day-of-week", std::to_string(DU::getDayOfWeek(y, m, d)) + " expected " + std::to_string(w));
		r.check(datetime(y, m, d).getWeekDay() == w, "week-day", std::to_string(datetime(y, m, d).getWeekDay()));
		int iw = isoWeek(y, m, d);
		r.check(DU::getWeekOfYear(y, m, d, true) == iw, "iso-week", std::to_string(DU::getWeekOfYear(y, m, d, true)) + " expected " + std::to_string(iw));
		if (m == 12 && iw == 1) iw = 53;
		r.check(DU::getWeekOfYear(y, m, d) == iw, "week", std::to_string(DU::getWeekOfYear(y, m, d)));
		r.check(datetime(y, m, d).getWeek() == iw, "week", std::to_string(datetime(y, m, d).getWeek()));
		r.check(DU::isLeapYear(y) == leap(y), "leap", "");
		r.check(DU::getDaysInMonth(y, m) == dim(y, m), "days-in-month", std::to_string(DU::getDaysInMonth(y, m)));
	} catch (std::exception& e) { r.fail("exception", e.what()); }
}
static void zones(Run& r, const datetime& d, int z) {
	r.begin(str(d) + " to zone " + std::to_string(z));
	try {
		datetime u = DU::toUniversalTime(d);
		r.check(norm(u) && u.getZone() == 0 && inst(u) == inst(d), "to-universal", str(u));
		datetime l = DU::toLocalTime(d, z);
		r.check(norm(l) && l.getZone() == z && inst(l) == inst(d), "to-local", str(l));
		r.check(d == l && l == u && !(d != l) && d <= l && d >= l && !(d < l) && !(d > l), "same-instant", "the converted date does not compare equal: " + str(l));
	} catch (std::exception& e) { r.fail("exception", e.what()); }
}
static void cmp(Run& r, const datetime& a, const datetime& b) {
	r.begin("compare " + str(a) + " with " + str(b));
	try {
		long long x = inst(a), y = inst(b);
		r.check((a == b) == (x == y), "equal", ""); r.check((a != b) == (x != y), "not-equal", "");
		r.check((a < b) == (x < y), "less", ""); r.check((a <= b) == (x <= y), "less-or-equal", "");
		r.check((a > b) == (x > y), "greater", ""); r.check((a >= b) == (x >= y), "greater-or-equal", "");
	} catch (std::exception& e) { r.fail("exception", e.what()); }
}
static datetime rnd(Run& r) {
	static const int ys[] = {1, 2, 99, 100, 101, 400, 1582, 1600, 1899, 1900, 1901, 1969, 1970, 1999, 2000, 2001, 2004, 2020, 2023, 2024, 2026, 2100, 2400, 9999};
	int y = r.rnd(3) ? ys[r.rnd(24)] : static_cast<int>(1 + r.rnd(9999));
	int m = r.rnd(3) ? (r.rnd(2) ? 1 : r.rnd(2) ? 2 : r.rnd(2) ? 3 : 12) : static_cast<int>(1 + r.rnd(12));
	int n = dim(y, m), d = r.rnd(2) ? (r.rnd(2) ? 1 : n) : static_cast<int>(1 + r.rnd(n));
	static const int zs[] = {0, 60, -60, 330, -210, 720, -720, 840, 1439, 1440, -1440, 1441, 2880, -2881, 5999, -5999, 1, -1, 59, -59, 600, -480};
	int z = r.rnd(4) ? zs[r.rnd(22)] : static_cast<int>(r.rnd(12000)) - 6000;
	static const int hs[] = {0, 23, 1, 22, 12}, ms[] = {0, 59, 30, 1};
	return datetime(y, m, d, r.rnd(2) ? hs[r.rnd(5)] : static_cast<int>(r.rnd(24)), r.rnd(2) ? ms[r.rnd(4)] : static_cast<int>(r.rnd(60)), static_cast<int>(r.rnd(60)), z);
}
// ---- date text (C15)
static std::string gen(const datetime& d) {
	static const char* D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
	static const char* M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
	int z = d.getZone() < 0 ? -d.getZone() : d.getZone();
	char b[200]; snprintf(b, sizeof b, "%s, %d %s %d %02d:%02d:%02d %c%02d%02d", D[wday(days(d.getYear(), d.getMonth(), d.getDay()))], d.getDay(), M[d.getMonth() - 1], d.getYear(), d.getHour(), d.getMinute(), d.getSecond(), d.getZone() < 0 ? '-' : '+', z / 60, z % 60);
	return b;
}
static bool same(const datetime& a, const datetime& b) { return a.getYear() == b.getYear() && a.getMonth() == b.getMonth() && a.getDay() == b.getDay() && a.getHour() == b.getHour() && a.getMinute() == b.getMinute() && a.getSecond() == b.getSecond() && a.getZone() == b.getZone(); }
static void text(Run& r, const std::string& s) {
	r.begin("date text " + hex(s), !s.empty());
	try {
		datetime d(2001, 2, 3, 4, 5, 6, 7);
		std::string copy(s); copy.shrink_to_fit();
		d.parse(copy);
		r.check(norm(d) && d.getYear() >= 1 && d.getSecond() >= 0 && d.getSecond() <= 59, "valid-date", str(d));
		std::string g = d.generate();
		datetime e; e.parse(g);
		if (d.getZone() >= -5999 && d.getZone() <= 5999) r.check(same(d, e), "reparse", g + " read as " + str(e));
		datetime f; f.parse(s);
		if (s.find(':') == std::string::npos || s.size() > 20) r.check(same(d, f), "stale", str(f) + " and " + str(d));
	} catch (std::exception& e) { r.fail("exception", e.what()); }
}
static void roundtrip(Run& r, const datetime& d) {
	r.begin("date " + str(d));
	try {
		std::string g = d.generate();
		r.check(g == gen(d), "generate", g + " expected " + gen(d));
		datetime e; e.parse(g);
		r.check(same(d, e), "roundtrip", g + " read as " + str(e));
	} catch (std::exception& e) { r.fail("exception", e.what()); }
}
// the same date written in other ways the grammar allows
static void grammar(Run& r, datetime d) {
	static const char* M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
	static const struct { const char* n; int z; } Z[] = {{"GMT", 0}, {"UT", 0}, {"EST", -300}, {"EDT", -240}, {"CST", -360}, {"CDT", -300}, {"MST", -420}, {"MDT", -360}, {"PST", -480}, {"PDT", -420}, {"A", -60}, {"I", -540}, {"K", -600}, {"M", -720}, {"N", 60}, {"Y", 720}, {"Z", 0}, {"T", 420}, {"L", -660}, {"H", -480}};
	auto cs = [&](std::string s) { for (auto& c : s) switch (r.rnd(3)) { case 0: c = static_cast<char>(tolower(c)); break; case 1: c = static_cast<char>(toupper(c)); break; } return s; };
	auto sp = [&](int least) { std::string s; for (int n = least + static_cast<int>(r.rnd(3)); n > 0; --n) s += " \t\r\n "[r.rnd(5)]; return s; };
	int y = d.getYear(), sec = d.getSecond(); std::string ys = std::to_string(y);
	if (r.rnd(3) == 0) { static const int yy[] = {0, 1, 69, 70, 99, 100, 105, 999}; int k = yy[r.rnd(8)]; char b[20]; snprintf(b, sizeof b, "%02d", k); ys = b; y = k < 70 ? 2000 + k : 1900 + k; }
	int day = d.getDay() > dim(y, d.getMonth()) ? dim(y, d.getMonth()) : d.getDay();
	std::string s = sp(0);
	if (r.rnd(2)) s += cs("Wed") + sp(0) + (r.rnd(2) ? "," : "") + sp(1);
	s += std::string(r.rnd(2) && day < 10 ? "0" : "") + std::to_string(day) + sp(1) + cs(M[d.getMonth() - 1]) + sp(1) + ys + sp(1) + std::to_string(d.getHour()) + sp(0) + ":" + sp(0) + std::to_string(d.getMinute()) + sp(0);
	if (r.rnd(3)) s += ":" + sp(0) + std::to_string(sec) + sp(1); else { sec = 0; s += " "; }
	int z = d.getZone();
	if (r.rnd(2) || z > 5999 || z < -5999) { auto& q = Z[r.rnd(20)]; z = q.z; s += cs(q.n); } else { int a = z < 0 ? -z : z; char b[20]; snprintf(b, sizeof b, "%c%02d%02d", z < 0 ? '-' : '+', a / 60, a % 60); s += b + sp(0); }
	r.begin("date text " + hex(s) + " (" + s + ")");
	try {
		datetime e(2001, 2, 3, 4, 5, 6, 7); e.parse(s);
		r.check(same(e, datetime(y, d.getMonth(), day, d.getHour(), d.getMinute(), sec, z)), "grammar", s + " read as " + str(e));
	} catch (std::exception& x) { r.fail("exception", x.what()); }
}
struct Ref { const char* t; int y, mo, d, h, mi, s, z; };
int main(int argc, char** argv) {
	Run r(argc, argv);
	if (r.prop == "C14") {
		r.rule = "every day of sample years, random pairs of dates with zones up to several days";
		for (int y : {1, 2, 4, 99, 100, 101, 1582, 1600, 1700, 1899, 1900, 1970, 1976, 1981, 1987, 1992, 1996, 1997, 1999, 2000, 2001, 2004, 2005, 2008, 2009, 2010, 2011, 2012, 2015, 2016, 2020, 2021, 2024, 2026, 2100, 2400, 9999, 10000, 123456})
			for (int m = 1; m <= 12; ++m) for (int d = 1; d <= dim(y, m); ++d) calendar(r, y, m, d);
		for (int m = 1; m <= 12; ++m) for (int bad : {-1, 0, dim(2023, m) + 1, 32}) {
			r.begin("no such day: 2023-" + std::to_string(m) + "-" + std::to_string(bad));
			bool thrown = false; try { DU::getDayOfWeek(2023, m, bad); } catch (std::out_of_range&) { thrown = true; } catch (std::exception&) {}
			r.check(thrown, "invalid-day", "accepted");
		}
		for (int m : {-1, 0, 13, 99}) {
			r.begin("no such month: " + std::to_string(m)); bool thrown = false;
			try { DU::getDaysInMonth(2024, m); } catch (std::out_of_range&) { thrown = true; } catch (std::exception&) {}
			r.check(thrown, "invalid-month", "accepted");
		}
		while (r.time()) {
			datetime a = rnd(r), b = rnd(r);
			zones(r, a, b.getZone()); cmp(r, a, b); cmp(r, a, a);
			// the same instant or its neighbours, written in another zone
			datetime c(a);
			try { c = DU::toLocalTime(a, b.getZone()); } catch (std::exception&) {}
			if (norm(c)) {
				cmp(r, a, c);
				datetime e(c); if (e.getSecond() > 0) e.setSecond(e.getSecond() - 1); else if (e.getMinute() > 0) { e.setMinute(e.getMinute() - 1); } else if (e.getHour() > 0) e.setHour(e.getHour() - 1);
				cmp(r, a, e); cmp(r, e, a);
			}
			calendar(r, a.getYear(), a.getMonth(), a.getDay());
		}
	} else {
		r.rule = "generated dates (written and read), reference texts, mutated and random texts";
		static const Ref refs[] = {
			{"Thu, 16 Mar 2000 15:15:18 +0100", 2000, 3, 16, 15, 15, 18, 60}, {"16 Mar 00 15:15:18 EST", 2000, 3, 16, 15, 15, 18, -300}, {"1 Jan 70 00:00:00 GMT", 1970, 1, 1, 0, 0, 0, 0},
			{"Fri, 31 Dec 99 23:59 PDT", 1999, 12, 31, 23, 59, 0, -420}, {"  Mon ,  7  Jul  2014  1:2:3  -0330 ", 2014, 7, 7, 1, 2, 3, -210}, {"Sat, 29 Feb 2020 12:00:00 UT", 2020, 2, 29, 12, 0, 0, 0},
			{"9 May 105 09:08:07 +1400", 2005, 5, 9, 9, 8, 7, 840}, {"", 1970, 1, 1, 0, 0, 0, 0}, {"   ", 1970, 1, 1, 0, 0, 0, 0}, {"1 Jun 2001 1:1:1 CST", 2001, 6, 1, 1, 1, 1, -360}, {"1 Aug 2001 1:1:1 MDT", 2001, 8, 1, 1, 1, 1, -360},
			{"1 Apr 2001 1:1:1 MST", 2001, 4, 1, 1, 1, 1, -420}, {"1 Sep 2001 1:1:1 PST", 2001, 9, 1, 1, 1, 1, -480}, {"1 Oct 2001 1:1:1 EDT", 2001, 10, 1, 1, 1, 1, -240}, {"1 Nov 2001 1:1:1 CDT", 2001, 11, 1, 1, 1, 1, -300},
			{"1 Nov 2001 1:1:1 A", 2001, 11, 1, 1, 1, 1, -60}, {"1 Nov 2001 1:1:1 z", 2001, 11, 1, 1, 1, 1, 0}, {"1 Nov 2001 1:1:1 Y", 2001, 11, 1, 1, 1, 1, 720}, {"1 Nov 2001 1:1:1 K", 2001, 11, 1, 1, 1, 1, -600} };
		for (auto& f : refs) {
			r.begin(std::string("reference text ") + f.t);
			datetime d; d.parse(f.t);
			r.check(same(d, datetime(f.y, f.mo, f.d, f.h, f.mi, f.s, f.z)), "reference", str(d));
		}
		for (int m = 1; m <= 12; ++m) for (int d = 1; d <= dim(2024, m); ++d) roundtrip(r, datetime(2024, m, d, d % 24, d * 2 % 60, d * 3 % 60, (d - 15) * 60));
		for (auto s : {"31 Feb 2020 1:1:1 +0000", "29 Feb 2021", "99999999999999999999 Jan 2000", "1 Jan 99999999999999999999", "1 Jan 2000 99999999999:1:1", "1 Jan 2000 1:99999999999:1", "1 Jan 2000 1:1:99999999999 +99999999999", "1 Jan 2000 1:1:1 -99999999999", "Jan", "Mon", "Mon,", "1", "1 Jan", "1 Jan 2000 1:1:1 +", "1 Jan 2000 1:1:1 J", "31 Jun", "Jan 31 2000"}) text(r, s);
		static const char* toks[] = {"Mon", ",", " ", "1", "31", "Jan", "feb", "JUL", "2000", "00", "99", "12:", "5", ":", "59", "+", "-", "0100", "EST", "z", "a", "\t", "(c)", "\xff", "99999", "29", "\r\n", "2147483648"};
		while (r.time()) {
			datetime d = rnd(r);
			if (d.getYear() >= 1000) { roundtrip(r, d); grammar(r, d); grammar(r, d); }
			std::string s = gen(d);
			for (int k = 0; k < 3; ++k) {
				std::string t = s; int n = static_cast<int>(r.rnd(4));
				for (int i = 0; i < n && !t.empty(); ++i) { size_t p = r.rnd(t.size()); switch (r.rnd(4)) { case 0: t.erase(p, 1 + r.rnd(4)); break; case 1: t.insert(p, toks[r.rnd(28)]); break; case 2: t[p] = static_cast<char>(r.rnd(256)); break; default: t = t.substr(0, p); } }
				text(r, t);
			}
			std::string t; for (int i = 0, n = static_cast<int>(r.rnd(16)); i < n; ++i) { t += toks[r.rnd(28)]; if (r.rnd(2)) t += ' '; }
			text(r, t);
		}
	}
	return r.finish();
}
