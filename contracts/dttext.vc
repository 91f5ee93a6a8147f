@unit dttext
@use strings streams
@exc out_of_range
@type .*(parsingContext|generationContext).* = drop
@source src/vmime/dateTime.cpp
@struct vmime::datetime as Dt
@method vmime::component::setParsedBounds = dt_bounds void mut val val
@extern vmime::datetime::now = dt_now stru:Dt
@rust
pub fn clone_Dt(d: &Dt) -> (r: Dt) ensures r == *d { Dt { m_year: d.m_year, m_month: d.m_month, m_day: d.m_day, m_hour: d.m_hour, m_minute: d.m_minute, m_second: d.m_second, m_zone: d.m_zone } }
#[verifier::external_body]
pub fn dt_bounds(d: &mut Dt, a: usize, b: usize) ensures *final(d) == *old(d) { unimplemented!() }
// the current date (trusted: the clock and the C library), its year is in the common era
#[verifier::external_body]
pub fn dt_now() -> (r: Dt) ensures 1 <= r.m_year <= 999_999 { unimplemented!() }
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn dim(y: int, m: int) -> int { if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else if m == 2 { if leap(y) { 29 } else { 28 } } else { 31 } }
pub open spec fn okdate(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= dim(y, m) }
#[verifier::opaque]
pub open spec fn dby(y: int) -> int { 365 * (y - 1) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 }
pub open spec fn dbm(y: int, m: int) -> int decreases m { if m <= 1 { 0 } else { dbm(y, m - 1) + dim(y, m - 1) } }
pub open spec fn absday(y: int, m: int, d: int) -> int { dby(y) + dbm(y, m) + d }
pub open spec fn dow(y: int, m: int, d: int) -> int { absday(y, m, d) % 7 }
pub open spec fn dt_ok(d: Dt) -> bool { okdate(d.m_year as int, d.m_month as int, d.m_day as int) && 0 <= d.m_hour <= 23 && 0 <= d.m_minute <= 59 }
pub open spec fn sec_ok(d: Dt) -> bool { 0 <= d.m_second <= 59 }
pub proof fn lemma_trem(y: int) ensures (trem(y, 4) == 0) == (y % 4 == 0), (trem(y, 100) == 0) == (y % 100 == 0), (trem(y, 400) == 0) == (y % 400 == 0) {}
pub proof fn lemma_dbm(y: int)
    ensures dbm(y, 1) == 0, dbm(y, 2) == 31, dbm(y, 3) == 59 + dbm(y, 13) - 365, dbm(y, 4) == 90 + dbm(y, 13) - 365, dbm(y, 5) == 120 + dbm(y, 13) - 365, dbm(y, 6) == 151 + dbm(y, 13) - 365, dbm(y, 7) == 181 + dbm(y, 13) - 365,
        dbm(y, 8) == 212 + dbm(y, 13) - 365, dbm(y, 9) == 243 + dbm(y, 13) - 365, dbm(y, 10) == 273 + dbm(y, 13) - 365, dbm(y, 11) == 304 + dbm(y, 13) - 365, dbm(y, 12) == 334 + dbm(y, 13) - 365, dbm(y, 13) == (if leap(y) { 366int } else { 365int })
{ reveal_with_fuel(dbm, 14); }
#[verifier::spinoff_prover] #[verifier::rlimit(100)]
pub proof fn lemma_dby(y: int) ensures dby(y + 1) == dby(y) + (if leap(y) { 366int } else { 365int })
{
    reveal(dby); let n = y - 1;
    assert((n + 1) / 4 - n / 4 == if (n + 1) % 4 == 0 { 1int } else { 0int });
    assert((n + 1) / 100 - n / 100 == if (n + 1) % 100 == 0 { 1int } else { 0int });
    assert((n + 1) / 400 - n / 400 == if (n + 1) % 400 == 0 { 1int } else { 0int });
    assert(y % 400 == 0 ==> y % 100 == 0); assert(y % 100 == 0 ==> y % 4 == 0);
}
pub proof fn lemma_zeller(y: int, m: int, d: int, yy: int, mm: int)
    requires 1 <= m <= 12, y >= 1, mm == (if m <= 2 { m + 10 } else { m - 2 }), yy == (if m <= 2 { y - 1 } else { y })
    ensures ((26 * mm - 2) / 10 + d + yy % 100 + (yy % 100) / 4 + (yy / 100) / 4 + 5 * (yy / 100)) % 7 == dow(y, m, d)
{
    reveal(dby); lemma_dbm(y);
    let c = yy / 100; let r = yy % 100;
    assert(yy == 100 * c + r);
    assert(yy / 4 == 25 * c + r / 4);
    assert(yy / 400 == c / 4);
    assert(365 * yy == 364 * yy + 100 * c + r);
    let x = (26 * mm - 2) / 10 + d + r + r / 4 + c / 4 + 5 * c;
    // days up to the end of February of year yy, plus the days since
    let e = 365 * yy + yy / 4 - c + yy / 400;
    lemma_dby(y);
    if m <= 2 { assert(dby(y) == e); } else { assert(dby(y + 1) == e); assert(dby(y) + dbm(y, 13) == e); }
    assert(absday(y, m, d) - x == 364 * yy + 100 * c + 25 * c - c - 5 * c + ((absday(y, m, d) - e) - (26 * mm - 2) / 10 - d));
    assert(119 * c == 7 * (17 * c));
    let k = (absday(y, m, d) - e) - (26 * mm - 2) / 10 - d;
    assert(k % 7 == 0) by {
        if m == 1 {} else if m == 2 {} else if m == 3 {} else if m == 4 {} else if m == 5 {} else if m == 6 {} else if m == 7 {} else if m == 8 {} else if m == 9 {} else if m == 10 {} else if m == 11 {} else {}
    }
    assert(absday(y, m, d) == x + 7 * (52 * yy + 17 * c) + k);
}

// ---- classes of characters: 0 white space, 1 letters, 2 anything but digits, 3 digits, 4 anything but white space
pub open spec fn isc(c: int, x: u8) -> bool {
    if c == 0 { x == 32 || x == 9 || x == 10 || x == 13 } else if c == 1 { (97 <= x <= 122) || (65 <= x <= 90) } else if c == 2 { !(48 <= x <= 57) } else if c == 3 { 48 <= x <= 57 } else { !(x == 32 || x == 9 || x == 10 || x == 13) }
}
#[verifier::opaque]
pub open spec fn skipc(c: int, b: Seq<u8>, p: int, e: int) -> int decreases e - p { if p < e && isc(c, b[p]) { skipc(c, b, p + 1, e) } else { p } }
pub open spec fn capv(n: int) -> int { if n <= 999999 { n } else { 999999 } }
// value of the digits at [a, z)
#[verifier::opaque]
pub open spec fn numv(b: Seq<u8>, a: int, z: int) -> int decreases z - a { if z <= a { 0 } else { capv(numv(b, a, z - 1) * 10 + b[z - 1] - 48) } }
pub proof fn lemma_skip1(c: int, b: Seq<u8>, p: int, e: int) ensures skipc(c, b, p, e) == (if p < e && isc(c, b[p]) { skipc(c, b, p + 1, e) } else { p }) { reveal(skipc); }
pub proof fn lemma_num1(b: Seq<u8>, a: int, z: int) ensures numv(b, a, a) == 0, numv(b, a, z + 1) == (if z < a { 0 } else { capv(numv(b, a, z) * 10 + b[z] - 48) }) { reveal(numv); }
pub open spec fn c2(x: u8) -> int { if x < 128 { x as int } else { x as int - 256 } }
pub open spec fn low(x: u8) -> int { if 65 <= x <= 90 { x + 32 } else { x as int } }
pub open spec fn is(b: Seq<u8>, p: int, e: int, c: int) -> bool { p < e && isc(c, b[p]) }
// the names of months
pub open spec fn mon(x: int, y: int, z: int) -> int {
    if x == 106 && y == 97 && z == 110 { 1 } else if x == 102 && y == 101 && z == 98 { 2 } else if x == 109 && y == 97 && z == 114 { 3 } else if x == 97 && y == 112 && z == 114 { 4 }
    else if x == 109 && y == 97 && z == 121 { 5 } else if x == 106 && y == 117 && z == 110 { 6 } else if x == 106 && y == 117 && z == 108 { 7 } else if x == 97 && y == 117 && z == 103 { 8 }
    else if x == 115 && y == 101 && z == 112 { 9 } else if x == 111 && y == 99 && z == 116 { 10 } else if x == 110 && y == 111 && z == 118 { 11 } else if x == 100 && y == 101 && z == 99 { 12 } else { 0 }
}
// years of two or three digits (RFC 2822, obsolete syntax)
pub open spec fn year_of(n: int) -> int { if n < 70 { n + 2000 } else if n < 1000 { n + 1900 } else { n } }
// names of zones (RFC 822): minutes east of Greenwich
pub open spec fn zname(x: int, y: int, z: int) -> int {
    if x == 103 { 0 } else if x == 101 && y == 115 { -300 } else if x == 101 { -240 } else if x == 99 && y == 115 { -360 } else if x == 99 { -300 } else if x == 109 && y == 115 { -420 } else if x == 109 { -360 } else if x == 112 && y == 115 { -480 } else { -420 }
}
pub open spec fn is_zname(x: int, y: int, z: int) -> bool { (x == 103 && y == 109 && z == 116) || ((x == 101 || x == 99 || x == 109 || x == 112) && (y == 115 || y == 100) && z == 116) }
pub open spec fn military(x: int) -> int { if 97 <= x <= 105 { -60 * (x - 96) } else if 107 <= x <= 109 { -60 * (x - 97) } else if 110 <= x <= 121 { 60 * (x - 109) } else { 0 } }
#[verifier::opaque]
pub open spec fn zone_is(b: Seq<u8>, p: int, e: int, z: int) -> bool {
    if p + 1 < e && (b[p] == 43 || b[p] == 45) && isc(3, b[p + 1]) { let q = skipc(3, b, p + 1, e); let v = numv(b, p + 1, q); q == p + 5 && v % 100 < 60 && z == if b[p] == 43 { v / 100 * 60 + v % 100 } else { -(v / 100 * 60 + v % 100) } }
    else if is(b, p, e, 1) {
        let n = skipc(1, b, p, e) - p;
        (n == 1 && p + 1 == e && z == military(low(b[p]))) || (n == 2 && low(b[p]) == 117 && low(b[p + 1]) == 116 && z == 0)
            || (n == 3 && is_zname(low(b[p]), low(b[p + 1]), low(b[p + 2])) && z == zname(low(b[p]), low(b[p + 1]), low(b[p + 2])))
    } else { false }
}
// ---- the grammar of dates: [week day ","] day month year hour ":" minute [":" second] zone
#[verifier::opaque]
pub open spec fn after_wday(b: Seq<u8>, p: int, e: int) -> int {
    let a = skipc(0, b, p, e);
    if is(b, a, e, 1) { let x = skipc(0, b, skipc(1, b, a, e), e); skipc(0, b, if x < e && b[x] == 44 { x + 1 } else { x }, e) } else { a }
}
#[verifier::opaque]
pub open spec fn date_is(b: Seq<u8>, p: int, e: int, d: Dt) -> bool {
    let a = after_wday(b, p, e);
    let a2 = skipc(3, b, a, e); let a3 = skipc(0, b, a2, e);
    let a4 = skipc(0, b, a3 + 3, e);
    is(b, a, e, 3) && numv(b, a, a2) == d.m_day && is(b, a2, e, 0)
    && a3 + 3 < e && isc(1, b[a3]) && isc(1, b[a3 + 1]) && isc(1, b[a3 + 2]) && isc(0, b[a3 + 3]) && mon(low(b[a3]), low(b[a3 + 1]), low(b[a3 + 2])) == d.m_month
    && year_is(b, a4, e, d)
}
#[verifier::opaque]
pub open spec fn year_is(b: Seq<u8>, p: int, e: int, d: Dt) -> bool {
    let q = skipc(3, b, p, e);
    is(b, p, e, 3) && q >= p + 2 && (q == p + 2 ==> is(b, q, e, 0)) && year_of(numv(b, p, q)) == d.m_year && is(b, q, e, 0) && time_is(b, skipc(0, b, q, e), e, d)
}
#[verifier::opaque]
pub open spec fn time_is(b: Seq<u8>, p: int, e: int, d: Dt) -> bool {
    let q = skipc(3, b, p, e); let c = skipc(0, b, q, e); let m = skipc(0, b, c + 1, e); let m2 = skipc(3, b, m, e); let c2 = skipc(0, b, m2, e);
    is(b, p, e, 3) && numv(b, p, q) == d.m_hour && c < e && b[c] == 58 && is(b, m, e, 3) && numv(b, m, m2) == d.m_minute
    && if c2 < e && b[c2] == 58 { let s = skipc(0, b, c2 + 1, e); let s2 = skipc(3, b, s, e); is(b, s, e, 3) && numv(b, s, s2) == d.m_second && is(b, s2, e, 0) && zone_is(b, skipc(0, b, s2, e), e, d.m_zone as int) } else { d.m_second == 0 && zone_is(b, c2, e, d.m_zone as int) }
}

// where the month, the year and the time begin
#[verifier::opaque]
pub open spec fn off2(b: Seq<u8>, p: int, e: int) -> int { skipc(0, b, skipc(3, b, after_wday(b, p, e), e), e) }
#[verifier::opaque]
pub open spec fn off3(b: Seq<u8>, p: int, e: int) -> int { skipc(0, b, off2(b, p, e) + 3, e) }
#[verifier::opaque]
pub open spec fn off4(b: Seq<u8>, p: int, e: int) -> int { skipc(0, b, skipc(3, b, off3(b, p, e), e), e) }

// ---- the canonical text
pub open spec fn wname(n: int) -> Seq<u8> { if n == 0 { seq![83u8, 117u8, 110u8] } else if n == 1 { seq![77u8, 111u8, 110u8] } else if n == 2 { seq![84u8, 117u8, 101u8] } else if n == 3 { seq![87u8, 101u8, 100u8] } else if n == 4 { seq![84u8, 104u8, 117u8] } else if n == 5 { seq![70u8, 114u8, 105u8] } else { seq![83u8, 97u8, 116u8] } }
pub open spec fn mname(n: int) -> Seq<u8> { if n == 1 { seq![74u8, 97u8, 110u8] } else if n == 2 { seq![70u8, 101u8, 98u8] } else if n == 3 { seq![77u8, 97u8, 114u8] } else if n == 4 { seq![65u8, 112u8, 114u8] } else if n == 5 { seq![77u8, 97u8, 121u8] } else if n == 6 { seq![74u8, 117u8, 110u8] }
    else if n == 7 { seq![74u8, 117u8, 108u8] } else if n == 8 { seq![65u8, 117u8, 103u8] } else if n == 9 { seq![83u8, 101u8, 112u8] } else if n == 10 { seq![79u8, 99u8, 116u8] } else if n == 11 { seq![78u8, 111u8, 118u8] } else { seq![68u8, 101u8, 99u8] } }
pub open spec fn p2(n: int) -> Seq<u8> { padl(sdec(n), 2, 48) }
pub open spec fn zabs(z: int) -> int { if z < 0 { -z } else { z } }
pub open spec fn g1(d: Dt) -> Seq<u8> { Seq::<u8>::empty() + wname(dow(d.m_year as int, d.m_month as int, d.m_day as int)) + seq![44u8, 32u8] }
pub open spec fn g2(d: Dt) -> Seq<u8> { g1(d) + sdec(d.m_day as int) + seq![32u8] }
pub open spec fn g3(d: Dt) -> Seq<u8> { g2(d) + mname(d.m_month as int) + seq![32u8] }
pub open spec fn g4(d: Dt) -> Seq<u8> { g3(d) + sdec(d.m_year as int) + seq![32u8] }
pub open spec fn g5(d: Dt) -> Seq<u8> { g4(d) + p2(d.m_hour as int) + seq![58u8] }
pub open spec fn g6(d: Dt) -> Seq<u8> { g5(d) + p2(d.m_minute as int) + seq![58u8] }
pub open spec fn g7(d: Dt) -> Seq<u8> { g6(d) + p2(d.m_second as int) + seq![32u8] }
pub open spec fn g8(d: Dt) -> Seq<u8> { g7(d).push(if d.m_zone < 0 { 45u8 } else { 43u8 }) }
pub open spec fn gen(d: Dt) -> Seq<u8> { g8(d) + p2(zabs(d.m_zone as int) / 60) + p2(zabs(d.m_zone as int) % 60) }
// ---- the canonical text of a date is a date of the grammar, for years of four digits or more and zones below 100 hours
pub proof fn lemma_run(c: int, b: Seq<u8>, p: int, q: int, e: int)
    requires p <= q <= e, forall|k: int| p <= k < q ==> isc(c, #[trigger] b[k]), q == e || !isc(c, b[q])
    ensures skipc(c, b, p, e) == q
    decreases q - p
{ reveal(skipc); if p < q { lemma_run(c, b, p + 1, q, e); } }
pub proof fn lemma_digs(n: nat)
    ensures dec_digits(n).len() >= 1, forall|k: int| 0 <= k < dec_digits(n).len() ==> isc(3, #[trigger] dec_digits(n)[k]),
        n < 10 ==> dec_digits(n).len() == 1, 10 <= n < 100 ==> dec_digits(n).len() == 2, n >= 100 ==> dec_digits(n).len() >= 3
    decreases n
{
    if n >= 10 {
        lemma_digs(n / 10); let s = dec_digits(n / 10);
        assert(dec_digits(n) == s.push((48 + n % 10) as u8));
        assert forall|k: int| 0 <= k < dec_digits(n).len() implies isc(3, #[trigger] dec_digits(n)[k]) by { if k < s.len() { assert(isc(3, s[k])); } }
    }
}
pub proof fn lemma_numv_ext(b: Seq<u8>, c: Seq<u8>, a: int, z: int, o: int)
    requires forall|k: int| a <= k < z ==> #[trigger] b[k] == c[k - o]
    ensures numv(b, a, z) == numv(c, a - o, z - o)
    decreases z - a
{ reveal(numv); if z > a { lemma_numv_ext(b, c, a, z - 1, o); } }
pub proof fn lemma_numv_dec(n: nat)
    requires n <= 999999
    ensures numv(dec_digits(n), 0, dec_digits(n).len() as int) == n
    decreases n
{
    reveal(numv); lemma_digs(n); let s = dec_digits(n);
    if n >= 10 {
        let t = dec_digits(n / 10); lemma_digs(n / 10); lemma_numv_dec(n / 10);
        assert(s == t.push((48 + n % 10) as u8));
        lemma_numv_ext(s, t, 0, t.len() as int, 0);
        assert(numv(s, 0, s.len() as int) == capv(numv(s, 0, s.len() - 1) * 10 + s[s.len() - 1] - 48));
    } else {
        assert(numv(s, 0, 1) == capv(numv(s, 0, 0) * 10 + s[0] - 48));
    }
}
// a number inside a text, followed by something else
pub proof fn lemma_field(b: Seq<u8>, p: int, e: int, s: Seq<u8>, n: int)
    requires 0 <= n <= 999999, s == sdec(n) || (s == p2(n) && n <= 99), 0 <= p, p + s.len() <= e <= b.len(), b.subrange(p, p + s.len()) == s, p + s.len() == e || !isc(3, b[p + s.len()])
    ensures skipc(3, b, p, e) == p + s.len(), numv(b, p, p + s.len()) == n, is(b, p, e, 3), s.len() >= 1, s == p2(n) && n <= 99 ==> s.len() == 2, n >= 10 ==> s.len() >= 2
{
    let t = dec_digits(n as nat); lemma_digs(n as nat); lemma_numv_dec(n as nat);
    assert(sdec(n) == t);
    lemma_p2(n);
    assert forall|k: int| p <= k < p + s.len() implies isc(3, #[trigger] b[k]) by { assert(b[k] == b.subrange(p, p + s.len())[k - p]); }
    assert forall|k: int| p <= k < p + s.len() implies #[trigger] b[k] == s[k - p] by { assert(b[k] == b.subrange(p, p + s.len())[k - p]); }
    lemma_run(3, b, p, p + s.len(), e);
    lemma_numv_ext(b, s, p, p + s.len(), p);
    assert(b[p] == s[0]);
}
pub proof fn lemma_p2(n: int)
    requires 0 <= n <= 999999
    ensures forall|k: int| 0 <= k < p2(n).len() ==> isc(3, #[trigger] p2(n)[k]), n <= 99 ==> p2(n).len() == 2 && numv(p2(n), 0, 2) == n
{
    let t = dec_digits(n as nat); lemma_digs(n as nat); lemma_numv_dec(n as nat); let s = p2(n); reveal(numv);
    assert(sdec(n) == t);
    assert forall|k: int| 0 <= k < s.len() implies isc(3, #[trigger] s[k]) by { let z = s.len() - t.len(); if k >= z { assert(s[k] == t[k - z]); } else { assert(s[k] == 48); } }
    if n < 10 { assert(s[0] == 48 && s[1] == t[0]); assert(numv(s, 0, 0) == 0); assert(numv(s, 0, 1) == 0); assert(numv(t, 0, 0) == 0); assert(numv(t, 0, 1) == n); assert(numv(s, 0, 2) == capv(s[1] - 48)); }
    else if n <= 99 { assert(s =~= t); }
}
pub open spec fn pre(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
// one more piece, then one more character
pub proof fn lemma_piece(g: Seq<u8>, s: Seq<u8>, x: u8, b: Seq<u8>)
    requires pre(g + s + seq![x], b)
    ensures pre(g, b), b.subrange(g.len() as int, (g.len() + s.len()) as int) == s, b[(g.len() + s.len()) as int] == x, (g + s + seq![x]).len() == g.len() + s.len() + 1, g.len() + s.len() + 1 <= b.len(), s.len() > 0 ==> b[g.len() as int] == s[0]
{
    let h = g + s + seq![x];
    assert forall|k: int| 0 <= k < h.len() implies b[k] == #[trigger] h[k] by { assert(b.subrange(0, h.len() as int)[k] == b[k]); }
    assert(b.subrange(0, g.len() as int) =~= g) by { assert forall|k: int| 0 <= k < g.len() implies b[k] == g[k] by { assert(b[k] == h[k]); } }
    assert(b.subrange(g.len() as int, (g.len() + s.len()) as int) =~= s) by { assert forall|k: int| 0 <= k < s.len() implies b[g.len() + k] == s[k] by { assert(b[g.len() + k] == h[g.len() + k]); } }
    assert(b[(g.len() + s.len()) as int] == h[(g.len() + s.len()) as int]);
    if s.len() > 0 { assert(b[g.len() as int] == h[g.len() as int]); }
}
pub proof fn lemma_sp(b: Seq<u8>, q: int, e: int)
    requires 0 <= q, q + 1 < e <= b.len(), b[q] == 32, !isc(0, b[q + 1])
    ensures skipc(0, b, q, e) == q + 1, is(b, q, e, 0)
{ lemma_run(0, b, q, q + 1, e); }
pub proof fn lemma_nosp(b: Seq<u8>, q: int, e: int)
    requires q <= e, q == e || !isc(0, b[q])
    ensures skipc(0, b, q, e) == q
{ lemma_run(0, b, q, q, e); }
pub proof fn lemma_gen_zone(d: Dt)
    requires -5999 <= d.m_zone <= 5999
    ensures pre(g7(d), gen(d)), gen(d).len() == g7(d).len() + 5, zone_is(gen(d), g7(d).len() as int, gen(d).len() as int, d.m_zone as int), !isc(0, gen(d)[g7(d).len() as int])
{
    let b = gen(d); let e = b.len() as int; let p = g7(d).len() as int; let z = zabs(d.m_zone as int); let h = z / 60; let m = z % 60;
    lemma_p2(h); lemma_p2(m);
    let s = p2(h) + p2(m);
    assert(b == g8(d) + p2(h) + p2(m));
    assert(b.subrange(0, p) =~= g7(d));
    assert(b[p] == g8(d)[p]);
    assert(b.len() == p + 5);
    assert(b[p + 1] == p2(h)[0] && b[p + 2] == p2(h)[1] && b[p + 3] == p2(m)[0] && b[p + 4] == p2(m)[1]);
    assert forall|k: int| p + 1 <= k < p + 5 implies isc(3, #[trigger] b[k]) by { if k < p + 3 { assert(isc(3, p2(h)[k - p - 1])); } else { assert(isc(3, p2(m)[k - p - 3])); } }
    lemma_run(3, b, p + 1, p + 5, e);
    lemma_num1(p2(h), 0, 0); lemma_num1(p2(h), 0, 1); lemma_num1(p2(m), 0, 0); lemma_num1(p2(m), 0, 1);
    lemma_num1(b, p + 1, p + 1); lemma_num1(b, p + 1, p + 2); lemma_num1(b, p + 1, p + 3); lemma_num1(b, p + 1, p + 4);
    let v = numv(b, p + 1, p + 5);
    assert(v == 100 * h + m);
    assert(v / 100 == h && v % 100 == m);
    reveal(zone_is);
}
#[verifier::spinoff_prover]
pub proof fn lemma_gen_time(d: Dt)
    requires dt_ok(d), sec_ok(d), -5999 <= d.m_zone <= 5999
    ensures pre(g4(d), gen(d)), time_is(gen(d), g4(d).len() as int, gen(d).len() as int, d), isc(3, gen(d)[g4(d).len() as int])
{
    let b = gen(d); let e = b.len() as int;
    lemma_gen_zone(d);
    lemma_piece(g6(d), p2(d.m_second as int), 32, b); lemma_p2(d.m_second as int);
    lemma_piece(g5(d), p2(d.m_minute as int), 58, b); lemma_p2(d.m_minute as int);
    lemma_piece(g4(d), p2(d.m_hour as int), 58, b); lemma_p2(d.m_hour as int);
    let p = g4(d).len() as int; let m = g5(d).len() as int; let s = g6(d).len() as int; let z = g7(d).len() as int;
    lemma_field(b, p, e, p2(d.m_hour as int), d.m_hour as int);
    lemma_field(b, m, e, p2(d.m_minute as int), d.m_minute as int);
    lemma_field(b, s, e, p2(d.m_second as int), d.m_second as int);
    lemma_nosp(b, p + 2, e); lemma_nosp(b, m, e); lemma_nosp(b, m + 2, e); lemma_nosp(b, s, e); lemma_sp(b, s + 2, e);
    reveal(time_is);
}
#[verifier::spinoff_prover]
pub proof fn lemma_gen_year(d: Dt)
    requires dt_ok(d), sec_ok(d), -5999 <= d.m_zone <= 5999, 1000 <= d.m_year <= 999_999
    ensures pre(g3(d), gen(d)), year_is(gen(d), g3(d).len() as int, gen(d).len() as int, d), isc(3, gen(d)[g3(d).len() as int])
{
    let b = gen(d); let e = b.len() as int;
    lemma_gen_time(d); lemma_digs(d.m_year as nat);
    lemma_piece(g3(d), sdec(d.m_year as int), 32, b);
    let p = g3(d).len() as int; let q = p + sdec(d.m_year as int).len();
    lemma_field(b, p, e, sdec(d.m_year as int), d.m_year as int);
    lemma_sp(b, q, e);
    reveal(year_is);
}
pub proof fn lemma_names(n: int, m: int)
    requires 0 <= n <= 6, 1 <= m <= 12
    ensures wname(n).len() == 3, isc(1, wname(n)[0]), isc(1, wname(n)[1]), isc(1, wname(n)[2]), mname(m).len() == 3, isc(1, mname(m)[0]), isc(1, mname(m)[1]), isc(1, mname(m)[2]), mon(low(mname(m)[0]), low(mname(m)[1]), low(mname(m)[2])) == m
{
    if m == 1 {} else if m == 2 {} else if m == 3 {} else if m == 4 {} else if m == 5 {} else if m == 6 {} else if m == 7 {} else if m == 8 {} else if m == 9 {} else if m == 10 {} else if m == 11 {} else {}
}
#[verifier::spinoff_prover]
pub proof fn lemma_gen(d: Dt)
    requires dt_ok(d), sec_ok(d), -5999 <= d.m_zone <= 5999, 1000 <= d.m_year <= 999_999
    ensures date_is(gen(d), 0, gen(d).len() as int, d)
{
    let b = gen(d); let e = b.len() as int; let w = dow(d.m_year as int, d.m_month as int, d.m_day as int);
    lemma_gen_year(d); lemma_digs(d.m_day as nat); lemma_names(w, d.m_month as int);
    let mn = mname(d.m_month as int);
    lemma_piece(g2(d), mn, 32, b);
    lemma_piece(g1(d), sdec(d.m_day as int), 32, b);
    assert(g1(d) =~= Seq::<u8>::empty() + (wname(w) + seq![44u8]) + seq![32u8]);
    lemma_piece(Seq::<u8>::empty(), wname(w) + seq![44u8], 32, b);
    assert forall|k: int| 0 <= k < 5 implies #[trigger] b[k] == g1(d)[k] by { assert(b.subrange(0, 5)[k] == b[k]); assert(b.subrange(0, g1(d).len() as int) == g1(d)); }
    assert(b[0] == wname(w)[0] && b[1] == wname(w)[1] && b[2] == wname(w)[2] && b[3] == 44 && b[4] == 32);
    let a = g1(d).len() as int; let a3 = g2(d).len() as int;
    lemma_nosp(b, 0, e); lemma_run(1, b, 0, 3, e); lemma_nosp(b, 3, e);
    lemma_field(b, a, e, sdec(d.m_day as int), d.m_day as int);
    lemma_sp(b, 4, e);
    assert forall|k: int| 0 <= k < 3 implies #[trigger] b[a3 + k] == mn[k] by { assert(b.subrange(a3, a3 + 3)[k] == b[a3 + k]); }
    assert(b[a3] == mn[0] && b[a3 + 1] == mn[1] && b[a3 + 2] == mn[2]);
    lemma_sp(b, a3 - 1, e); lemma_sp(b, a3 + 3, e);
    reveal(after_wday);
    assert(after_wday(b, 0, e) == a);
    reveal(date_is);
}
pub open spec fn zone_max(z: int) -> bool { -600_039 <= z <= 600_039 }
@fn vmime::datetime::getYear as dt_getYear
@ensures
    res == this.m_year,
@fn vmime::datetime::parseImpl as dt_parse
@throws
@isolate
@outptr newPosition
@extraparam Ghost(gd): Ghost<Dt>
@requires
    position <= end <= buffer.len(), buffer.len() < 0x7fff_ffff_ffff_ffff,
@ensures
    res is Ok, *final(newPosition) == end,
    dt_ok(*final(this)), sec_ok(*final(this)), 1 <= final(this).m_year <= 999_999, zone_max(final(this).m_zone as int),
    date_is(buffer@, position as int, end as int, gd) && dt_ok(gd) && sec_ok(gd) ==> *final(this) == gd,
@ifs 38
@block 2 requires
    pend == end, position <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, p as int == skipc(0, buffer@, position as int, end as int),
@block 2 ensures
    pend == end, position <= p <= pend, p as int == after_wday(buffer@, position as int, end as int),
@hint block 2 begin
    proof { reveal(after_wday); }
@block 4 requires
    *this == d0, this.m_day == 1, pend == end, position <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, p as int == after_wday(buffer@, position as int, end as int), !dayParsed,
@block 4 ensures
    pend == end, position <= p <= pend, *this == (Dt { m_day: this.m_day, ..d0 }), 1 <= this.m_day <= 31,
    date_is(buffer@, position as int, end as int, gd) && dt_ok(gd) ==> dayParsed && this.m_day == gd.m_day && p as int == off2(buffer@, position as int, end as int),
@hint block 4 pre
    let ghost d0 = *this;
@hint block 4 begin
    proof { reveal(date_is); reveal(off2); }
@block 6 requires
    *this == d1, pend == end, position <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff,
    date_is(buffer@, position as int, end as int, gd) && dt_ok(gd) ==> p as int == off2(buffer@, position as int, end as int),
@block 6 ensures
    pend == end, position <= p <= pend, *this == (Dt { m_month: this.m_month, ..d1 }), 1 <= this.m_month <= 12,
    date_is(buffer@, position as int, end as int, gd) && dt_ok(gd) ==> this.m_month == gd.m_month && p as int == off3(buffer@, position as int, end as int),
@hint block 6 pre
    let ghost d1 = *this;
@hint block 6 begin
    proof { reveal(date_is); reveal(off2); reveal(off3); }
@block 12 requires
    *this == d2, p == p2, pend == end, position <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, 1 <= this.m_day <= 31,
@block 12 ensures
    pend == end, position <= p <= pend, *this == (Dt { m_day: this.m_day, ..d2 }), 1 <= this.m_day <= 31,
    dayParsed ==> p == p2 && *this == d2,
@hint block 12 pre
    let ghost d2 = *this; let ghost p2 = p;
@block 13 requires
    *this == d3, pend == end, position <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff,
    date_is(buffer@, position as int, end as int, gd) && dt_ok(gd) ==> p as int == off3(buffer@, position as int, end as int),
@block 13 ensures
    pend == end, position <= p <= pend, *this == (Dt { m_year: this.m_year, ..d3 }), 1 <= this.m_year <= 999_999,
    date_is(buffer@, position as int, end as int, gd) && dt_ok(gd) ==> this.m_year == gd.m_year && p as int == off4(buffer@, position as int, end as int),
@hint block 13 pre
    let ghost d3 = *this;
@hint block 13 begin
    proof { reveal(date_is); reveal(year_is); reveal(off2); reveal(off3); reveal(off4); let z = p as int; lemma_skip1(3, buffer@, z, pend as int); lemma_skip1(3, buffer@, z + 1, pend as int); lemma_skip1(3, buffer@, z + 2, pend as int); }
@block 17 requires
    *this == d4, pend == end, position <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, this.m_hour == 0, this.m_minute == 0, this.m_second == 0,
    date_is(buffer@, position as int, end as int, gd) && dt_ok(gd) ==> p as int == off4(buffer@, position as int, end as int),
@block 17 ensures
    pend == end, position <= p <= pend, *this == (Dt { m_hour: this.m_hour, m_minute: this.m_minute, m_second: this.m_second, ..d4 }), 0 <= this.m_hour <= 23, 0 <= this.m_minute <= 59, 0 <= this.m_second <= 59,
    date_is(buffer@, position as int, end as int, gd) && dt_ok(gd) && sec_ok(gd) ==> this.m_hour == gd.m_hour && this.m_minute == gd.m_minute && this.m_second == gd.m_second && zone_is(buffer@, p as int, end as int, gd.m_zone as int),
@hint block 17 pre
    let ghost d4 = *this;
@hint block 17 begin
    proof { reveal(date_is); reveal(year_is); reveal(time_is); reveal(off2); reveal(off3); reveal(off4); }
@block 22 requires
    *this == d5, p == p5, pend == end, position <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff,
@block 22 ensures
    pend == end, *this == (Dt { m_zone: this.m_zone, ..d5 }), zone_max(this.m_zone as int),
    zone_is(buffer@, p5 as int, end as int, gd.m_zone as int) ==> this.m_zone == gd.m_zone,
@hint block 22 pre
    let ghost d5 = *this; let ghost p5 = p;
@hint block 22 begin
    proof { reveal(zone_is); let z = p as int; lemma_skip1(1, buffer@, z, pend as int); lemma_skip1(1, buffer@, z + 1, pend as int); lemma_skip1(1, buffer@, z + 2, pend as int); lemma_skip1(1, buffer@, z + 3, pend as int); }
@hint before ~this.m_year = 1970~ #2
    proof { reveal(date_is); reveal(after_wday); }
@hint loop 1 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 1 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 1 pre
    let ghost q1 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 1 invariant
    q1 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q1, pend as int),
@loop 1 ensures
    p as int == skipc(0, buffer@, q1, pend as int),
@loop 1 decreases
    pend - p
@hint loop 2 begin
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@hint loop 2 exit
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@hint loop 2 pre
    let ghost q2 = p as int;
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@loop 2 invariant
    q2 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(1, buffer@, p as int, pend as int) == skipc(1, buffer@, q2, pend as int),
@loop 2 ensures
    p as int == skipc(1, buffer@, q2, pend as int),
@loop 2 decreases
    pend - p
@hint loop 3 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 3 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 3 pre
    let ghost q3 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 3 invariant
    q3 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q3, pend as int),
@loop 3 ensures
    p as int == skipc(0, buffer@, q3, pend as int),
@loop 3 decreases
    pend - p
@hint loop 4 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 4 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 4 pre
    let ghost q4 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 4 invariant
    q4 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q4, pend as int),
@loop 4 ensures
    p as int == skipc(0, buffer@, q4, pend as int),
@loop 4 decreases
    pend - p
@hint loop 5 begin
    proof { lemma_skip1(2, buffer@, p as int, pend as int); }
@hint loop 5 exit
    proof { lemma_skip1(2, buffer@, p as int, pend as int); }
@hint loop 5 pre
    let ghost q5 = p as int;
    proof { lemma_skip1(2, buffer@, p as int, pend as int); }
@loop 5 invariant
    q5 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(2, buffer@, p as int, pend as int) == skipc(2, buffer@, q5, pend as int),
@loop 5 ensures
    p as int == skipc(2, buffer@, q5, pend as int),
@loop 5 decreases
    pend - p
@hint loop 6 begin
    proof { lemma_skip1(3, buffer@, p as int, pend as int); lemma_num1(buffer@, q6, p as int); }
@hint loop 6 pre
    proof { lemma_num1(buffer@, p as int, p as int); }
@hint loop 6 exit
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@hint loop 6 pre
    let ghost q6 = p as int;
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@loop 6 xinvariant
    p < pend, isc(3, buffer@[p as int]),
@loop 6 invariant
    q6 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, 0 <= day <= 999999, day as int == numv(buffer@, q6, p as int), skipc(3, buffer@, p as int, pend as int) == skipc(3, buffer@, q6, pend as int),
@loop 6 ensures
    p as int == skipc(3, buffer@, q6, pend as int), p > q6,
@loop 6 decreases
    pend - p
@hint loop 7 begin
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 7 exit
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 7 pre
    let ghost q7 = p as int;
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@loop 7 invariant
    q7 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(4, buffer@, p as int, pend as int) == skipc(4, buffer@, q7, pend as int),
@loop 7 ensures
    p as int == skipc(4, buffer@, q7, pend as int),
@loop 7 decreases
    pend - p
@hint loop 8 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 8 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 8 pre
    let ghost q8 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 8 invariant
    q8 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q8, pend as int),
@loop 8 ensures
    p as int == skipc(0, buffer@, q8, pend as int),
@loop 8 decreases
    pend - p
@hint loop 9 begin
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 9 exit
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 9 pre
    let ghost q9 = p as int;
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@loop 9 invariant
    q9 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(4, buffer@, p as int, pend as int) == skipc(4, buffer@, q9, pend as int),
@loop 9 ensures
    p as int == skipc(4, buffer@, q9, pend as int),
@loop 9 decreases
    pend - p
@hint loop 10 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 10 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 10 pre
    let ghost q10 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 10 invariant
    q10 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q10, pend as int),
@loop 10 ensures
    p as int == skipc(0, buffer@, q10, pend as int),
@loop 10 decreases
    pend - p
@hint loop 11 begin
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@hint loop 11 exit
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@hint loop 11 pre
    proof { let z = p as int; lemma_skip1(1, buffer@, z + 1, pend as int); lemma_skip1(1, buffer@, z + 2, pend as int); lemma_skip1(1, buffer@, z + 3, pend as int); }
    let ghost q11 = p as int;
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@loop 11 xinvariant
    monthLength < 3, p < pend, isc(1, buffer@[p as int]),
@loop 11 invariant
    p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, 0 <= monthLength <= 3, p == q11 + monthLength, month.len() == 4, forall|k: int| 0 <= k < monthLength ==> #[trigger] month[k] as int == c2(buffer@[q11 + k]), forall|k: int| monthLength <= k < 4 ==> #[trigger] month[k] == 0, skipc(1, buffer@, p as int, pend as int) == skipc(1, buffer@, q11, pend as int),
@loop 11 ensures
    monthLength == 3 || p as int == skipc(1, buffer@, q11, pend as int), monthLength >= 1,
@loop 11 decreases
    pend - p
@hint loop 12 begin
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@hint loop 12 exit
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@hint loop 12 pre
    let ghost q12 = p as int;
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@loop 12 invariant
    q12 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(1, buffer@, p as int, pend as int) == skipc(1, buffer@, q12, pend as int),
@loop 12 ensures
    p as int == skipc(1, buffer@, q12, pend as int),
@loop 12 decreases
    pend - p
@hint loop 13 begin
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 13 exit
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 13 pre
    let ghost q13 = p as int;
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@loop 13 invariant
    q13 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(4, buffer@, p as int, pend as int) == skipc(4, buffer@, q13, pend as int),
@loop 13 ensures
    p as int == skipc(4, buffer@, q13, pend as int),
@loop 13 decreases
    pend - p
@hint loop 14 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 14 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 14 pre
    let ghost q14 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 14 invariant
    q14 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q14, pend as int),
@loop 14 ensures
    p as int == skipc(0, buffer@, q14, pend as int),
@loop 14 decreases
    pend - p
@hint loop 15 begin
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 15 exit
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 15 pre
    let ghost q15 = p as int;
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@loop 15 invariant
    q15 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(4, buffer@, p as int, pend as int) == skipc(4, buffer@, q15, pend as int),
@loop 15 ensures
    p as int == skipc(4, buffer@, q15, pend as int),
@loop 15 decreases
    pend - p
@hint loop 16 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 16 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 16 pre
    let ghost q16 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 16 invariant
    q16 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q16, pend as int),
@loop 16 ensures
    p as int == skipc(0, buffer@, q16, pend as int),
@loop 16 decreases
    pend - p
@hint loop 17 begin
    proof { lemma_skip1(3, buffer@, p as int, pend as int); lemma_num1(buffer@, q17, p as int); }
@hint loop 17 pre
    proof { lemma_num1(buffer@, p as int, p as int); }
@hint loop 17 exit
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@hint loop 17 pre
    let ghost q17 = p as int;
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@loop 17 xinvariant
    p < pend, isc(3, buffer@[p as int]),
@loop 17 invariant
    q17 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, 0 <= day <= 999999, day as int == numv(buffer@, q17, p as int), skipc(3, buffer@, p as int, pend as int) == skipc(3, buffer@, q17, pend as int),
@loop 17 ensures
    p as int == skipc(3, buffer@, q17, pend as int), p > q17,
@loop 17 decreases
    pend - p
@hint loop 18 begin
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 18 exit
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 18 pre
    let ghost q18 = p as int;
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@loop 18 invariant
    q18 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(4, buffer@, p as int, pend as int) == skipc(4, buffer@, q18, pend as int),
@loop 18 ensures
    p as int == skipc(4, buffer@, q18, pend as int),
@loop 18 decreases
    pend - p
@hint loop 19 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 19 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 19 pre
    let ghost q19 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 19 invariant
    q19 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q19, pend as int),
@loop 19 ensures
    p as int == skipc(0, buffer@, q19, pend as int),
@loop 19 decreases
    pend - p
@hint loop 20 begin
    proof { lemma_skip1(3, buffer@, p as int, pend as int); lemma_num1(buffer@, q20, p as int); }
@hint loop 20 pre
    proof { lemma_num1(buffer@, p as int, p as int); }
@hint loop 20 exit
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@hint loop 20 pre
    let ghost q20 = p as int;
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@loop 20 xinvariant
    p < pend, isc(3, buffer@[p as int]),
@loop 20 invariant
    q20 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, 0 <= year <= 999999, year as int == numv(buffer@, q20, p as int), skipc(3, buffer@, p as int, pend as int) == skipc(3, buffer@, q20, pend as int),
@loop 20 ensures
    p as int == skipc(3, buffer@, q20, pend as int), p > q20,
@loop 20 decreases
    pend - p
@hint loop 21 begin
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 21 exit
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 21 pre
    let ghost q21 = p as int;
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@loop 21 invariant
    q21 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(4, buffer@, p as int, pend as int) == skipc(4, buffer@, q21, pend as int),
@loop 21 ensures
    p as int == skipc(4, buffer@, q21, pend as int),
@loop 21 decreases
    pend - p
@hint loop 22 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 22 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 22 pre
    let ghost q22 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 22 invariant
    q22 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q22, pend as int),
@loop 22 ensures
    p as int == skipc(0, buffer@, q22, pend as int),
@loop 22 decreases
    pend - p
@hint loop 23 begin
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 23 exit
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 23 pre
    let ghost q23 = p as int;
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@loop 23 invariant
    q23 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(4, buffer@, p as int, pend as int) == skipc(4, buffer@, q23, pend as int),
@loop 23 ensures
    p as int == skipc(4, buffer@, q23, pend as int),
@loop 23 decreases
    pend - p
@hint loop 24 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 24 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 24 pre
    let ghost q24 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 24 invariant
    q24 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q24, pend as int),
@loop 24 ensures
    p as int == skipc(0, buffer@, q24, pend as int),
@loop 24 decreases
    pend - p
@hint loop 25 begin
    proof { lemma_skip1(3, buffer@, p as int, pend as int); lemma_num1(buffer@, q25, p as int); }
@hint loop 25 pre
    proof { lemma_num1(buffer@, p as int, p as int); }
@hint loop 25 exit
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@hint loop 25 pre
    let ghost q25 = p as int;
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@loop 25 xinvariant
    p < pend, isc(3, buffer@[p as int]),
@loop 25 invariant
    q25 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, 0 <= hour <= 999999, hour as int == numv(buffer@, q25, p as int), skipc(3, buffer@, p as int, pend as int) == skipc(3, buffer@, q25, pend as int),
@loop 25 ensures
    p as int == skipc(3, buffer@, q25, pend as int), p > q25,
@loop 25 decreases
    pend - p
@hint loop 26 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 26 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 26 pre
    let ghost q26 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 26 invariant
    q26 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q26, pend as int),
@loop 26 ensures
    p as int == skipc(0, buffer@, q26, pend as int),
@loop 26 decreases
    pend - p
@hint loop 27 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 27 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 27 pre
    let ghost q27 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 27 invariant
    q27 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q27, pend as int),
@loop 27 ensures
    p as int == skipc(0, buffer@, q27, pend as int),
@loop 27 decreases
    pend - p
@hint loop 28 begin
    proof { lemma_skip1(3, buffer@, p as int, pend as int); lemma_num1(buffer@, q28, p as int); }
@hint loop 28 pre
    proof { lemma_num1(buffer@, p as int, p as int); }
@hint loop 28 exit
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@hint loop 28 pre
    let ghost q28 = p as int;
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@loop 28 xinvariant
    p < pend, isc(3, buffer@[p as int]),
@loop 28 invariant
    q28 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, 0 <= minute <= 999999, minute as int == numv(buffer@, q28, p as int), skipc(3, buffer@, p as int, pend as int) == skipc(3, buffer@, q28, pend as int),
@loop 28 ensures
    p as int == skipc(3, buffer@, q28, pend as int), p > q28,
@loop 28 decreases
    pend - p
@hint loop 29 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 29 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 29 pre
    let ghost q29 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 29 invariant
    q29 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q29, pend as int),
@loop 29 ensures
    p as int == skipc(0, buffer@, q29, pend as int),
@loop 29 decreases
    pend - p
@hint loop 30 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 30 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 30 pre
    let ghost q30 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 30 invariant
    q30 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q30, pend as int),
@loop 30 ensures
    p as int == skipc(0, buffer@, q30, pend as int),
@loop 30 decreases
    pend - p
@hint loop 31 begin
    proof { lemma_skip1(3, buffer@, p as int, pend as int); lemma_num1(buffer@, q31, p as int); }
@hint loop 31 pre
    proof { lemma_num1(buffer@, p as int, p as int); }
@hint loop 31 exit
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@hint loop 31 pre
    let ghost q31 = p as int;
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@loop 31 xinvariant
    p < pend, isc(3, buffer@[p as int]),
@loop 31 invariant
    q31 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, 0 <= second <= 999999, second as int == numv(buffer@, q31, p as int), skipc(3, buffer@, p as int, pend as int) == skipc(3, buffer@, q31, pend as int),
@loop 31 ensures
    p as int == skipc(3, buffer@, q31, pend as int), p > q31,
@loop 31 decreases
    pend - p
@hint loop 32 begin
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 32 exit
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 32 pre
    let ghost q32 = p as int;
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@loop 32 invariant
    q32 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(4, buffer@, p as int, pend as int) == skipc(4, buffer@, q32, pend as int),
@loop 32 ensures
    p as int == skipc(4, buffer@, q32, pend as int),
@loop 32 decreases
    pend - p
@hint loop 33 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 33 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 33 pre
    let ghost q33 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 33 invariant
    q33 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q33, pend as int),
@loop 33 ensures
    p as int == skipc(0, buffer@, q33, pend as int),
@loop 33 decreases
    pend - p
@hint loop 34 begin
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 34 exit
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@hint loop 34 pre
    let ghost q34 = p as int;
    proof { lemma_skip1(4, buffer@, p as int, pend as int); }
@loop 34 invariant
    q34 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(4, buffer@, p as int, pend as int) == skipc(4, buffer@, q34, pend as int),
@loop 34 ensures
    p as int == skipc(4, buffer@, q34, pend as int),
@loop 34 decreases
    pend - p
@hint loop 35 begin
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 35 exit
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@hint loop 35 pre
    let ghost q35 = p as int;
    proof { lemma_skip1(0, buffer@, p as int, pend as int); }
@loop 35 invariant
    q35 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, skipc(0, buffer@, p as int, pend as int) == skipc(0, buffer@, q35, pend as int),
@loop 35 ensures
    p as int == skipc(0, buffer@, q35, pend as int),
@loop 35 decreases
    pend - p
@hint loop 36 begin
    proof { lemma_skip1(3, buffer@, p as int, pend as int); lemma_num1(buffer@, q36, p as int); }
@hint loop 36 pre
    proof { lemma_num1(buffer@, p as int, p as int); }
@hint loop 36 exit
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@hint loop 36 pre
    let ghost q36 = p as int;
    proof { lemma_skip1(3, buffer@, p as int, pend as int); }
@loop 36 xinvariant
    p < pend, isc(3, buffer@[p as int]),
@loop 36 invariant
    q36 <= p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, 0 <= offset <= 999999, offset as int == numv(buffer@, q36, p as int), skipc(3, buffer@, p as int, pend as int) == skipc(3, buffer@, q36, pend as int),
@loop 36 ensures
    p as int == skipc(3, buffer@, q36, pend as int), p > q36,
@loop 36 decreases
    pend - p
@hint loop 37 begin
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@hint loop 37 exit
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@hint loop 37 pre
    let ghost q37 = p as int;
    proof { lemma_skip1(1, buffer@, p as int, pend as int); }
@loop 37 xinvariant
    zoneLength < 3, p < pend,
@loop 37 invariant
    p <= pend <= buffer.len() < 0x7fff_ffff_ffff_ffff, 0 <= zoneLength <= 3, p == q37 + zoneLength, zone.len() == 4, forall|k: int| 0 <= k < zoneLength ==> #[trigger] zone[k] as int == c2(buffer@[q37 + k]), forall|k: int| zoneLength <= k < 4 ==> #[trigger] zone[k] == 0,
@loop 37 ensures
    zoneLength == 3 || p == pend, zoneLength >= 1,
@loop 37 decreases
    pend - p
@fn vmime::datetime::generateImpl as dt_generate
@throws
@outptr newLinePos
@requires
    dt_ok(*this), sec_ok(*this), 1 <= this.m_year <= 100_000_000, -1_000_000 <= this.m_zone <= 1_000_000,
@ensures
    res is Ok, final(os).data() == old(os).data() + gen(*this),
@source src/vmime/utility/datetimeUtils.cpp
@fn vmime::utility::datetimeUtils::isLeapYear as du_leap
@ensures
    res == leap(year as int),
@hint start
    proof { lemma_trem(year as int); }
@fn vmime::utility::datetimeUtils::getDaysInMonth as du_dim
@throws
@ensures
    1 <= month <= 12 ==> res is Ok && res->Ok_0 as int == dim(year as int, month as int),
    !(1 <= month <= 12) ==> res is Err,
@fn vmime::utility::datetimeUtils::getDayOfWeek as du_dow
@throws
@requires
    1 <= year <= 100_000_000, 
@ensures
    okdate(year as int, month as int, day as int) ==> res is Ok && res->Ok_0 as int == dow(year as int, month as int, day as int),
    !okdate(year as int, month as int, day as int) ==> res is Err,
@hint before ~let mut cent~
    let ghost yy = y as int;
    proof { if okdate(year as int, month as int, day as int) { lemma_zeller(year as int, month as int, day as int, y as int, m as int); } }
@hint before ~return Ok.srem~
    assert(y >> 2 == y / 4) by (bit_vector) requires 0 <= y <= 99;
    assert(cent >> 2 == cent / 4) by (bit_vector) requires cent >= 0;
@rustpost
// reading the text generated for a date gives the date, whatever the object held before
pub fn property_roundtrip(d: &Dt, any: Dt, buf: &Vec<u8>) -> (r: Dt)
    requires dt_ok(*d), sec_ok(*d), -5999 <= d.m_zone <= 5999, 1000 <= d.m_year <= 999_999, buf@ == gen(*d), buf.len() < 0x7fff_ffff_ffff_ffff
    ensures r == *d
{
    let mut r = any;
    let mut np: usize = 0;
    proof { lemma_gen(*d); }
    let x = dt_parse(&mut r, buf, 0usize, buf.len(), &mut np, Ghost(*d));
    r
}
