@unit dtarith
@exc out_of_range
@source src/vmime/dateTime.cpp
@struct vmime::datetime as Dt
@rust
pub fn clone_Dt(d: &Dt) -> (r: Dt) ensures r == *d { Dt { m_year: d.m_year, m_month: d.m_month, m_day: d.m_day, m_hour: d.m_hour, m_minute: d.m_minute, m_second: d.m_second, m_zone: d.m_zone } }
// ---- the Gregorian calendar
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn dim(y: int, m: int) -> int { if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else if m == 2 { if leap(y) { 29 } else { 28 } } else { 31 } }
pub open spec fn okdate(y: int, m: int, d: int) -> bool { 1 <= m <= 12 && 1 <= d <= dim(y, m) }
// days before year y, days before month m of year y, day number
#[verifier::opaque]
pub open spec fn dby(y: int) -> int { 365 * (y - 1) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 }
pub open spec fn dbm(y: int, m: int) -> int decreases m { if m <= 1 { 0 } else { dbm(y, m - 1) + dim(y, m - 1) } }
pub open spec fn absday(y: int, m: int, d: int) -> int { dby(y) + dbm(y, m) + d }
pub open spec fn dday(d: Dt) -> int { absday(d.m_year as int, d.m_month as int, d.m_day as int) }
// minutes of universal time
pub open spec fn mins(d: Dt) -> int { (dday(d) * 24 + d.m_hour) * 60 + d.m_minute - d.m_zone }
pub open spec fn dt_ok(d: Dt) -> bool { okdate(d.m_year as int, d.m_month as int, d.m_day as int) && 0 <= d.m_hour <= 23 && 0 <= d.m_minute <= 59 }
pub open spec fn yr(d: Dt) -> bool { -1_000_000_000 < d.m_year < 1_000_000_000 }
pub open spec fn near(a: Dt, b: Dt, k: int) -> bool { a.m_year - k <= b.m_year <= a.m_year + k }
pub open spec fn yr0(d: Dt, k: int) -> bool { -900_000_000 - k < d.m_year < 900_000_000 + k }
pub proof fn lemma_trem(y: int) ensures (trem(y, 4) == 0) == (y % 4 == 0), (trem(y, 100) == 0) == (y % 100 == 0), (trem(y, 400) == 0) == (y % 400 == 0) {}
pub proof fn lemma_dbm(y: int)
    ensures dbm(y, 1) == 0, dbm(y, 2) == 31, dbm(y, 3) == 59 + dbm(y, 13) - 365, dbm(y, 4) == 90 + dbm(y, 13) - 365, dbm(y, 5) == 120 + dbm(y, 13) - 365, dbm(y, 6) == 151 + dbm(y, 13) - 365, dbm(y, 7) == 181 + dbm(y, 13) - 365,
        dbm(y, 8) == 212 + dbm(y, 13) - 365, dbm(y, 9) == 243 + dbm(y, 13) - 365, dbm(y, 10) == 273 + dbm(y, 13) - 365, dbm(y, 11) == 304 + dbm(y, 13) - 365, dbm(y, 12) == 334 + dbm(y, 13) - 365, dbm(y, 13) == (if leap(y) { 366int } else { 365int })
{ reveal_with_fuel(dbm, 14); }
#[verifier::spinoff_prover] #[verifier::rlimit(100)]
pub proof fn lemma_dby(y: int) ensures dby(y + 1) == dby(y) + (if leap(y) { 366int } else { 365int })
{
    reveal(dby); let n = y - 1;
    assert((n + 1) / 4 - n / 4 == if (n + 1) % 4 == 0 { 1int } else { 0int });
    assert((n + 1) / 100 - n / 100 == if (n + 1) % 100 == 0 { 1int } else { 0int });
    assert((n + 1) / 400 - n / 400 == if (n + 1) % 400 == 0 { 1int } else { 0int });
    assert(y % 400 == 0 ==> y % 100 == 0); assert(y % 100 == 0 ==> y % 4 == 0);
}
// two dates with the same day number are the same date; later dates have larger numbers
pub proof fn lemma_dby_mono(y: int, z: int) requires y < z ensures dby(z) >= dby(y) + 365 decreases z - y { lemma_dby(z - 1); if y < z - 1 { lemma_dby_mono(y, z - 1); } }
pub proof fn lemma_order(y: int, m: int, d: int, y2: int, m2: int, d2: int)
    requires okdate(y, m, d), okdate(y2, m2, d2)
    ensures absday(y, m, d) < absday(y2, m2, d2) <==> (y < y2 || (y == y2 && (m < m2 || (m == m2 && d < d2)))), absday(y, m, d) == absday(y2, m2, d2) <==> (y == y2 && m == m2 && d == d2)
{
    lemma_dbm(y); lemma_dbm(y2);
    if y < y2 { if y + 1 < y2 { lemma_dby_mono(y + 1, y2); } lemma_dby(y); }
    if y2 < y { if y2 + 1 < y { lemma_dby_mono(y2 + 1, y); } lemma_dby(y2); }
}
pub open spec fn secs(d: Dt) -> int { mins(d) * 60 + d.m_second }
pub open spec fn sec_ok(d: Dt) -> bool { 0 <= d.m_second <= 59 }
pub open spec fn zone_ok(z: int) -> bool { -1_000_000 <= z <= 1_000_000 }
pub open spec fn dt_lt(a: Dt, b: Dt) -> bool { a.m_year < b.m_year || (a.m_year == b.m_year && (a.m_month < b.m_month || (a.m_month == b.m_month && (a.m_day < b.m_day || (a.m_day == b.m_day && (a.m_hour < b.m_hour || (a.m_hour == b.m_hour && (a.m_minute < b.m_minute || (a.m_minute == b.m_minute && a.m_second < b.m_second))))))))) }
pub open spec fn dt_same(a: Dt, b: Dt) -> bool { a.m_year == b.m_year && a.m_month == b.m_month && a.m_day == b.m_day && a.m_hour == b.m_hour && a.m_minute == b.m_minute && a.m_second == b.m_second }
pub proof fn lemma_cmp(a: Dt, b: Dt)
    requires dt_ok(a), dt_ok(b), sec_ok(a), sec_ok(b), a.m_zone == 0, b.m_zone == 0
    ensures dt_lt(a, b) == (secs(a) < secs(b)), dt_same(a, b) == (secs(a) == secs(b))
{ lemma_order(a.m_year as int, a.m_month as int, a.m_day as int, b.m_year as int, b.m_month as int, b.m_day as int); }
// day of the week, Sunday = 0 (1 January of year 1 was a Monday)
pub open spec fn dow(y: int, m: int, d: int) -> int { absday(y, m, d) % 7 }
// ISO 8601: the week with number w of a year is the one whose Thursday is in days 7w-6 .. 7w of that year
pub open spec fn thursday(y: int, m: int, d: int) -> int { let a = absday(y, m, d); a - (a + 6) % 7 + 3 }
pub open spec fn iso_week(y: int, m: int, d: int) -> int { let t = thursday(y, m, d); let first = if t <= dby(y) { dby(y - 1) } else if t > dby(y + 1) { dby(y + 1) } else { dby(y) }; (t - first - 1) / 7 + 1 }
pub proof fn lemma_jan1(y: int)
    requires y >= 1
    ensures ({ let n = y - 1; ((((n - n % 100) / 100) % 4) * 5 + (n % 100 + (n % 100) / 4)) % 7 == dby(y) % 7 })
{
    reveal(dby); let n = y - 1; let c = n / 100; let r = n % 100; let q = c / 4; let u = c % 4;
    assert(n == 100 * c + r); assert(c == 4 * q + u);
    assert((n - n % 100) / 100 == c);
    assert(n / 4 == 25 * c + r / 4); assert(n / 400 == q);
    assert(dby(y) == 36500 * c + 365 * r + 25 * c + r / 4 - c + q);
    assert(dby(y) == (u * 5 + r + r / 4) + 7 * (5217 * c + 52 * r + 3 * q));
}
#[verifier::spinoff_prover]
pub proof fn lemma_iso(y: int, m: int, d: int, n: int, j: int, w: int)
    requires okdate(y, m, d), n == dbm(y, m) + d, j == 1 + dby(y) % 7, w == 1 + (n + j - 2) % 7
    ensures 1 <= n <= (if leap(y) { 366int } else { 365int }),
        iso_week(y, m, d) == (
            if n <= 8 - j && j > 4 { if j == 5 || (j == 6 && leap(y - 1)) { 53int } else { 52int } }
            else if (if leap(y) { 366int } else { 365int }) - n < 4 - w { 1int }
            else { (n + (7 - w) + (j - 1)) / 7 - (if j > 4 { 1int } else { 0int }) })
{
    lemma_dbm(y); lemma_dby(y); lemma_dby(y - 1);
    let b = dby(y); let a = absday(y, m, d); let lp = if leap(y - 1) { 366int } else { 365int }; let l = if leap(y) { 366int } else { 365int };
    assert(a == b + n);
    assert(1 <= n <= l);
    let k = j - 1; let q = b / 7; assert(b == 7 * q + k);
    assert((a + 6) % 7 == w - 1) by { assert(a + 6 == 7 * (q + 1) + (n + k - 1)); }
    assert(thursday(y, m, d) == b + n - w + 4);
    lemma_iso_num(n, l, lp, j, w);
}
#[verifier::spinoff_prover]
pub proof fn lemma_iso_num(n: int, l: int, lp: int, j: int, w: int)
    requires 1 <= n <= l, 365 <= l <= 366, 365 <= lp <= 366, 1 <= j <= 7, w == 1 + (n + j - 2) % 7
    ensures
        (n - w + 4 <= 0) == (n <= 8 - j && j > 4),
        n - w + 4 <= 0 ==> (n - w + 4 + lp - 1) / 7 + 1 == (if j == 5 || (j == 6 && lp == 366) { 53int } else { 52int }),
        (n - w + 4 > l) == (l - n < 4 - w),
        n - w + 4 > l ==> (n - w + 4 - l - 1) / 7 + 1 == 1,
        0 < n - w + 4 <= l ==> (n - w + 4 - 1) / 7 + 1 == (n + (7 - w) + (j - 1)) / 7 - (if j > 4 { 1int } else { 0int })
{
    let t = n + j - 2; let q = t / 7; let w0 = t % 7; assert(t == 7 * q + w0);
    assert(n - w == 7 * q - j + 1);
    if j == 1 {} else if j == 2 {} else if j == 3 {} else if j == 4 {} else if j == 5 {} else if j == 6 {} else {}
}
pub proof fn lemma_zeller(y: int, m: int, d: int, yy: int, mm: int)
    requires 1 <= m <= 12, y >= 1, mm == (if m <= 2 { m + 10 } else { m - 2 }), yy == (if m <= 2 { y - 1 } else { y })
    ensures ((26 * mm - 2) / 10 + d + yy % 100 + (yy % 100) / 4 + (yy / 100) / 4 + 5 * (yy / 100)) % 7 == dow(y, m, d)
{
    reveal(dby); lemma_dbm(y);
    let c = yy / 100; let r = yy % 100;
    assert(yy == 100 * c + r);
    assert(yy / 4 == 25 * c + r / 4);
    assert(yy / 400 == c / 4);
    assert(365 * yy == 364 * yy + 100 * c + r);
    let x = (26 * mm - 2) / 10 + d + r + r / 4 + c / 4 + 5 * c;
    // days up to the end of February of year yy, plus the days since
    let e = 365 * yy + yy / 4 - c + yy / 400;
    lemma_dby(y);
    if m <= 2 { assert(dby(y) == e); } else { assert(dby(y + 1) == e); assert(dby(y) + dbm(y, 13) == e); }
    assert(absday(y, m, d) - x == 364 * yy + 100 * c + 25 * c - c - 5 * c + ((absday(y, m, d) - e) - (26 * mm - 2) / 10 - d));
    assert(119 * c == 7 * (17 * c));
    let k = (absday(y, m, d) - e) - (26 * mm - 2) / 10 - d;
    assert(k % 7 == 0) by {
        if m == 1 {} else if m == 2 {} else if m == 3 {} else if m == 4 {} else if m == 5 {} else if m == 6 {} else if m == 7 {} else if m == 8 {} else if m == 9 {} else if m == 10 {} else if m == 11 {} else {}
    }
    assert(absday(y, m, d) == x + 7 * (52 * yy + 17 * c) + k);
}

@fn vmime::datetime::datetime ~const datetime &~ as dt_copy
@ensures
    res == *d,
@fn vmime::datetime::getYear as dt_getYear
@ensures
    res == this.m_year,
@fn vmime::datetime::getMonth as dt_getMonth
@ensures
    res == this.m_month,
@fn vmime::datetime::getDay as dt_getDay
@ensures
    res == this.m_day,
@fn vmime::datetime::getHour as dt_getHour
@ensures
    res == this.m_hour,
@fn vmime::datetime::getMinute as dt_getMinute
@ensures
    res == this.m_minute,
@fn vmime::datetime::getSecond as dt_getSecond
@ensures
    res == this.m_second,
@fn vmime::datetime::getZone as dt_getZone
@ensures
    res == this.m_zone,
@fn vmime::datetime::setYear as dt_setYear
@ensures
    *final(this) == (Dt { m_year: year, ..*old(this) }),
@fn vmime::datetime::setMonth as dt_setMonth
@ensures
    *final(this) == (Dt { m_month: if month < 1 { 1 } else if month > 12 { 12 } else { month }, ..*old(this) }),
@fn vmime::datetime::setDay as dt_setDay
@ensures
    *final(this) == (Dt { m_day: day, ..*old(this) }),
@fn vmime::datetime::setHour as dt_setHour
@ensures
    *final(this) == (Dt { m_hour: hour, ..*old(this) }),
@fn vmime::datetime::setMinute as dt_setMinute
@ensures
    *final(this) == (Dt { m_minute: minute, ..*old(this) }),
@fn vmime::datetime::setZone as dt_setZone
@ensures
    *final(this) == (Dt { m_zone: zone, ..*old(this) }),

@source src/vmime/utility/datetimeUtils.cpp
@fn vmime::utility::nextMonth as du_nextmonth
@requires
    yr(*old(d)), 1 <= old(d).m_month <= 12,
@ensures
    old(d).m_month < 12 ==> *final(d) == (Dt { m_month: (old(d).m_month + 1) as i32, ..*old(d) }),
    old(d).m_month == 12 ==> *final(d) == (Dt { m_month: 1, m_year: (old(d).m_year + 1) as i32, ..*old(d) }),
@fn vmime::utility::prevMonth as du_prevmonth
@requires
    yr(*old(d)), 1 <= old(d).m_month <= 12,
@ensures
    old(d).m_month > 1 ==> *final(d) == (Dt { m_month: (old(d).m_month - 1) as i32, ..*old(d) }),
    old(d).m_month == 1 ==> *final(d) == (Dt { m_month: 12, m_year: (old(d).m_year - 1) as i32, ..*old(d) }),
@fn vmime::utility::datetimeUtils::isLeapYear as du_leap
@ensures
    res == leap(year as int),
@hint start
    proof { lemma_trem(year as int); }
@fn vmime::utility::datetimeUtils::getDaysInMonth as du_dim
@throws
@ensures
    1 <= month <= 12 ==> res is Ok && res->Ok_0 as int == dim(year as int, month as int),
    !(1 <= month <= 12) ==> res is Err,
@fn vmime::utility::nextDay as du_nextday
@throws
@requires
    yr(*old(d)), okdate(old(d).m_year as int, old(d).m_month as int, old(d).m_day as int),
@ensures
    res is Ok, dday(*final(d)) == dday(*old(d)) + 1, okdate(final(d).m_year as int, final(d).m_month as int, final(d).m_day as int), old(d).m_year - 1 <= final(d).m_year <= old(d).m_year + 1,
    final(d).m_hour == old(d).m_hour, final(d).m_minute == old(d).m_minute, final(d).m_second == old(d).m_second, final(d).m_zone == old(d).m_zone,
@hint start
    proof { lemma_dby(d.m_year as int); lemma_dbm(d.m_year as int); lemma_dbm(d.m_year as int + 1); }
@fn vmime::utility::prevDay as du_prevday
@throws
@requires
    yr(*old(d)), okdate(old(d).m_year as int, old(d).m_month as int, old(d).m_day as int),
@ensures
    res is Ok, dday(*final(d)) == dday(*old(d)) - 1, okdate(final(d).m_year as int, final(d).m_month as int, final(d).m_day as int), old(d).m_year - 1 <= final(d).m_year <= old(d).m_year + 1,
    final(d).m_hour == old(d).m_hour, final(d).m_minute == old(d).m_minute, final(d).m_second == old(d).m_second, final(d).m_zone == old(d).m_zone,
@hint start
    proof { lemma_dby(d.m_year as int - 1); lemma_dbm(d.m_year as int); lemma_dbm(d.m_year as int - 1); }
@fn vmime::utility::nextHour as du_nexthour
@throws
@requires
    yr(*old(d)), okdate(old(d).m_year as int, old(d).m_month as int, old(d).m_day as int), 0 <= old(d).m_hour <= 23,
@ensures
    res is Ok, okdate(final(d).m_year as int, final(d).m_month as int, final(d).m_day as int), 0 <= final(d).m_hour <= 23, dday(*final(d)) * 24 + final(d).m_hour == dday(*old(d)) * 24 + old(d).m_hour + 1, old(d).m_year - 1 <= final(d).m_year <= old(d).m_year + 1,
    final(d).m_minute == old(d).m_minute, final(d).m_second == old(d).m_second, final(d).m_zone == old(d).m_zone,
@fn vmime::utility::prevHour as du_prevhour
@throws
@requires
    yr(*old(d)), okdate(old(d).m_year as int, old(d).m_month as int, old(d).m_day as int), 0 <= old(d).m_hour <= 23,
@ensures
    res is Ok, okdate(final(d).m_year as int, final(d).m_month as int, final(d).m_day as int), 0 <= final(d).m_hour <= 23, dday(*final(d)) * 24 + final(d).m_hour == dday(*old(d)) * 24 + old(d).m_hour - 1, old(d).m_year - 1 <= final(d).m_year <= old(d).m_year + 1,
    final(d).m_minute == old(d).m_minute, final(d).m_second == old(d).m_second, final(d).m_zone == old(d).m_zone,
@fn vmime::utility::addHoursAndMinutes as du_add
@throws
@requires
    yr0(*old(d), 0), dt_ok(*old(d)), 0 <= h <= 20_000_000, 0 <= m <= 59,
@ensures
    res is Ok, dt_ok(*final(d)), mins(*final(d)) == mins(*old(d)) + h * 60 + m, final(d).m_second == old(d).m_second, final(d).m_zone == old(d).m_zone, near(*old(d), *final(d), 1_000_000),
@loop 1 invariant
    okdate(d.m_year as int, d.m_month as int, d.m_day as int), 0 <= d.m_hour <= 20_000_023, 0 <= d.m_minute <= 59, mins(*d) == mins(d0) + h * 60 + m, d.m_second == d0.m_second, d.m_zone == d0.m_zone,
    near(d0, *d, 1_000_000 - d.m_hour / 24),
@loop 1 decreases
    d.m_hour
@hint start
    let ghost d0 = *d;
@fn vmime::utility::substractHoursAndMinutes as du_sub
@throws
@requires
    yr0(*old(d), 0), dt_ok(*old(d)), 0 <= h <= 20_000_000, 0 <= m <= 59,
@ensures
    res is Ok, dt_ok(*final(d)), mins(*final(d)) == mins(*old(d)) - h * 60 - m, final(d).m_second == old(d).m_second, final(d).m_zone == old(d).m_zone, near(*old(d), *final(d), 1_000_000),
@loop 1 invariant
    okdate(d.m_year as int, d.m_month as int, d.m_day as int), -20_000_001 <= d.m_hour <= 23, 0 <= d.m_minute <= 59, mins(*d) == mins(d0) - h * 60 - m, d.m_second == d0.m_second, d.m_zone == d0.m_zone,
    near(d0, *d, 1_000_000 - (23 - d.m_hour) / 24),
@loop 1 decreases
    24 - d.m_hour
@hint start
    let ghost d0 = *d;
@fn vmime::utility::datetimeUtils::toUniversalTime as du_utc
@throws
@requires
    yr0(*date, 0), dt_ok(*date), zone_ok(date.m_zone as int),
@ensures
    res is Ok, dt_ok(res->Ok_0), res->Ok_0.m_zone == 0, secs(res->Ok_0) == secs(*date), res->Ok_0.m_second == date.m_second, near(*date, res->Ok_0, 1_000_000),
@fn vmime::utility::datetimeUtils::toLocalTime as du_local
@throws
@requires
    yr0(*date, -2_000_000), dt_ok(*date), zone_ok(date.m_zone as int), zone_ok(zone as int),
@ensures
    res is Ok, dt_ok(res->Ok_0), res->Ok_0.m_zone == zone, secs(res->Ok_0) == secs(*date), res->Ok_0.m_second == date.m_second,
@fn vmime::utility::datetimeUtils::getDayOfWeek as du_dow
@throws
@requires
    1 <= year <= 100_000_000, 
@ensures
    okdate(year as int, month as int, day as int) ==> res is Ok && res->Ok_0 as int == dow(year as int, month as int, day as int),
    !okdate(year as int, month as int, day as int) ==> res is Err,
@hint before ~let mut cent~
    let ghost yy = y as int;
    proof { if okdate(year as int, month as int, day as int) { lemma_zeller(year as int, month as int, day as int, y as int, m as int); } }
@hint before ~return Ok.srem~
    assert(y >> 2 == y / 4) by (bit_vector) requires 0 <= y <= 99;
    assert(cent >> 2 == cent / 4) by (bit_vector) requires cent >= 0;
@fn vmime::utility::datetimeUtils::getWeekOfYear as du_week
@requires
    1 <= year <= 100_000_000, okdate(year as int, month as int, day as int),
@ensures
    iso ==> res as int == iso_week(year as int, month as int, day as int),
    !iso ==> res as int == (if month == 12 && iso_week(year as int, month as int, day as int) == 1 { 53 } else { iso_week(year as int, month as int, day as int) }),
@hint start
    proof { lemma_trem(year as int); lemma_trem(year as int - 1); lemma_dbm(year as int); lemma_dby(year as int); lemma_dby(year as int - 1); lemma_jan1(year as int); }
@hint before ~let mut YY~
    assert(DayOfYearNumber as int == dbm(year as int, month as int) + day);
    assert(leapYear == leap(year as int) && leapYear_1 == leap(year as int - 1));
@hint before ~let mut H~
    assert(Jan1Weekday as int == 1 + dby(year as int) % 7);
@hint before ~let mut YearNumber~
    proof { lemma_iso(year as int, month as int, day as int, DayOfYearNumber as int, Jan1Weekday as int, Weekday as int); }
@source src/vmime/dateTime.cpp
@fn vmime::datetime::operator== as dt_op_eq
@throws
@requires
    yr0(*this, 0), dt_ok(*this), sec_ok(*this), zone_ok(this.m_zone as int), yr0(*other, 0), dt_ok(*other), sec_ok(*other), zone_ok(other.m_zone as int),
@ensures
    res is Ok, res->Ok_0 == (secs(*this) == secs(*other)),
@hint end
    proof { lemma_cmp(ut1, ut2); lemma_cmp(ut2, ut1); }
@fn vmime::datetime::operator!= as dt_op_ne
@throws
@requires
    yr0(*this, 0), dt_ok(*this), sec_ok(*this), zone_ok(this.m_zone as int), yr0(*other, 0), dt_ok(*other), sec_ok(*other), zone_ok(other.m_zone as int),
@ensures
    res is Ok, res->Ok_0 == (secs(*this) != secs(*other)),
@hint end
    proof { lemma_cmp(ut1, ut2); lemma_cmp(ut2, ut1); }
@fn vmime::datetime::operator< as dt_op_lt
@throws
@requires
    yr0(*this, 0), dt_ok(*this), sec_ok(*this), zone_ok(this.m_zone as int), yr0(*other, 0), dt_ok(*other), sec_ok(*other), zone_ok(other.m_zone as int),
@ensures
    res is Ok, res->Ok_0 == (secs(*this) < secs(*other)),
@hint end
    proof { lemma_cmp(ut1, ut2); lemma_cmp(ut2, ut1); }
@fn vmime::datetime::operator<= as dt_op_le
@throws
@requires
    yr0(*this, 0), dt_ok(*this), sec_ok(*this), zone_ok(this.m_zone as int), yr0(*other, 0), dt_ok(*other), sec_ok(*other), zone_ok(other.m_zone as int),
@ensures
    res is Ok, res->Ok_0 == (secs(*this) <= secs(*other)),
@hint end
    proof { lemma_cmp(ut1, ut2); lemma_cmp(ut2, ut1); }
@fn vmime::datetime::operator> as dt_op_gt
@throws
@requires
    yr0(*this, 0), dt_ok(*this), sec_ok(*this), zone_ok(this.m_zone as int), yr0(*other, 0), dt_ok(*other), sec_ok(*other), zone_ok(other.m_zone as int),
@ensures
    res is Ok, res->Ok_0 == (secs(*this) > secs(*other)),
@hint end
    proof { lemma_cmp(ut1, ut2); lemma_cmp(ut2, ut1); }
@fn vmime::datetime::operator>= as dt_op_ge
@throws
@requires
    yr0(*this, 0), dt_ok(*this), sec_ok(*this), zone_ok(this.m_zone as int), yr0(*other, 0), dt_ok(*other), sec_ok(*other), zone_ok(other.m_zone as int),
@ensures
    res is Ok, res->Ok_0 == (secs(*this) >= secs(*other)),
@hint end
    proof { lemma_cmp(ut1, ut2); lemma_cmp(ut2, ut1); }
@fn vmime::datetime::getWeekDay as dt_getWeekDay
@throws
@requires
    1 <= this.m_year <= 100_000_000, okdate(this.m_year as int, this.m_month as int, this.m_day as int),
@ensures
    res is Ok, res->Ok_0 as int == dow(this.m_year as int, this.m_month as int, this.m_day as int),
@fn vmime::datetime::getWeek as dt_getWeek
@requires
    1 <= this.m_year <= 100_000_000, okdate(this.m_year as int, this.m_month as int, this.m_day as int),
@ensures
    res as int == (if this.m_month == 12 && iso_week(this.m_year as int, this.m_month as int, this.m_day as int) == 1 { 53 } else { iso_week(this.m_year as int, this.m_month as int, this.m_day as int) }),
