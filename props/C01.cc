// C01: the proleptic Gregorian calendar behind eckit::Date
//@ tus: types/Date.cc exception/Exceptions.cc
#include "vc.h"
#include "eckit/types/Date.h"
#include "eckit/exception/Exceptions.h"
using eckit::Date;

static bool leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static long mdays(long y, long m) {
    if (m == 2) return leap(y) ? 29 : 28;
    if (m == 4 || m == 6 || m == 9 || m == 11) return 30;
    return 31;
}
static const long JMIN = 1757585, JMAX = 5373484;  // 100-01-01 .. 9999-12-31

//@ harness successor: time=120
VC_HARNESS(successor) {
    vc_option("intlift", 1);
    long y = vc_irange(100, 9999, "year"), m = vc_irange(1, 12, "month"), d = vc_irange(1, 31, "day");
    vc_assume(d <= mdays(y, m));
    long y2 = y, m2 = m, d2 = d + 1;
    if (d2 > mdays(y, m)) { d2 = 1; m2++; if (m2 > 12) { m2 = 1; y2++; } }
    long j = Date::dateToJulian(y * 10000 + m * 100 + d);
    long j2 = Date::dateToJulian(y2 * 10000 + m2 * 100 + d2);
    vc_check(j2 == j + 1, "next calendar day has the next julian number");
}
VC_HARNESS(inverse) {
    vc_option("intlift", 1);
    long j = vc_irange(JMIN, JMAX, "julian");
    long ymd = Date::julianToDate(j);
    long y = ymd / 10000, m = (ymd / 100) % 100, d = ymd % 100;
    vc_check(y >= 100 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m), "every julian number names a valid calendar date");
    vc_check(Date::dateToJulian(ymd) == j, "dateToJulian inverts julianToDate");
}
VC_HARNESS(monotone) {
    vc_option("intlift", 1);
    long y = vc_irange(100, 9999, "year"), m = vc_irange(1, 12, "month"), d = vc_irange(1, 31, "day");
    long y2 = vc_irange(100, 9999, "year2"), m2 = vc_irange(1, 12, "month2"), d2 = vc_irange(1, 31, "day2");
    vc_assume(d <= mdays(y, m) && d2 <= mdays(y2, m2));
    long a = y * 10000 + m * 100 + d, b = y2 * 10000 + m2 * 100 + d2;
    vc_assume(a < b);
    vc_check(Date::dateToJulian(a) < Date::dateToJulian(b), "later date has larger julian number");
}
VC_HARNESS(epoch) {
    vc_check(Date::dateToJulian(20000101) == 2451545, "2000-01-01 is julian day 2451545");
    vc_check(Date::julianToDate(2451545) == 20000101, "julian day 2451545 is 2000-01-01");
    vc_check(Date::dateToJulian(1000101) == JMIN && Date::dateToJulian(99991231) == JMAX, "range of julian day numbers");
}

// contracts of the two conversions, established by `inverse` and `monotone` (a bijection between the valid dates and
// JMIN..JMAX); used by their callers below.  Ghost state remembers the pairs seen.
static long g_n = 0, g_ymd[4], g_j[4];
static bool validymd(long x) { long y = x / 10000, m = (x / 100) % 100, d = x % 100; return y >= 100 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m); }
static long contract_d2j(long ymd) {
    vc_check(ymd >= 1000000, "precondition of dateToJulian: four digit year");
    for (long i = 0; i < g_n; i++) if (g_ymd[i] == ymd) return g_j[i];
    long j = (long)vc_ghost_u64();
    vc_assume(j >= JMIN - 4000 && j <= JMAX + 4000);   // not a valid date: some number
    vc_assume(!validymd(ymd) || (j >= JMIN && j <= JMAX));
    g_ymd[g_n] = ymd; g_j[g_n] = j; g_n++;
    return j;
}
static long contract_j2d(long j) {
    vc_check(j >= JMIN - 4000 && j <= JMAX + 4000, "precondition of julianToDate");
    for (long i = 0; i < g_n; i++) if (g_j[i] == j && validymd(g_ymd[i])) return g_ymd[i];
    long x = (long)vc_ghost_u64();
    vc_assume(x >= 0 && x <= 109991231);
    vc_assume(validymd(x) || j < JMIN || j > JMAX);
    long dd = x % 100, mm = (x / 100) % 100;
    vc_assume(mm >= 1 && mm <= 12 && dd >= 1 && dd <= mdays(x / 10000, mm));
    g_ymd[g_n] = x; g_j[g_n] = j; g_n++;
    return x;
}
// the part of the contract used outside JMIN..JMAX: still a calendar date
VC_HARNESS(inverse_outside) {
    vc_option("intlift", 1);
    long j = vc_irange(JMIN - 4000, JMAX + 4000, "julian");
    vc_assume(j < JMIN || j > JMAX);
    long ymd = Date::julianToDate(j);
    long y = ymd / 10000, m = (ymd / 100) % 100, d = ymd % 100;
    vc_check(ymd >= 0 && ymd <= 109991231 && m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m), "every julian number names a valid calendar date");
}
VC_HARNESS(range_invalid) {
    vc_option("intlift", 1);
    long y = vc_irange(100, 9999, "year"), m = vc_irange(0, 99, "month"), d = vc_irange(0, 99, "day");
    long j = Date::dateToJulian(y * 10000 + m * 100 + d);
    vc_check(j >= JMIN - 4000 && j <= JMAX + 4000, "even a non-existing day maps near the calendar");
}
static void contracts() {
    vc_replace("eckit::Date::dateToJulian", (void*)contract_d2j);
    vc_replace("eckit::Date::julianToDate", (void*)contract_j2d);
}
VC_HARNESS(construct) {
    vc_option("intlift", 1);
    contracts();
    long y = vc_irange(100, 9999, "year"), m = vc_irange(0, 99, "month"), d = vc_irange(0, 99, "day");
    bool valid = m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m);
    bool thrown = false;
    try {
        Date x(y, m, d);
        vc_cover("accepted");
        vc_check(x.yyyymmdd() == y * 10000 + m * 100 + d, "the date reads back");
        vc_check(x.year() == y && x.month() == m && x.day() == d, "the components read back");
    }
    catch (eckit::BadValue&) {
        vc_cover("rejected");
        thrown = true;
    }
    vc_check(thrown == !valid, "exactly the existing days are accepted");
}
VC_HARNESS(from_number) {
    vc_option("intlift", 1);
    contracts();
    long ymd = vc_irange(1000000, 99999999, "yyyymmdd");
    bool thrown = false;
    try {
        Date x(ymd);
        vc_check(x.yyyymmdd() == ymd, "the date reads back");
    }
    catch (eckit::BadValue&) {
        thrown = true;
    }
    vc_check(thrown == !validymd(ymd), "exactly the existing days are accepted");
}
VC_HARNESS(arithmetic) {
    vc_option("intlift", 1);
    long j = vc_irange(JMIN, JMAX, "julian"), k = vc_irange(JMIN, JMAX, "julian2");
    Date a(j, true), b(k, true);
    vc_check(a - b == j - k, "difference is the number of days");
    vc_check((a < b) == (j < k) && (a > b) == (j > k) && (a <= b) == (j <= k) && (a >= b) == (j >= k) && (a == b) == (j == k) && (a != b) == (j != k), "order is chronological");
    Date c(a);
    c += k - j;
    vc_check(c == b && c.julian() == k, "adding days");
    c -= k - j;
    vc_check(c == a, "subtracting days");
    ++c;
    vc_check(c.julian() == j + 1, "increment");
    --c;
    vc_check(c.julian() == j, "decrement");
}
VC_HARNESS(plus) {
    vc_option("intlift", 1);
    contracts();
    long j = vc_irange(JMIN, JMAX, "julian"), n = vc_irange(-3000000, 3000000, "n");
    vc_assume(j + n >= JMIN && j + n <= JMAX);
    Date a(j, true);
    Date b = a + n;
    vc_check(b.julian() == j + n, "date plus n days");
    Date c = n + a;
    vc_check(c == b, "n days plus date");
}
VC_HARNESS(day_of_year) {
    vc_option("intlift", 1);
    long y = vc_irange(100, 9999, "year"), n = vc_irange(1, 366, "day of year");
    vc_assume(n <= (leap(y) ? 366 : 365));
    long j = Date::dateToJulian(y * 10000 + 101);
    long m = vc_irange(1, 12, "month"), d = vc_irange(1, 31, "day");
    vc_assume(d <= mdays(y, m));
    long before = 0;
    for (long k = 1; k < 12; k++) if (k < m) before += mdays(y, k);
    vc_check(Date::dateToJulian(y * 10000 + m * 100 + d) == j + before + d - 1, "days count from the first of january");
}
