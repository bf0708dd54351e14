// C16: dates and times as text
//@ tus: types/Date.cc types/Time.cc types/DateTime.cc utils/Tokenizer.cc exception/Exceptions.cc
//@ assume: strtol and strtod read decimal digits as ISO C says; an ostream writes numbers in decimal, padded to the width set for the next one
#include "vc.h"
#include <cstring>
#include <iomanip>
#include <sstream>
#include <string>
#include "eckit/exception/Exceptions.h"
#include "eckit/types/Date.h"
#include "eckit/types/DateTime.h"
#include "eckit/types/Time.h"
using namespace eckit;
typedef long long ll;
#ifndef VC_NATIVE
extern "C" {
static bool dig(char c) { return (unsigned char)(c - '0') < 10; }
long strtol(const char* s, char** end, int base) {   // (the harnesses give short texts of digits)
    bool minus = *s == '-';
    if (minus) s++;
    long v = 0;
    while (dig(*s)) v = v * 10 + (*s++ - '0');
    if (end) *end = (char*)s;
    long r = vc_ghost_u64();   // (the sum by a name of its own)
    vc_assume(r >= 0 && r <= 99999999);
    vc_assume(r == v);
    return minus ? -r : r;
}
double strtod(const char* s, char** end) {
    long v = 0, scale = 1;
    while (dig(*s)) v = v * 10 + (*s++ - '0');
    if (*s == '.') {
        s++;
        while (dig(*s)) v = v * 10 + (*s++ - '0'), scale *= 10;
    }
    if (end) *end = (char*)s;
    return double(v) / double(scale);
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isdigit(int c) { return dig(c); }
}
#endif
static char text[40];
static int number[8], digits;   // the numbers in the text, one for each letter of the format
// a text of this format: a letter stands for a digit of the number with this letter, anything else for itself
static std::string make(const char* format) {
    digits = 0;
    size_t n = strlen(format);
    for (int i = 0; i < 8; i++) number[i] = 0;
    for (size_t i = 0; i < n; i++) {
        if (format[i] >= 'A' && format[i] <= 'H') {
            int d = vc_range(0, 9, "digit");
            number[format[i] - 'A'] = number[format[i] - 'A'] * 10 + d;
            text[i] = '0' + d;
            digits++;
        }
        else text[i] = format[i];
    }
    text[n] = 0;
    return std::string(text, n);
}
static void timeIs(const std::string& s, bool extended, bool valid, long seconds) {
    try {
        Time t(s, extended);
        vc_check(valid, "a text that is not a time of day is refused");
        vc_check(long(Second(t)) == seconds, "the text is read as the time it says");
    }
    catch (BadTime&) {
        vc_check(!valid, "a text that is a time of day is accepted");
    }
}
static void ofDay(const char* format) {   // A hours, B minutes, C seconds
    std::string s = make(format);
    int *n = number, h = n[0], m = n[1], x = n[2];
    timeIs(s, false, h < 24 && m < 60 && x < 60, h * 3600 + m * 60 + x);
}
//@ harness time_print: time=300
//@ harness date_print: time=300
//@ harness date_day_of_year: time=300
//@ harness time_digits: time=200
//@ harness time_digits6: time=200
static const char* DAY[] = {"A", "AA", "ABB", "AABB", "ABBCC", "AABBCC", "A:B", "A:BB", "AA:BB", "A:BB:CC", "AA:BB:CC"};
VC_HARNESS(time_digits) {
    vc_option("intlift", 1);
    size_t f = vc_split(vc_range(0, 4, "format"), 0, 4);
    ofDay(DAY[f]);
}
VC_HARNESS(time_digits6) {
    vc_option("intlift", 1);
    ofDay(DAY[5]);
}
VC_HARNESS(time_colons) {
    vc_option("intlift", 1);
    size_t f = vc_split(vc_range(6, 10, "format"), 6, 10);
    ofDay(DAY[f]);
}
// D days, A hours, B minutes, C seconds
static long total() { return number[3] * 86400 + number[0] * 3600 + number[1] * 60 + number[2]; }
static void units(const char* format) {
    std::string s = make(format);
    long t = total(), signed_ = format[0] == '-' ? -t : t;
    timeIs(s, false, signed_ >= 0 && signed_ < 86400, signed_);
    timeIs(s, true, true, signed_);
}
static const char* UNITS[] = {"AAh", "BBm", "CCs", "AhBm", "AhBmCs", "BmCs", "AhCs", "DdAh", "DDdBBm", "Dd", "-AAh", "-AhBBm", "-DdCs", "-Ah"};
VC_HARNESS(time_units) {
    vc_option("intlift", 1);
    size_t f = vc_split(vc_range(0, 6, "format"), 0, 6);
    units(UNITS[f]);
}
VC_HARNESS(time_units_days) {
    vc_option("intlift", 1);
    size_t f = vc_split(vc_range(7, 13, "format"), 7, 13);
    units(UNITS[f]);
}
VC_HARNESS(time_steps) {   // in extended form digits alone are hours, possibly negative
    vc_option("intlift", 1);
    static const char* STEPS[] = {"A", "AA", "AAA", "AAAA", "AAAAAA", "-A", "-AAA"};
    size_t f = vc_split(vc_range(0, 6, "format"), 0, 6);
    std::string s = make(STEPS[f]);
    timeIs(s, true, true, (s[0] == '-' ? -3600 : 3600) * long(number[0]));
}
VC_HARNESS(time_minus) {   // a time of day is not negative
    vc_option("intlift", 1);
    static const char* F[] = {"-A", "-AA", "-ABB", "-AABB", "-AABBCC", "-A:BB", "-AA:BB", "-AA:BB:CC"};
    size_t f = vc_split(vc_range(0, 7, "format"), 0, 7);
    std::string s = make(F[f]);
    vc_assume(number[0] > 0 || number[1] > 0 || number[2] > 0);
    vc_check(VC_THROWS(Time{s}), "a negative time of day is refused");
    if (f >= 5) {
        if (number[1] < 60 && number[2] < 60) timeIs(s, true, true, -total());
        else vc_check(VC_THROWS(Time(s, true)), "more than 59 minutes or seconds after a colon are refused");
    }
}
VC_HARNESS(time_garbage) {
    static const char* F[] = {"AA", "AABB", "AABBCC", "AA:BB", "AA:BB:CC", "AAhBBm"};
    size_t f = vc_split(vc_range(0, 5, "format"), 0, 5);
    std::string s = make(F[f]);
    size_t at = vc_split(vc_range(0, s.size() - 1, "place"), 0, s.size() - 1);
    char c = vc_u8("character");
    char l = c | 32;
    vc_assume(c < '0' || c > '9');
    vc_assume(c != ':' && c != '.' && l != 'd' && l != 'h' && l != 'm' && l != 's' && (at > 0 || c != '-'));
    s[at] = c;
    vc_check(VC_THROWS(Time{s}), "a text with anything else in it is refused");
}
VC_HARNESS(time_mixed) {
    static const char* NOT[] = {"1m2h", "1s2m", "1h2d", "1h2h", "1d2d", "1m2m", "1s2s", "1s2h", "1d2h3h", "1:2h", "1h2:3", "1d2:3", "1.5:30", "1.", "1.5.2", "1.5h", "1h1.5", "1:2.5", ":1", "1:2:3:4", "1::2"};
    size_t k = vc_split(vc_range(0, 20, "text"), 0, 20);
    vc_check(VC_THROWS(Time(std::string(NOT[k]), vc_range(0, 1, "extended"))), "texts that mix the formats are refused");
}
// any two or three marks after digits: the text is a time exactly if they are different units, the greater ones first
static void marks(size_t n, const char* from, size_t kinds) {
    static const int unit[] = {86400, 3600, 60, 1};
    static const char UNIT[] = "dhms";
    std::string s;
    long t = 0;
    bool ok = true;
    int last = -1;
    for (size_t i = 0; i < n; i++) {
        int d = vc_range(0, 9, "digit");
        size_t u = vc_split(vc_range(0, kinds - 1, "mark"), 0, kinds - 1);
        s += char('0' + d);
        s += from[u];
        int k = 0;
        while (k < 4 && UNIT[k] != from[u]) k++;
        if (k == 4 || k <= last) ok = false;
        else t += d * unit[k], last = k;
    }
    if (ok) timeIs(s, true, true, t);
    else vc_check(VC_THROWS(Time(s, true)), "texts with units out of order or mixed with other forms are refused");
}
VC_HARNESS(time_marks2) {
    vc_option("intlift", 1);
    marks(2, "dhms.", 5);
}
VC_HARNESS(time_marks3) {
    vc_option("intlift", 1);
    marks(3, "dhms", 4);
}
// ------------------------------------------------------------------ dates
// A year, B month, C day, D day of the year
static void read(const std::string& s, long ymd) {
    vc_check(Date::parse(s) == ymd, "the text is read as the date it says");
}
//@ harness date_digits: time=250
VC_HARNESS(date_digits) {
    vc_option("intlift", 1);
    static const char* F[] = {"AAAABBCC", "AABBCC", "AAAA-BB-CC", "AA-BB-CC"};
    size_t f = vc_split(vc_range(0, 3, "format"), 0, 3);
    std::string s = make(F[f]);
    vc_assume(number[2] > 0);
    read(s, number[0] * 10000l + number[1] * 100 + number[2]);
}
// the calendar itself is C03's: here it says of any day whether it exists, and calls any day number what it likes
static bool leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static long days(long y, long m) { return m == 2 ? (leap(y) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
static bool exists;
static long asked, base, length, inYear, after;   // the day asked for, its number; days in its year; month and day, year of the day counted to
static long century(long ymd) { return ymd <= 999999 ? ymd + 19000000 : ymd; }
static long c_d2j(long ymd) {
    asked = century(ymd);
    return base;
}
static long c_j2d(long j) {
    if (j == base) return exists ? asked : 0;
    vc_check(asked % 10000 == 101, "days of the year are counted from the first of January");
    after = j - base;
    return j < base ? asked - 10000 + 1130 : after < length ? asked - 101 + inYear : asked + 10000;
}
static void calendar(long y, long m, long d) {   // the month, and the day of it or (no month) of the year
    if (vc_symbolic()) {
        base = vc_range(1721060, 5373000, "day number"), length = vc_range(365, 366, "length"), inYear = vc_range(1, 12, "month") * 100 + vc_range(1, 31, "day"), exists = !m || vc_range(0, 1, "exists");
        vc_replace("eckit::Date::dateToJulian", (void*)c_d2j);
        vc_replace("eckit::Date::julianToDate", (void*)c_j2d);
        return;
    }
    exists = m ? m <= 12 && d >= 1 && d <= days(y, m) : true, length = leap(y) ? 366 : 365;
    for (m = 1; m < 12 && d > days(y, m); m++) d -= days(y, m);
    inYear = m * 100 + d;
}
static void parsed(const std::string& s, bool valid, long ymd) {
    try {
        long v = Date::parse(s);
        vc_check(valid, "a day that does not exist is refused");
        vc_check(v == ymd, "the text is read as the date it says");
    }
    catch (BadValue&) {
        vc_check(!valid, "a day that exists is accepted");
    }
}
VC_HARNESS(date_month_day) {
    vc_option("intlift", 1);
    std::string s = make("BB-CC");
    int m = number[1], d = number[2];
    vc_assume(m > 0 && d > 0);
    calendar(2004, m, d);
    parsed(s, exists, 20040000 + m * 100 + d);
}
VC_HARNESS(date_day_of_year) {
    vc_option("intlift", 1);
    std::string s = make(vc_split(vc_range(0, 1, "short"), 0, 1) ? "AA-DDD" : "AAAA-DDD");
    long y = number[0], d = number[3];
    vc_assume(s.size() == 6 || y >= 1000);
    if (s.size() == 6) y += 1900;
    calendar(y, 0, d);
    parsed(s, d >= 1 && d <= length, y * 10000 + (d == 1 ? 101 : inYear));
    if (vc_symbolic()) vc_check(d == 1 || after == d - 1, "the days counted are those before it");
}
static void accepted(const std::string& s, long ymd) {   // (calendar() says whether the day exists)
    try {
        Date d(s);
        vc_check(exists, "a day that does not exist is refused");
        vc_check(d.yyyymmdd() == ymd, "the date is the one the text says");
    }
    catch (BadValue&) {
        vc_check(!exists, "a day that exists is accepted");
    }
}
VC_HARNESS(date_whole) {
    vc_option("intlift", 1);
    static const char* F[] = {"AAAABBCC", "AABBCC", "AAAA-BB-CC", "AA-BB-CC", "BB-CC"};
    size_t f = vc_split(vc_range(0, 4, "format"), 0, 4);
    std::string s = make(F[f]);
    long y = f == 4 ? 2004 : number[0];
    vc_assume(number[1] > 0 && number[2] > 0);
    vc_assume(y >= 100 || f == 1 || f == 3);
    if (y < 100) y += 1900;
    calendar(y, number[1], number[2]);
    accepted(s, y * 10000 + number[1] * 100 + number[2]);
}
VC_HARNESS(date_month) {
    static const char* F[] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
    size_t f = vc_split(vc_range(0, 11, "month"), 0, 11);
    read(F[f], 19000001 + (f + 1) * 100);
    std::string s = F[f];
    size_t at = vc_split(vc_range(0, 2, "place"), 0, 2);
    char c = vc_u8("character");
    vc_assume(c < 'a' || c > 'z');
    s[at] = c;
    vc_check(VC_THROWS(Date{s}), "a text with anything else in it is refused");
}
VC_HARNESS(date_garbage) {
    vc_option("intlift", 1);
    static const char* F[] = {"AAAABBCC", "AABBCC", "AAAA-BB-CC", "AA-BB-CC", "BB-CC", "AAAA-DDD", "AA-DDD"};
    size_t f = vc_split(vc_range(0, 6, "format"), 0, 6);
    std::string s = make(F[f]);
    calendar(1900, 1, 1);
    size_t at = vc_split(vc_range(0, s.size() - 1, "place"), 0, s.size() - 1);
    char c = vc_u8("character");
    vc_assume((c < '0' || c > '9') && c != '-' && c != 0);
    s[at] = c;
    vc_check(VC_THROWS(Date{s}), "a text with anything else in it is refused");
}
VC_HARNESS(date_shape) {
    calendar(1900, 1, 1);
    static const char* NOT[] = {"", "-", "1", "1-1", "2004", "200401", "2004-1-01", "2004-01-1", "204-01-01", "02004-01-01", "2004-001-01", "2004-01-001", "2004--01-01", "-2004-01-01", "2004-01-01-", "01--02", "-01-02", "01-02-", "004-001", "2004-01", "2004-0001", "2004-01-01-01", "20040101-", "-20040101", "-2004011", "2004010", "200401011", "2004-  1-01", "foo", "Jan", "janu"};
    size_t k = vc_split(vc_range(0, 30, "text"), 0, 30);
    if (k == 5) return;
    vc_check(VC_THROWS(Date(std::string(NOT[k]))), "texts of no form are refused");
}
// ------------------------------------------------------------------ printing
static char out[40];     // what was printed
static size_t outN, width;
static char filler;
static void put(char c) {
    if (outN < sizeof(out) - 1) out[outN++] = c;
}
static std::ostream* s_char(std::ostream* s, char c) {
    for (; width > 1; width--) put(filler);
    width = 0;
    put(c);
    return s;
}
static std::ostream* s_text(std::ostream* s, const char* c) {
    width = 0;
    for (; *c; c++) put(*c);
    return s;
}
static std::ostream* s_long(std::ostream* s, long v) {
    bool minus = v < 0;
    if (minus) v = -v;
    size_t n = v < 10 ? 1 : v < 100 ? 2 : v < 1000 ? 3 : v < 10000 ? 4 : 5;
    long sum = 0;
    for (size_t w = n + minus; w < width; w++) put(filler);
    width = 0;
    if (minus) put('-');
    for (size_t i = 0; i < n; i++) {
        long d = vc_ghost_u64();
        vc_assume(d >= 0 && d < 10);
        sum = sum * 10 + d;
        put('0' + d);
    }
    vc_assume(sum == v);
    return s;
}
static std::ostream* s_width(std::ostream* s, std::_Setw w) {
    width = w._M_n;
    return s;
}
static std::ostream* s_fill(std::ostream* s, std::_Setfill<char> c) {
    filler = c._M_c;
    return s;
}
struct PrintDate : Date {
    static void of(const Date& d, std::ostream& s) { (d.*&PrintDate::print)(s); }
};
struct PrintTime : Time {
    static void of(const Time& d, std::ostream& s) { (d.*&PrintTime::print)(s); }
};
struct PrintBoth : DateTime {
    static void of(const DateTime& d, std::ostream& s) { (d.*&PrintBoth::print)(s); }
};
static std::ostream* s_date(std::ostream* s, const Date* d) {
    PrintDate::of(*d, *s);
    return s;
}
static std::ostream* s_time(std::ostream* s, const Time* d) {
    PrintTime::of(*d, *s);
    return s;
}
template <class P, class T>
static std::string printed(const T& t) {
    outN = width = 0, filler = ' ';
    if (!vc_symbolic()) {
        std::ostringstream s;
        P::of(t, s);
        return s.str();
    }
    vc_replace("std::ostream::operator<<(long)", (void*)s_long);
    vc_replace("std::basic_ostream<char, std::char_traits<char>>& std::operator<<<std::char_traits<char>>(std::basic_ostream<char, std::char_traits<char>>&, char)", (void*)s_char);
    vc_replace("std::basic_ostream<char, std::char_traits<char>>& std::operator<<<std::char_traits<char>>(std::basic_ostream<char, std::char_traits<char>>&, char const*)", (void*)s_text);
    vc_replace("std::basic_ostream<char, std::char_traits<char>>& std::operator<<<char, std::char_traits<char>>(std::basic_ostream<char, std::char_traits<char>>&, std::_Setw)", (void*)s_width);
    vc_replace("std::basic_ostream<char, std::char_traits<char>>& std::operator<<<char, std::char_traits<char>>(std::basic_ostream<char, std::char_traits<char>>&, std::_Setfill<char>)", (void*)s_fill);
    vc_replace("eckit::operator<<(std::ostream&, eckit::Date const&)", (void*)s_date);
    vc_replace("eckit::operator<<(std::ostream&, eckit::Time const&)", (void*)s_time);
    static long stream[64], table[4] = {8};   // (the virtual base is 8 bytes on)
    stream[0] = (long)&table[3];
    P::of(t, *(std::ostream*)stream);
    return std::string(out, outN);
}
static bool two(const char* p, long v) { return p[0] >= '0' && p[0] <= '9' && p[1] >= '0' && p[1] <= '9' && (p[0] - '0') * 10 + (p[1] - '0') == v; }
static bool four(const char* p, long v) { return p[0] >= '1' && p[0] <= '9' && p[1] >= '0' && p[1] <= '9' && p[2] >= '0' && p[2] <= '9' && p[3] >= '0' && p[3] <= '9' && (p[0] - '0') * 1000 + (p[1] - '0') * 100 + (p[2] - '0') * 10 + (p[3] - '0') == v; }
VC_HARNESS(time_print) {
    vc_option("intlift", 1);
    long h = vc_range(0, 99, "hours"), m = vc_range(0, 59, "minutes"), x = vc_range(0, 59, "seconds");
    std::string s = printed<PrintTime>(Time(h, m, x, true));
    vc_check(s.size() == 8 && s[2] == ':' && s[5] == ':', "a time is printed as HH:MM:SS");
    vc_check(two(s.data(), h) && two(s.data() + 3, m) && two(s.data() + 6, x), "it is the time printed");
    timeIs(s, true, true, h * 3600 + m * 60 + x);
}
static std::string dateText(long y, long m, long d) {   // of 1000 to 9999
    calendar(y, m, d);
    vc_assume(exists);
    return printed<PrintDate>(Date(y, m, d));
}
static void isDate(const std::string& s, long y, long m, long d) {
    vc_check(s[4] == '-' && s[7] == '-', "a date is printed as YYYY-MM-DD");
    vc_check(four(s.data(), y) && two(s.data() + 5, m) && two(s.data() + 8, d), "it is the date printed");
}
VC_HARNESS(date_print) {
    vc_option("intlift", 1);
    long y = vc_range(1000, 9999, "year"), m = vc_range(1, 12, "month"), d = vc_range(1, 31, "day");
    std::string s = dateText(y, m, d);
    vc_check(s.size() == 10, "a date is printed as YYYY-MM-DD");
    isDate(s, y, m, d);
    vc_check(long(Date(s).yyyymmdd()) == y * 10000 + m * 100 + d, "a date printed is read back as the same date");
}
VC_HARNESS(datetime_print) {
    vc_option("intlift", 1);
    long y = vc_range(1000, 9999, "year"), m = vc_range(1, 12, "month"), d = vc_range(1, 31, "day");
    long h = vc_range(0, 23, "hours"), n = vc_range(0, 59, "minutes"), x = vc_range(0, 59, "seconds");
    calendar(y, m, d);
    vc_assume(exists);
    DateTime t(Date(y, m, d), Time(h, n, x));
    std::string s = printed<PrintBoth>(t);
    vc_check(s.size() == 19 && s[10] == ' ', "a date and time are printed as YYYY-MM-DD HH:MM:SS");
    isDate(s, y, m, d);
    vc_check(two(s.data() + 11, h) && two(s.data() + 14, n) && two(s.data() + 17, x), "it is the time printed");
    DateTime u(s);
    vc_check(u.date().yyyymmdd() == y * 10000 + m * 100 + d, "it is read back as the same date");
    vc_check(long(Second(u.time())) == h * 3600 + n * 60 + x, "it is read back as the same time");
}
VC_HARNESS(time_decimal) {
    vc_option("intlift", 1);
    static const char* F[] = {"A.5", "AA.5", "AA.25", "A.75", "-A.5", "-AA.25"};
    static const int part[] = {1800, 1800, 900, 2700, 1800, 900};
    size_t f = vc_split(vc_range(0, 5, "format"), 0, 5);
    std::string s = make(F[f]);
    long t = number[0] * 3600 + part[f];
    if (f >= 4) t = -t;
    timeIs(s, false, t >= 0 && t < 86400, t);
    timeIs(s, true, true, t);
}
