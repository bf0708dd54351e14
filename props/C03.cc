// C03: instants and durations
//@ tus: types/Time.cc types/Date.cc types/DateTime.cc exception/Exceptions.cc
#include "vc.h"
#include "eckit/types/DateTime.h"
#include "eckit/types/Time.h"
#include "eckit/types/Date.h"
using eckit::Date;
using eckit::Time;
using eckit::DateTime;
using eckit::Second;
static const long JMIN = 1757585, JMAX = 5373484;

VC_HARNESS(add_whole_seconds) {
    vc_option("intlift", 1);
    long j = vc_irange(JMIN, JMAX, "julian"), t = vc_irange(0, 86399, "time"), n = vc_irange(-100000000000L, 100000000000L, "n");
    DateTime a(Date(j, true), Time(t));
    DateTime b = a + Second(double(n));
    long t2 = b.time().hours() * 3600 + b.time().minutes() * 60 + b.time().seconds();
    vc_check(t2 >= 0 && t2 < 86400, "time of day stays within the day");
    vc_check(b.date().julian() * 86400 + t2 == j * 86400 + t + n, "the sum is that many seconds later");
    vc_check(b - a == double(n), "the difference recovers the duration");
}
VC_HARNESS(difference) {
    vc_option("intlift", 1);
    long j = vc_irange(JMIN, JMAX, "julian"), t = vc_irange(0, 86399, "time");
    long j2 = vc_irange(JMIN, JMAX, "julian2"), t2 = vc_irange(0, 86399, "time2");
    DateTime a(Date(j, true), Time(t)), b(Date(j2, true), Time(t2));
    long d = (j - j2) * 86400 + t - t2;
    vc_check(a - b == double(d), "the difference is the elapsed seconds");
    vc_check((a < b) == (d < 0) && (a > b) == (d > 0) && (a <= b) == (d <= 0) && (a >= b) == (d >= 0), "order is chronological");
    vc_check((a == b) == (d == 0) && (a != b) == (d != 0), "equality is chronological");
    DateTime c(b);
    c = a;
    vc_check(c == a, "assignment copies the instant");
}
VC_HARNESS(add_fraction) {
    long j = vc_irange(JMIN, JMAX, "julian");
    double t = vc_f64("time"), s = vc_f64("seconds");
    vc_assume(t >= 0 && t < 86400);
    vc_assume(s >= -86400 && s <= 86400);
    DateTime a(Date(j, true), Time(t));
    DateTime b = a + s;
    double t2 = b.time();
    vc_check(t2 >= 0 && t2 < 86400, "time of day stays within the day");
}
VC_HARNESS(rounding) {
    vc_option("intlift", 1);
    long j = vc_irange(JMIN, JMAX, "julian"), t = vc_irange(0, 86399, "time"), r = vc_irange(1, 86400, "step");
    DateTime a(Date(j, true), Time(t));
    DateTime b = a.round(double(r));
    long t2 = b.time().hours() * 3600 + b.time().minutes() * 60 + b.time().seconds();
    long x = j * 86400 + t, y = b.date().julian() * 86400 + t2;
    vc_check(y <= x && x - y < r, "rounding goes back by less than one step");
    vc_check(y == (x / r) * r, "a rounded instant is a multiple of the step");
}
