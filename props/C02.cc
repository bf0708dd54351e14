// C02: time of day
//@ tus: types/Time.cc exception/Exceptions.cc
#include "vc.h"
#include "eckit/types/Time.h"
using eckit::Time;
using eckit::Second;

VC_HARNESS(from_hms) {
    vc_option("intlift", 1);
    long h = vc_irange(-2000000000, 2000000000, "hours"), m = vc_irange(-2000000000, 2000000000, "minutes"), s = vc_irange(-2000000000, 2000000000, "seconds");
    bool ok = h >= 0 && h < 24 && m >= 0 && m < 60 && s >= 0 && s < 60;
    bool thrown = false;
    try {
        Time t(h, m, s);
        vc_cover("accepted");
        vc_check(t.hours() == h && t.minutes() == m && t.seconds() == s, "components of an accepted time are those given");
        vc_check(t.hhmmss() == h * 10000 + m * 100 + s, "hhmmss agrees with the components");
        vc_check(Second(t) == double(h * 3600 + m * 60 + s), "seconds since midnight");
    }
    catch (eckit::BadTime&) {
        vc_cover("rejected");
        thrown = true;
    }
    vc_check(thrown == !ok, "exactly the valid times of day are accepted");
}
VC_HARNESS(from_seconds) {
    vc_option("intlift", 1);
    long n = vc_irange(-4000000000000L, 4000000000000L, "seconds");
    bool extended = vc_bool("extended");
    bool thrown = false;
    try {
        Time t(n, extended);
        vc_check(t.hours() * 3600 + t.minutes() * 60 + t.seconds() == n, "components recompose to the seconds given");
        vc_check(t.minutes() >= 0 && t.minutes() < 60 && t.seconds() >= 0 && t.seconds() < 60 && t.hours() >= 0, "components are in range");
        vc_check(Second(t) == double(n), "seconds since midnight");
    }
    catch (eckit::BadTime&) {
        thrown = true;
    }
    vc_check(thrown == (n < 0 || (n >= 86400 && !extended)), "exactly the valid times are accepted");
}
VC_HARNESS(from_int_seconds) {
    vc_option("intlift", 1);
    int n = (int)vc_irange(-2147483648L, 2147483647L, "seconds");
    bool extended = vc_bool("extended");
    bool thrown = false;
    try {
        Time t(n, extended);
        vc_check(t.hours() * 3600 + t.minutes() * 60 + t.seconds() == n, "components recompose to the seconds given");
    }
    catch (eckit::BadTime&) {
        thrown = true;
    }
    vc_check(thrown == (n < 0 || (n >= 86400 && !extended)), "exactly the valid times are accepted");
}
VC_HARNESS(order_and_difference) {
    vc_option("intlift", 1);
    long a = vc_irange(0, 86399, "a"), b = vc_irange(0, 86399, "b");
    Time x(a / 3600, (a / 60) % 60, a % 60), y(b / 3600, (b / 60) % 60, b % 60);
    vc_check((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "order is chronological");
    vc_check((x == y) == (a == b) && (x != y) == (a != b), "equality is chronological");
    vc_check(x - y == double(a - b), "difference is in seconds");
    Time z(x);
    z = y;
    vc_check(z == y, "assignment copies the time");
}
VC_HARNESS(fractional) {
    double d = vc_f64("seconds");
    bool extended = vc_bool("extended");
    vc_assume(d == d);
    bool thrown = false;
    try {
        Time t(d, extended);
        vc_check(Second(t) == d, "seconds since midnight are kept exactly");
    }
    catch (eckit::BadTime&) {
        thrown = true;
    }
    vc_check(thrown == (d < 0 || (d >= 86400 && !extended)), "exactly the valid times are accepted");
}
