// C04: exact rational arithmetic
//@ tus: types/Fraction.cc exception/Exceptions.cc
//@ assume: std::gcd(a,b) of libstdc++ returns the greatest common divisor (its contract is assumed: g > 0 and g divides a and b)
//@ assume: numerators and denominators are not LLONG_MIN (its absolute value does not exist)
#include "vc.h"
#include <cmath>
#include <numeric>
#include "eckit/types/Fraction.h"
#include "eckit/exception/Exceptions.h"
using eckit::Fraction;
typedef long long ll;
typedef __int128 L;
static const ll MAX = 0x7fffffffffffffffLL;

static const ll SMALL = 0x7fffffffLL;

static unsigned gcds;
static ll gcdA, gcdB, gcdG;
static ll contract_gcd(ll a, ll b) {
    vc_check(a >= 0 && b > 0, "gcd of a non-negative and a positive number");
    gcds++;
    gcdA = a;
    gcdB = b;
    ll g = (ll)vc_ghost_u64();
    vc_assume(g > 0 && g <= b);
    vc_assume(a % g == 0 && b % g == 0);
    gcdG = g;
    return g;
}
// contract of the constructor from two integers, proved in harness construct: the value is top/bottom
static unsigned made;
static ll madeTop, madeBottom;
static void contract_ctor(Fraction* self, ll t, ll b) {
    if (b == 0) throw eckit::AssertionFailed("");
    vc_check(t >= -MAX && b >= -MAX, "no operand is the one number without an absolute value");
    made++;
    madeTop = t;
    madeBottom = b;
    self->top_ = (ll)vc_ghost_u64();
    self->bottom_ = (ll)vc_ghost_u64();
    vc_assume(self->bottom_ > 0);
}
// the same for operands already in lowest terms (negation, inverse): only the sign moves
static void contract_ctor_lowest(Fraction* self, ll t, ll b) {
    if (b == 0) throw eckit::AssertionFailed("");
    vc_check(t >= -MAX && b >= -MAX, "no operand is the one number without an absolute value");
    made++;
    madeTop = t;
    madeBottom = b;
    self->top_ = b < 0 ? -t : t;
    self->bottom_ = b < 0 ? -b : b;
}
static unsigned fellBack;
static void contract_double(Fraction* self, double v) {
    fellBack++;
    self->top_ = 0;
    self->bottom_ = 1;
}
static void setup(bool small = true) {
    vc_option("intlift", 1);
    if (small) vc_replace("eckit::Fraction::Fraction(long long, long long)", (void*)contract_ctor);
    vc_replace("eckit::Fraction::Fraction(double)", (void*)contract_double);
    fellBack = made = gcds = 0;
}
// canonical form, less the coprimality that the gcd contract is about
static Fraction arbitrary(const char* a, const char* b, ll max) {
    Fraction f;
    f.top_ = vc_irange(-max, max, a);
    f.bottom_ = vc_irange(1, max, b);
    if (!vc_symbolic()) { ll g = std::gcd(f.top_, f.bottom_); f.top_ /= g; f.bottom_ /= g; }
    return f;
}
// f is the value t/b
static void is(const Fraction& f, ll t, ll b, const char* what) {
    bool ok;
    if (vc_symbolic()) ok = made == 1 && fellBack == 0 && madeTop == t && madeBottom == b;
    else ok = f.bottom_ > 0 && (L)f.top_ * b == (L)f.bottom_ * t && std::gcd(f.top_, f.bottom_) == 1;
    vc_check(ok, what);
    made = 0;
}

VC_HARNESS(construct) {
    vc_option("intlift", 1);
    vc_replace("std::gcd<long long, long long>", (void*)contract_gcd);
    gcds = 0;
    ll t = vc_irange(-MAX, MAX, "top"), b = vc_irange(-MAX, MAX, "bottom");
    try {
        Fraction f(t, b);
        vc_check(b != 0, "a zero denominator is refused");
        vc_check(f.denominator() > 0, "the denominator is positive");
        ll at = t < 0 ? -t : t, ab = b < 0 ? -b : b;
        if (vc_symbolic()) {
            vc_check(gcds == 1 && gcdA == at && gcdB == ab, "reduced by the greatest common divisor");
            vc_check(f.denominator() == ab / gcdG && (f.numerator() < 0 ? -f.numerator() : f.numerator()) == at / gcdG, "the value is the quotient given");
        }
        else vc_check(std::gcd(f.numerator(), f.denominator()) == 1, "reduced by the greatest common divisor");
        vc_check((f.numerator() < 0) == (t != 0 && (t < 0) != (b < 0)), "the sign is that of the quotient");
        if (!vc_symbolic()) vc_check((L)f.numerator() * b == (L)f.denominator() * t, "the value is the quotient given");
    }
    catch (eckit::AssertionFailed&) {
        vc_check(b == 0, "a non-zero denominator is accepted");
    }
}
VC_HARNESS(arithmetic) {
    setup();
    Fraction x = arbitrary("a", "b", SMALL), y = arbitrary("c", "d", SMALL);
    ll a = x.top_, b = x.bottom_, c = y.top_, d = y.bottom_;
    is(x + y, a * d + b * c, b * d, "the sum is exact");
    is(x - y, a * d - b * c, b * d, "the difference is exact");
    is(x * y, a * c, b * d, "the product is exact");
    Fraction z(x);
    z += y;
    is(z, a * d + b * c, b * d, "adding in place is adding");
    z = x;
    z -= y;
    is(z, a * d - b * c, b * d, "subtracting in place is subtracting");
    z = x;
    z *= y;
    is(z, a * c, b * d, "multiplying in place is multiplying");
}
VC_HARNESS(divide) {
    setup();
    Fraction x = arbitrary("a", "b", SMALL), y = arbitrary("c", "d", SMALL);
    ll a = x.top_, b = x.bottom_, c = y.top_, d = y.bottom_;
    try {
        Fraction r = x / y;
        vc_check(c != 0, "division by zero is refused");
        is(r, a * d, b * c, "the quotient is exact");
    }
    catch (eckit::AssertionFailed&) {
        vc_check(c == 0, "division by a non-zero fraction is not refused");
    }
}
VC_HARNESS(compare) {
    setup();
    Fraction x = arbitrary("a", "b", SMALL), y = arbitrary("c", "d", SMALL);
    ll ad = x.top_ * y.bottom_, bc = x.bottom_ * y.top_;
    vc_check((x < y) == (ad < bc), "less than is the order of the values");
    vc_check((x > y) == (ad > bc), "greater than is the order of the values");
    vc_check((x <= y) == (ad <= bc), "less or equal is the order of the values");
    vc_check((x >= y) == (ad >= bc), "greater or equal is the order of the values");
    vc_check((x == y) == (x.top_ == y.top_ && x.bottom_ == y.bottom_), "equality is that of the canonical form");
    vc_check((x != y) == !(x == y), "inequality is its negation");
}
// beyond 2^31 the products may not fit: then the operations must notice (no signed overflow anywhere)
VC_HARNESS(overflow_noticed) {
    setup();
    Fraction x = arbitrary("a", "b", MAX), y = arbitrary("c", "d", MAX);
    ll a = x.top_, b = x.bottom_, c = y.top_, d = y.bottom_;
    try {
        Fraction r = x + y;
        if (vc_symbolic()) vc_check(made + fellBack == 1, "one result");
        if (made) vc_check(madeTop == a * d + b * c && madeBottom == b * d,   // no overflow here either: an obligation of its own
                           "the sum is exact or found not to fit");
        if (!vc_symbolic()) {
            L t = (L)a * d + (L)b * c, n = (L)b * d;
            long double q = (long double)t / n, e = 1e-9L + 1e-9L * (std::abs((long double)a / b) + std::abs((long double)c / d)), z = (long double)r.top_ / r.bottom_;
            vc_check(r.bottom_ > 0 && std::abs(q - z) <= e, "the sum is exact or found not to fit");
        }
    }
    catch (eckit::BadValue&) { vc_check(!vc_symbolic(), "one result"); }   // the fallback's own refusal
}
VC_HARNESS(overflow_noticed_sub) {
    setup();
    Fraction x = arbitrary("a", "b", MAX), y = arbitrary("c", "d", MAX);
    ll a = x.top_, b = x.bottom_, c = y.top_, d = y.bottom_;
    try {
        Fraction r = x - y;
        if (vc_symbolic()) vc_check(made + fellBack == 1, "one result");
        if (made) vc_check(madeTop == a * d - b * c && madeBottom == b * d,   // no overflow here either: an obligation of its own
                           "the difference is exact or found not to fit");
        if (!vc_symbolic()) {
            L t = (L)a * d - (L)b * c, n = (L)b * d;
            long double q = (long double)t / n, e = 1e-9L + 1e-9L * (std::abs((long double)a / b) + std::abs((long double)c / d)), z = (long double)r.top_ / r.bottom_;
            vc_check(r.bottom_ > 0 && std::abs(q - z) <= e, "the difference is exact or found not to fit");
        }
    }
    catch (eckit::BadValue&) { vc_check(!vc_symbolic(), "one result"); }   // the fallback's own refusal
}
VC_HARNESS(overflow_noticed_mul) {
    setup();
    Fraction x = arbitrary("a", "b", MAX), y = arbitrary("c", "d", MAX);
    ll a = x.top_, b = x.bottom_, c = y.top_, d = y.bottom_;
    try {
        Fraction r = x * y;
        if (vc_symbolic()) vc_check(made + fellBack == 1, "one result");
        if (made) vc_check(madeTop == a * c && madeBottom == b * d,   // no overflow here either: an obligation of its own
                           "the product is exact or found not to fit");
        if (!vc_symbolic()) {
            L t = (L)a * c, n = (L)b * d;
            long double q = (long double)t / n, e = 1e-9L + 1e-9L * std::abs(q), z = (long double)r.top_ / r.bottom_;
            vc_check(r.bottom_ > 0 && std::abs(q - z) <= e, "the product is exact or found not to fit");
        }
    }
    catch (eckit::BadValue&) { vc_check(!vc_symbolic(), "one result"); }   // the fallback's own refusal
}
VC_HARNESS(overflow_noticed_div) {
    setup();
    Fraction x = arbitrary("a", "b", MAX), y = arbitrary("c", "d", MAX);
    ll a = x.top_, b = x.bottom_, c = y.top_, d = y.bottom_;
    try {
        Fraction r = x / y;
        if (vc_symbolic()) vc_check(made + fellBack == 1, "one result");
        if (made) vc_check(madeTop == a * d && madeBottom == b * c,   // no overflow here either: an obligation of its own
                           "the quotient is exact or found not to fit");
        if (!vc_symbolic()) {
            L t = (L)a * d, n = (L)b * c;
            long double q = (long double)t / n, e = 1e-9L + 1e-9L * std::abs(q), z = (long double)r.top_ / r.bottom_;
            vc_check(r.bottom_ > 0 && std::abs(q - z) <= e, "the quotient is exact or found not to fit");
        }
    }
    catch (eckit::AssertionFailed&) { vc_check(c == 0, "division by a non-zero fraction is not refused"); }
    catch (eckit::BadValue&) { vc_check(!vc_symbolic(), "one result"); }   // the fallback's own refusal
}
VC_HARNESS(unary) {
    setup();
    Fraction x = arbitrary("a", "b", MAX);
    ll a = x.top_, b = x.bottom_;
    is(-x, -a, b, "the negation is exact");
    is(Fraction::abs(x), a < 0 ? -a : a, b, "the absolute value is exact");
    vc_check(x.integralPart() == a / b, "the integral part is the quotient rounded towards zero");
    int i = vc_i32("i");
    Fraction k(i);
    vc_check(k.bottom_ == 1 && k.top_ == i, "an integer has denominator one");
    vc_check(x.integer() == (b == 1), "integers are recognised");
    try {
        Fraction r = x.inverse();
        vc_check(a != 0, "zero has no inverse");
        is(r, b, a, "the inverse is exact");
    }
    catch (eckit::BadValue&) {
        vc_check(a == 0, "a non-zero fraction has an inverse");
    }
    try {
        ll v = (ll)x;
        vc_check(b == 1 && v == a, "only integers convert to integers, to their value");
    }
    catch (eckit::SeriousBug&) {
        vc_check(b != 1, "an integer converts to an integer");
    }
}
// integers mixed with fractions, on either side
VC_HARNESS(mixed) {
    setup();
    Fraction y = arbitrary("c", "d", SMALL);
    ll n = vc_irange(-SMALL, SMALL, "n"), c = y.top_, d = y.bottom_;
    vc_check((n < y) == (n * d < c) && (n > y) == (n * d > c) && (n <= y) == (n * d <= c) && (n >= y) == (n * d >= c), "an integer on the left compares by value");
    vc_check((y < n) == (c < n * d) && (y > n) == (c > n * d) && (y <= n) == (c <= n * d) && (y >= n) == (c >= n * d), "an integer on the right compares by value");
    vc_check((n == y) == (d == 1 && c == n) && (y == n) == (d == 1 && c == n) && (n != y) == !(n == y), "an integer equals the fraction of its value");
    is(y + n, c + n * d, d, "fraction plus integer is exact");
    is(y - n, c - n * d, d, "fraction minus integer is exact");
    is(y * n, c * n, d, "fraction times integer is exact");
    is(n + y, c + n * d, d, "integer plus fraction is exact");
    is(n * y, c * n, d, "integer times fraction is exact");
}
VC_HARNESS(mixed_reversed) {
    vc_option("intlift", 1);
    vc_replace("eckit::Fraction::Fraction(long long, long long)", (void*)contract_ctor_lowest);
    vc_replace("eckit::Fraction::Fraction(double)", (void*)contract_double);
    fellBack = made = 0;
    Fraction y = arbitrary("c", "d", SMALL);
    ll n = vc_irange(-SMALL, SMALL, "n"), c = y.top_, d = y.bottom_;
    Fraction r = n - y;
    made = 1;
    is(r, n * d - c, d, "integer minus fraction is exact");
    if (c != 0) {
        Fraction q = n / y;
        made = 1;
        if (c > 0) is(q, n * d, c, "integer divided by fraction is exact");
        else is(q, -n * d, -c, "integer divided by fraction is exact");
    }
    else vc_check(VC_THROWS(n / y), "division by zero is refused");
}
