// C04: a fraction made from a floating-point number
//@ tus: exception/Exceptions.cc
//@ assume: MAX_DENOM, the square root of the greatest 64-bit integer as the machine's sqrt gives it, is 3037000499
#include "vc.h"
#include <cmath>
#include <numeric>
#include "eckit/types/Fraction.cc"
using namespace eckit;
typedef long long ll;
static const ll LIMIT = 3037000499LL;

static unsigned gcds;
static double v0;
static ll contract_gcd(ll a, ll b) {
    vc_check(a >= 0 && b > 0, "gcd of a non-negative and a positive number");
    gcds++;
    ll g = (ll)vc_ghost_u64();
    vc_assume(g > 0 && g <= b);
    return g;
}
static bool inv_convergents(long long& m00, long long& m10, long long& m11, long long& m01, double& x, size_t& cnt) {
    return (m00 >= 0) & (m00 < LIMIT) & (m10 >= 0) & (m10 < LIMIT) & (m01 >= 0) & (m01 < LIMIT) & (m11 >= 0) & (m11 < LIMIT) &
           (((m10 > 0) & (x >= 1)) | ((m11 == 1) & (m01 == 0) & (m00 == 1) & (x == v0))) & (x >= 0) & (cnt <= 10001);
}
static void from(bool inRange) {
    vc_option("intlift", 1);
    vc_option("fp_bound", LIMIT);
    vc_option("fp_any", 1);   // the argument does not depend on what the floating-point operations yield
    vc_replace("std::gcd<long long, long long>", (void*)contract_gcd);
    vc_loop("eckit::Fraction::Fraction(double)", 1, (void*)inv_convergents);
    if (vc_symbolic()) const_cast<ll&>(MAX_DENOM) = LIMIT;
    gcds = 0;
    double v = vc_f64("value");
    if (!vc_symbolic()) {   // most floating-point numbers are out of range: bring them into it
        int e;
        ll m = inRange ? vc_irange(-60, 32, "exponent") : vc_irange(31, 1023, "exponent");
        vc_assume(std::isfinite(v));
        v = std::ldexp(std::frexp(v, &e), (int)m);
        if (vc_bool("decimal")) v = std::round(v * 1e6) / 1e6;
    }
    vc_assume(!std::isnan(v));
    v0 = std::abs(v);
    vc_assume((v0 < (double)LIMIT) == inRange);
    try {
        Fraction f(v);
        vc_check(f.denominator() > 0, "the denominator is positive");
        vc_check((f.denominator() < LIMIT) & (f.numerator() < LIMIT) & (f.numerator() > -LIMIT), "numerator and denominator are in range");
        vc_check(((v < 0) & (f.numerator() <= 0)) | (!(v < 0) & (f.numerator() >= 0)), "the sign is that of the number");
        vc_check(inRange, "a number out of range is refused");
        if (vc_symbolic()) vc_check(gcds == 1, "reduced by the greatest common divisor");
        else {
            vc_check(std::gcd(f.numerator(), f.denominator()) == 1, "reduced by the greatest common divisor");
            vc_check(std::abs((double)f.numerator() / (double)f.denominator() - v) <= 1e-9 * std::abs(v) + 1e-9, "the fraction is close to the number");
        }
    }
    catch (eckit::BadValue&) {   // (that few terms are needed is beyond the proof)
        vc_check(vc_symbolic() || !inRange, "a number in range is accepted");
    }
}
VC_HARNESS(from_double) { from(true); }
VC_HARNESS(from_large_double) { from(false); }
