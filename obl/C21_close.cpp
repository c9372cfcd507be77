// @throws .
#include <hstd/system/aux_utils.cpp>
#include "obl.hpp"

static double mag(double x) { return x < 0 ? -x : x; }

OBL(C21, close_means_within_the_tolerances)(double a, double b, double rtol, double atol) {
    double d = a - b;
    double limit = atol + rtol * mag(b);
    bool r = hstd::isclose(a, b, rtol, atol);
    if (r) {
        REQUIRE(mag(d) <= limit);
    } else {
        REQUIRE(!(mag(d) <= limit));
    }
}
OBL(C21, close_to_itself)(double a, double rtol, double atol) {
    ASSUME(rtol >= 0);
    ASSUME(atol >= 0);
    REQUIRE(hstd::isclose(a, a, rtol, atol));
}
OBL(C21, zero_tolerance_is_equality)(double a, double b) {
    bool r = hstd::isclose(a, b, 0, 0);
    if (r) {
        REQUIRE(a == b);
    } else {
        REQUIRE(a != b);
    }
}
OBL(C21, default_tolerances)(double a, double b) {
    double d     = a - b;
    double limit = 1e-8 + 1e-5 * mag(b);
    bool   r     = hstd::isclose(a, b);
    if (r) {
        REQUIRE(mag(d) <= limit);
    } else {
        REQUIRE(!(mag(d) <= limit));
    }
}
