#include <hstd/stdlib/Vec.hpp>
#include <hstd/stdlib/algorithms.hpp>
#include "obl.hpp"

using namespace hstd;

OBL(C25, sorted_puts_the_smaller_first)(int a, int b) {
    Vec<int> v{a, b};
    Vec<int> r = sorted(v);
    REQUIRE(r.size() == 2);
    REQUIRE(v[0] == a); REQUIRE(v[1] == b);
    REQUIRE(r[0] == (a < b ? a : b)); REQUIRE(r[1] == (a < b ? b : a));
}
OBL(C25, sorted_by_uses_the_key)(int a, int b) {
    Vec<int> v{a, b};
    Vec<int> r = sortedBy(v, [](int x) { return -(long)x; });
    REQUIRE(r.size() == 2);
    REQUIRE(r[0] == (a < b ? b : a)); REQUIRE(r[1] == (a < b ? a : b));
}
OBL(C25, sorted_by_comparison_orders_three)(int a, int b, int c) {
    Vec<int> v{a, b, c};
    Vec<int> r = sorted(v, [](int const& l, int const& k) { return k < l; });
    REQUIRE(r.size() == 3);
    REQUIRE(r[0] >= r[1]); REQUIRE(r[1] >= r[2]);
    REQUIRE(r[0] == a || r[0] == b || r[0] == c);
    REQUIRE(r[2] == a || r[2] == b || r[2] == c);
    REQUIRE(v[0] == a); REQUIRE(v[1] == b); REQUIRE(v[2] == c);
}
OBL(C25, sort_orders_in_place)(int a, int b) {
    Vec<int> v{a, b};
    sort(v, [](int const& l, int const& k) { return l < k; });
    REQUIRE(v.size() == 2);
    REQUIRE(v[0] == (a < b ? a : b)); REQUIRE(v[1] == (a < b ? b : a));
}
