// @throws range_error
#include <hstd/stdlib/Vec.hpp>
#include "obl.hpp"

using namespace hstd;
using Small = SmallVec<int, 4>;

OBL(C13, smallvec_push)(int a, int b) {
    Small v;
    REQUIRE(v.empty()); REQUIRE(v.size() == 0);
    v.push_back(a);
    v.push_back(b);
    Small const& c = v;
    REQUIRE(!v.empty()); REQUIRE(v.size() == 2); REQUIRE(v.high() == 1);
    REQUIRE(v[0] == a); REQUIRE(v[1] == b);
    REQUIRE(c[0] == a); REQUIRE(c[1] == b);
    REQUIRE(v.at(0) == a); REQUIRE(v.at(1) == b);
    REQUIRE(c.at(0) == a); REQUIRE(c.at(1) == b);
    REQUIRE(c.back() == b);
}
OBL(C13, smallvec_of_size)(int a) {
    Small v(2, a);
    REQUIRE(v.size() == 2); REQUIRE(v[0] == a); REQUIRE(v[1] == a);
    Small z(3);
    REQUIRE(z.size() == 3);
}
OBL_THROWS(C13, smallvec_index_in_range)(int a, int b, int i) {
    Small v{a, b};
    int   r = v[i];
    REQUIRE(i == 0 || i == 1);
    REQUIRE(r == (i ? b : a));
}
OBL_THROWS(C13, smallvec_const_index_in_range)(int a, int b, int i) {
    Small const v{a, b};
    int         r = v[i];
    REQUIRE(i == 0 || i == 1);
    REQUIRE(r == (i ? b : a));
}
OBL_THROWS(C13, smallvec_at_in_range)(int a, int b, int i) {
    Small v{a, b};
    int   r = v.at(i);
    REQUIRE(i == 0 || i == 1);
    REQUIRE(r == (i ? b : a));
}
OBL_THROWS(C13, smallvec_const_at_in_range)(int a, int b, int i) {
    Small const v{a, b};
    int         r = v.at(i);
    REQUIRE(i == 0 || i == 1);
    REQUIRE(r == (i ? b : a));
}
OBL_THROWS(C13, smallvec_pop_of_empty)() {
    Small v;
    v.pop_back();
    REQUIRE(!"nothing to pop");
}
OBL_THROWS(C13, smallvec_back_of_empty)() {
    Small const v;
    (void)v.back();
    REQUIRE(!"nothing at the back");
}
OBL(C13, smallvec_pop)(int a, int b) {
    Small v{a, b};
    int   r = v.pop_back_v();
    REQUIRE(r == b); REQUIRE(v.size() == 1); REQUIRE(v[0] == a);
    v.pop_back();
    REQUIRE(v.empty());
}
OBL(C13, smallvec_slice)(int a, int b, int c) {
    Small        v{a, b, c};
    Small const& k = v;
    auto         s = v.at(slice(1, 2));
    auto         t = k.at(slice(0, 1));
    REQUIRE(s.size() == 2); REQUIRE(s[0] == b); REQUIRE(s[1] == c);
    REQUIRE(t.size() == 2); REQUIRE(t[0] == a); REQUIRE(t[1] == b);
    auto u = v.at(slice(1, 1_B));
    REQUIRE(u.size() == 2); REQUIRE(u[0] == b);
}
OBL(C13, smallvec_append)(int a, int b, int c) {
    Small    v{a};
    Vec<int> w{b, c};
    v.append(w.begin(), w.end());
    REQUIRE(v.size() == 3); REQUIRE(v[0] == a); REQUIRE(v[1] == b); REQUIRE(v[2] == c);
}
OBL(C13, smallvec_find)(int a, int b, int x) {
    Small v{a, b};
    REQUIRE(v.contains(x) == (x == a || x == b));
    REQUIRE(v.indexOf(x) == (x == a ? 0 : x == b ? 1 : -1));
    REQUIRE(v.has(0)); REQUIRE(v.has(1)); REQUIRE(!v.has(2)); REQUIRE(!v.has(-1));
}
OBL(C13, smallvec_get)(int a, int b, int i) {
    Small v{a, b};
    auto  r = v.get(i);
    REQUIRE(r.has_value() == (i == 0 || i == 1));
    REQUIRE(v.get_copy(0) == a); REQUIRE(v.get_copy(1) == b);
    REQUIRE(v.at_or(1, 5) == b); REQUIRE(v.at_or(2, 5) == 5);
}
OBL(C13, smallvec_order)(int a, int b, int c, int d) {
    Small v{a, b}, w{c, d};
    REQUIRE((v < w) == (a < c || (a == c && b < d)));
}
OBL(C13, smallvec_copy)(int a, int b) {
    Small v{a, b};
    Small w(v);
    v[0] = 7;
    REQUIRE(w.size() == 2); REQUIRE(w[0] == a); REQUIRE(w[1] == b);
}
