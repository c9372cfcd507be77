// @throws range_error
#include <hstd/stdlib/Vec.hpp>
#include <hstd/stdlib/Array.hpp>
#include <hstd/stdlib/algorithms.hpp>
#include "obl.hpp"

using namespace hstd;

#define INSIDE(n, i) ((i) >= 0 && (i) < (n))
#define VALUES int a, int b, int c
#define THREE(v) Vec<int> v{a, b, c};
#define NTH(i) ((i) == 0 ? a : (i) == 1 ? b : c)

OBL(C13, vec_size)(VALUES) {
    THREE(v)
    REQUIRE(v.size() == 3);
    REQUIRE(v.high() == 2);
    REQUIRE(!v.empty());
    REQUIRE(Vec<int>{}.empty());
    REQUIRE(Vec<int>{}.size() == 0);
}
OBL(C13, vec_at)(VALUES, int i) {
    ASSUME(INSIDE(3, i));
    THREE(v)
    REQUIRE(v.at(i) == NTH(i));
    REQUIRE(v[i] == NTH(i));
    Vec<int> const& k = v;
    REQUIRE(k.at(i) == NTH(i));
    REQUIRE(k[i] == NTH(i));
}
OBL(C13, vec_at_backwards)(VALUES, int i) {
    ASSUME(INSIDE(3, i));
    THREE(v)
    REQUIRE(v.at(backIndex(3 - i)) == NTH(i));
    REQUIRE(v[backIndex(3 - i)] == NTH(i));
    Vec<int> const& k = v;
    REQUIRE(k.at(backIndex(3 - i)) == NTH(i));
    REQUIRE(v.index(backIndex(3 - i)) == i);
}
#define REJECTS(name, body)                                                              \
    OBL_THROWS(C13, name)(VALUES, int i) {                                               \
        ASSUME(i > -100000 && i < 100000);                                               \
        THREE(v)                                                                         \
        Vec<int> const& k = v;                                                           \
        body;                                                                            \
        violation(#name);                                                                \
    }
REJECTS(vec_at_outside, ASSUME(!INSIDE(3, i)); (void)v.at(i))
REJECTS(vec_const_at_outside, ASSUME(!INSIDE(3, i)); (void)k.at(i))
REJECTS(vec_index_outside, ASSUME(!INSIDE(3, i)); (void)v[i])
REJECTS(vec_const_index_outside, ASSUME(!INSIDE(3, i)); (void)k[i])
REJECTS(vec_backwards_outside, ASSUME(!INSIDE(3, 3 - i)); (void)v.at(backIndex(i)))
REJECTS(vec_part_outside, ASSUME(!INSIDE(3, i)); (void)v.at(HSlice<int, int>{0, i}))
REJECTS(vec_const_part_outside, ASSUME(!INSIDE(3, i)); (void)k.at(HSlice<int, int>{i, 2}))
OBL_THROWS(C13, vec_back_of_nothing)() { Vec<int> v; (void)v.back(); violation("back of an empty vector"); }
OBL_THROWS(C13, vec_const_back_of_nothing)() { Vec<int> const v; (void)v.back(); violation("back of an empty vector"); }
OBL_THROWS(C13, vec_pop_of_nothing)() { Vec<int> v; v.pop_back(); violation("pop_back of an empty vector"); }
OBL_THROWS(C13, vec_pop_value_of_nothing)() { Vec<int> v; (void)v.pop_back_v(); violation("pop_back_v of an empty vector"); }
OBL(C13, vec_has)(VALUES, int i) {
    ASSUME(i > -100000 && i < 100000);
    THREE(v)
    REQUIRE(v.has(i) == INSIDE(3, i));
    REQUIRE(v.has(backIndex(i)) == (1 <= i && i <= 3));
}
OBL(C13, vec_get)(VALUES, int i) {
    THREE(v)
    auto r = v.get(i);
    REQUIRE(r.has_value() == INSIDE(3, i));
    if (r) { REQUIRE(r->get() == NTH(i)); REQUIRE(&r->get() == v.data() + i); }
}
OBL(C13, vec_get_copy)(VALUES, int i) {
    THREE(v)
    auto q = v.get_copy(i);
    REQUIRE(q.has_value() == INSIDE(3, i));
    if (q) { REQUIRE(*q == NTH(i)); }
}
OBL(C13, vec_get_backwards)(VALUES, int i) {
    ASSUME(i > -100000 && i < 100000);
    THREE(v)
    auto r = v.get(backIndex(i));
    REQUIRE(r.has_value() == (1 <= i && i <= 3));
    if (r) { REQUIRE(&r->get() == v.data() + (3 - i)); }
    auto q = v.get_copy(backIndex(i));
    REQUIRE(q.has_value() == (1 <= i && i <= 3));
    if (q) { REQUIRE(*q == NTH(3 - i)); }
}
OBL(C13, vec_at_or)(VALUES, int i, int f) {
    THREE(v)
    REQUIRE(v.at_or(i, f) == (INSIDE(3, i) ? NTH(i) : f));
}
OBL(C13, vec_at_or_backwards)(VALUES, int i, int f) {
    ASSUME(i > -100000 && i < 100000);
    THREE(v)
    REQUIRE(v.at_or(backIndex(i), f) == (1 <= i && i <= 3 ? NTH(3 - i) : f));
}
OBL(C13, vec_ends)(VALUES) {
    THREE(v)
    REQUIRE(v.back() == c);
    REQUIRE(((Vec<int> const&)v).back() == c);
    v.pop_back();
    REQUIRE(v.size() == 2);
    REQUIRE(v.at(0) == a);
    REQUIRE(v.back() == b);
}
OBL(C13, vec_pop_value)(VALUES) {
    THREE(v)
    REQUIRE(v.pop_back_v() == c);
    REQUIRE(v.size() == 2);
    REQUIRE(v.at(0) == a); REQUIRE(v.at(1) == b);
}
OBL(C13, vec_part)(VALUES, int i, int k) {
    ASSUME(0 <= i && i <= k && k < 3);
    THREE(v)
    Span<int> s = v.at(slice(i, k));
    REQUIRE(s.data() == v.data() + i); REQUIRE(s.size() == k - i + 1);
    Span<int> t = v[slice(i, k)];
    REQUIRE(t.data() == v.data() + i); REQUIRE(t.size() == k - i + 1);
    Span<int> u = ((Vec<int> const&)v).at(slice(i, backIndex(3 - k)));
    REQUIRE(u.data() == v.data() + i); REQUIRE(u.size() == k - i + 1);
    Span<int> w = ((Vec<int> const&)v)[slice(i, k)];
    REQUIRE(w.data() == v.data() + i); REQUIRE(w.size() == k - i + 1);
    REQUIRE(v.toSpan().data() == v.data()); REQUIRE(v.toSpan().size() == 3);
}
OBL(C13, vec_find)(VALUES, int x) {
    THREE(v)
    REQUIRE(v.indexOf(x) == (x == a ? 0 : x == b ? 1 : x == c ? 2 : -1));
}
OBL(C13, vec_contains)(VALUES, int x) {
    THREE(v)
    REQUIRE(v.contains(x) == (x == a || x == b || x == c));
}
OBL(C13, vec_append)(VALUES, int d) {
    Vec<int> v{a, b};
    Vec<int> w{c, d};
    v.append(w);
    REQUIRE(v.size() == 4);
    REQUIRE(v.at(0) == a); REQUIRE(v.at(1) == b); REQUIRE(v.at(2) == c); REQUIRE(v.at(3) == d);
    REQUIRE(w.size() == 2); REQUIRE(w.at(0) == c); REQUIRE(w.at(1) == d);
}
OBL(C13, vec_plus_value)(VALUES) {
    Vec<int> v{a, b};
    Vec<int> r = v + c;
    REQUIRE(r.size() == 3);
    REQUIRE(r.at(0) == a); REQUIRE(r.at(1) == b); REQUIRE(r.at(2) == c);
    REQUIRE(v.size() == 2);
}
OBL(C13, vec_plus_vec)(VALUES) {
    Vec<int> v{a}, w{b, c};
    Vec<int> r = v + w;
    REQUIRE(r.size() == 3);
    REQUIRE(r.at(0) == a); REQUIRE(r.at(1) == b); REQUIRE(r.at(2) == c);
    REQUIRE(v.size() == 1); REQUIRE(w.size() == 2);
}
OBL(C13, vec_push_index)(VALUES) {
    Vec<int> v{a, b};
    REQUIRE(v.push_back_idx(c) == 2);
    REQUIRE(v.size() == 3); REQUIRE(v.at(2) == c);
}
OBL(C13, vec_insert)(VALUES, int x) {
    Vec<int> v{a, b};
    v.insert(1, x);
    REQUIRE(v.size() == 3);
    REQUIRE(v.at(0) == a); REQUIRE(v.at(1) == x); REQUIRE(v.at(2) == b);
}
OBL(C13, vec_insert_at_the_ends)(VALUES, int x, int y) {
    Vec<int> v{a, b};
    v.insert(0, x);
    v.insert(3, y);
    REQUIRE(v.size() == 4);
    REQUIRE(v.at(0) == x); REQUIRE(v.at(1) == a); REQUIRE(v.at(2) == b); REQUIRE(v.at(3) == y);
}
OBL(C13, vec_resize_at_inside)(VALUES, int i) {
    ASSUME(INSIDE(3, i));
    THREE(v)
    int& r = v.resize_at(i);
    REQUIRE(v.size() == 3);
    REQUIRE(&r == v.data() + i);
    REQUIRE(&v.resize_at(i, 7) == v.data() + i);
    REQUIRE(r == NTH(i));
}
OBL(C13, vec_resize_at_grows)(VALUES, int f) {
    Vec<int> v{a};
    int&     r = v.resize_at(2, f);
    REQUIRE(v.size() == 3);
    REQUIRE(&r == v.data() + 2);
    REQUIRE(v.at(0) == a); REQUIRE(v.at(1) == f); REQUIRE(v.at(2) == f);
}
OBL(C13, vec_resize_at_the_end)(VALUES, int f) {
    Vec<int> v{a};
    REQUIRE(&v.resize_at(1, f) == v.data() + 1);
    REQUIRE(v.size() == 2); REQUIRE(v.at(0) == a); REQUIRE(v.at(1) == f);
    REQUIRE(&v.resize_at(2) == v.data() + 2);
    REQUIRE(v.size() == 3); REQUIRE(v.at(2) == 0);
}
OBL(C13, vec_equality)(VALUES, int x, int y, int z) {
    THREE(v)
    Vec<int> w{x, y, z};
    REQUIRE((v.operator==<Vec<int>>(w)) == (a == x && b == y && c == z));
}
OBL(C13, vec_inequality_by_size)(VALUES) {
    THREE(v)
    Vec<int> w{a, b};
    REQUIRE(!(v.operator==<Vec<int>>(w)));
    REQUIRE(!(w.operator==<Vec<int>>(v)));
}
OBL(C13, vec_less)(VALUES, int x, int y) {
    Vec<int> v{a, b}, w{x, y};
    REQUIRE((v.operator< <Vec<int>>(w)) == (a < x || (a == x && b < y)));
}
OBL(C13, vec_shorter_is_less)(VALUES) {
    Vec<int> v{a}, w{a, b};
    REQUIRE((v.operator< <Vec<int>>(w)));
    REQUIRE(!(w.operator< <Vec<int>>(v)));
}
OBL(C13, vec_splice)(VALUES, int d) {
    Vec<int> w{b, c};
    Vec<int> v = Vec<int>::Splice(a, std::move(w), d);
    REQUIRE(v.size() == 4);
    REQUIRE(v.at(0) == a); REQUIRE(v.at(1) == b); REQUIRE(v.at(2) == c); REQUIRE(v.at(3) == d);
}
OBL(C13, vec_from_values)(VALUES) {
    Vec<int> v = as_vec(a, b, c);
    REQUIRE(v.size() == 3);
    REQUIRE(v.at(0) == a); REQUIRE(v.at(1) == b); REQUIRE(v.at(2) == c);
    Vec<int> w(2, a);
    REQUIRE(w.size() == 2); REQUIRE(w.at(0) == a); REQUIRE(w.at(1) == a);
    Vec<int> x(v.toSpan());
    REQUIRE(x.size() == 3); REQUIRE(x.at(0) == a); REQUIRE(x.at(2) == c);
}

// ---- arrays
#define ARRAY(v) Array<int, 3> v; v[0] = a; v[1] = b; v[2] = c;
OBL(C13, array_elements)(VALUES, int i) {
    ASSUME(INSIDE(3, i));
    ARRAY(v)
    REQUIRE(v[backIndex(3 - i)] == NTH(i));
    REQUIRE(v.at(backIndex(3 - i)) == NTH(i));
    REQUIRE(v.high() == 2);
}
OBL(C13, array_has)(int i) {
    Array<int, 3> v;
    REQUIRE(v.has(i) == INSIDE(3, i));
}
OBL(C13, array_part)(VALUES, int i, int k) {
    ASSUME(0 <= i && i <= k && k < 3);
    ARRAY(v)
    auto s = v.at(slice(i, k));
    REQUIRE(s.data() == v.data() + i); REQUIRE((int)s.size() == k - i + 1);
    auto t = v[slice(i, k)];
    REQUIRE(t.data() == v.data() + i); REQUIRE((int)t.size() == k - i + 1);
}
OBL_THROWS(C13, array_part_outside)(VALUES, int i) {
    ASSUME(!INSIDE(3, i));
    ARRAY(v)
    (void)v.at(HSlice<int, int>{0, i});
    violation("a part outside of the array was accepted");
}
OBL(C13, array_find)(VALUES, int x) {
    ARRAY(v)
    REQUIRE(v.indexOf(x) == (x == a ? 0 : x == b ? 1 : x == c ? 2 : -1));
}

// ---- rearranging
OBL(C13, reverse)(VALUES) {
    THREE(v)
    Vec<int> r = reversed(v);
    REQUIRE(r.size() == 3);
    REQUIRE(r.at(0) == c); REQUIRE(r.at(1) == b); REQUIRE(r.at(2) == a);
    REQUIRE(v.at(0) == a); REQUIRE(v.at(2) == c);
    reverse(v);
    REQUIRE(v.at(0) == c); REQUIRE(v.at(1) == b); REQUIRE(v.at(2) == a);
}
OBL(C13, small_map_keeps_order)(VALUES) {
    ASSUME(a > -1000 && a < 1000 && b > -1000 && b < 1000 && c > -1000 && c < 1000);
    THREE(v)
    auto r = map(v, [](int x) { return x + 1; });
    REQUIRE(r.size() == 3);
    REQUIRE(r.at(0) == a + 1); REQUIRE(r.at(1) == b + 1); REQUIRE(r.at(2) == c + 1);
}
OBL(C13, map_of_an_optional)(int a, bool h) {
    ASSUME(a > -1000 && a < 1000);
    Opt<int> o;
    if (h) { o = a; }
    auto r = map(o, [](int x) { return x + 1; });
    REQUIRE(r.has_value() == h);
    if (r) { REQUIRE(*r == a + 1); }
}

OBL(C13, vec_append_of_a_span_and_a_vec)(VALUES, int i) {
    ASSUME(INSIDE(6, i));
    THREE(v)
    int more[] = {c, a, b};
    v.append(std::span<int>{more, 3});
    REQUIRE(v.size() == 6);
    REQUIRE(v.at(i) == (i < 3 ? NTH(i) : more[i - 3]));
    THREE(w)
    Vec<int> o{b, a, c};
    w.append(o);
    REQUIRE(w.size() == 6);
    REQUIRE(w.at(i) == (i < 3 ? NTH(i) : o.at(i - 3)));
    REQUIRE(o.size() == 3);
}
