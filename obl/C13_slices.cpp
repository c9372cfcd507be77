// @throws range_error
#include <hstd/stdlib/Slice.hpp>
#include <hstd/stdlib/Span.hpp>
#include <hstd/stdlib/Vec.hpp>
#include "obl.hpp"

using namespace hstd;

#define LIMIT(x) ASSUME((x) > -100000 && (x) < 100000)
#define SLICE(s, a, b) ASSUME((a) <= (b)); Slice<int> s{{a, b}};

// ---- slices of values
OBL(C13, contains_value)(int a, int b, int v) {
    SLICE(s, a, b)
    REQUIRE(s.contains(v) == (a <= v && v <= b));
    REQUIRE(s.isBefore(v) == (v < a));
    REQUIRE(s.isAfter(v) == (b < v));
}
OBL(C13, contains_slice)(int a, int b, int c, int d) {
    SLICE(s, a, b) SLICE(t, c, d)
    REQUIRE(s.contains(t) == (a <= c && d <= b));
}
OBL(C13, validity)(int a, int b) {
    Slice<int> s{{a, b}};
    REQUIRE(s.isValid() == (a <= b));
    REQUIRE(s.isPoint() == (a == b));
}
OBL(C13, equality)(int a, int b, int c, int d) {
    Slice<int> s{{a, b}}, t{{c, d}};
    REQUIRE((s == t) == (a == c && b == d));
}
OBL(C13, construction)(int a, int b) {
    ASSUME(a <= b);
    Slice<int> s = slice(a, b);
    REQUIRE(s.first == a); REQUIRE(s.last == b);
    Slice<int> t = slice1<int>(a, b);
    REQUIRE(t.first == a); REQUIRE(t.last == b);
    HSlice<int, long> h = slice(a, (long)b);
    REQUIRE(h.first == a); REQUIRE(h.last == b);
}
OBL_THROWS(C13, reversed_bounds_are_rejected)(int a, int b) {
    ASSUME(a > b);
    slice(a, b);
    violation("slice(first, last) accepted last < first");
}
OBL(C13, expand_is_the_smallest_cover)(int a, int b, int v) {
    SLICE(s, a, b)
    s.expand(v);
    REQUIRE(s.first == (v < a ? v : a));
    REQUIRE(s.last == (v > b ? v : b));
}
OBL(C13, expanded_is_the_hull)(int a, int b, int c, int d) {
    SLICE(s, a, b) SLICE(t, c, d)
    Slice<int> r = s.expanded(t);
    REQUIRE(r.first == (c < a ? c : a));
    REQUIRE(r.last == (d > b ? d : b));
    REQUIRE(s.first == a && s.last == b);
}
OBL(C13, narrow_is_the_common_part)(int a, int b, int c, int d) {
    SLICE(s, a, b) SLICE(t, c, d)
    Slice<int> r = s.narrow(t);
    if (c <= b && a <= d) {
        REQUIRE(r.first == (c > a ? c : a));
        REQUIRE(r.last == (d < b ? d : b));
    } else {
        REQUIRE(r.first == a);
        REQUIRE(r.last == b);
    }
}
OBL(C13, overlap_is_the_common_part)(int a, int b, int c, int d) {
    SLICE(s, a, b) SLICE(t, c, d)
    auto r = s.overlap(t);
    REQUIRE(r.has_value() == (c <= b && a <= d));
    if (r) {
        REQUIRE(r->first == (c > a ? c : a));
        REQUIRE(r->last == (d < b ? d : b));
    }
}
OBL(C13, overlap_of_wide_values)(long a, long b, long c, long d) {
    ASSUME(a <= b && c <= d && c <= b && a <= d);
    Slice<long> s{{a, b}}, t{{c, d}};
    auto        r = s.overlap(t);
    REQUIRE(r.has_value());
    REQUIRE(r->first == (c > a ? c : a));
    REQUIRE(r->last == (d < b ? d : b));
}

// ---- iterating a slice
OBL(C13, iteration_starts_at_first)(int a, int b) {
    SLICE(s, a, b)
    auto it = s.begin();
    REQUIRE(it != s.end());
    REQUIRE(*it == a);
}
OBL(C13, iteration_steps_by_one)(int a, int b, int k) {
    ASSUME(a <= k && k < b);
    Slice<int>::iterator it{k, b};
    ++it;
    REQUIRE(*it == k + 1);
    REQUIRE(it != (Slice<int>{{a, b}}.end()));
}
OBL(C13, iteration_ends_after_last)(int a, int b) {
    SLICE(s, a, b)
    Slice<int>::iterator it{b, b};
    REQUIRE(it != s.end());
    REQUIRE(*it == b);
    ++it;
    REQUIRE(!(it != s.end()));
    ++it;
    REQUIRE(!(it != s.end()));
}
OBL(C13, iteration_of_the_whole_type)() {
    Slice<unsigned char> s{{0, 255}};
    Slice<unsigned char>::iterator it{255, 255};
    REQUIRE(it != s.end());
    ++it;
    REQUIRE(!(it != s.end()));
    REQUIRE(s.begin() != s.end());
}
OBL(C13, iterators_differ_by_value)(int a, int b, int i, int k) {
    ASSUME(a <= i && i <= b && a <= k && k <= b);
    Slice<int>::iterator x{i, b}, y{k, b};
    REQUIRE((x != y) == (i != k));
}
OBL(C13, small_loop_visits_every_value_in_order)(long a, long b) {
    ASSUME(a > -1000 && a < 1000 && a <= b && b <= a + 2);
    int n = 0;
    for (long v : Slice<long>{{a, b}}) {
        REQUIRE(v == a + n);
        ++n;
    }
    REQUIRE(n == b - a + 1);
}
struct Sized { int n; int size() const { return n; } };
OBL(C13, slice_of_a_container)(int n) {
    ASSUME(n > 0);
    Slice<int> s = sliceSize(Sized{n});
    REQUIRE(s.first == 0);
    REQUIRE(s.last == n - 1);
}
OBL(C13, slice_of_a_type)() {
    auto s = sliceT<signed char>();
    REQUIRE(s.first == -128);
    REQUIRE(s.last == 127);
}

// ---- backwards indices
OBL(C13, backwards_order)(int a, int b) {
    BackwardsIndex x{a}, y{b};
    REQUIRE((x == y) == (a == b));
    REQUIRE((x != y) == (a != b));
    REQUIRE((x < y) == (a > b));
    REQUIRE((x <= y) == (a >= b));
    REQUIRE((x > y) == (a < b));
    REQUIRE((x >= y) == (a <= b));
    REQUIRE(backIndex(a).value == a);
    REQUIRE((3_B).value == 3);
}

// ---- positions of a slice in a container
#define INSIDE(n, i) ((i) >= 0 && (i) < (n))
OBL(C13, span_forward)(int n, int a, int b, bool check) {
    ASSUME(INSIDE(n, a) && INSIDE(n, b) && a <= b);
    auto [s, e] = getSpan(n, HSlice<int, int>{a, b}, check);
    REQUIRE(s == a); REQUIRE(e == b);
}
OBL(C13, span_backward)(int n, int a, int b, bool check) {
    LIMIT(n); LIMIT(a); LIMIT(b);
    ASSUME(INSIDE(n, n - a) && INSIDE(n, n - b) && a >= b);
    auto [s, e] = getSpan(n, HSlice<BackwardsIndex, BackwardsIndex>{backIndex(a), backIndex(b)}, check);
    REQUIRE(s == n - a); REQUIRE(e == n - b);
}
OBL(C13, span_forward_to_backward)(int n, int a, int b) {
    LIMIT(n); LIMIT(b);
    ASSUME(INSIDE(n, a) && INSIDE(n, n - b) && a <= n - b);
    auto [s, e] = getSpan(n, HSlice<int, BackwardsIndex>{a, backIndex(b)});
    REQUIRE(s == a); REQUIRE(e == n - b);
}
OBL_THROWS(C13, span_start_outside)(int n, int a, int b) {
    ASSUME(n >= 0 && n < 1000 && !INSIDE(n, a));
    getSpan(n, HSlice<int, int>{a, b});
    violation("a start outside of the container was accepted");
}
OBL_THROWS(C13, span_end_outside)(int n, int a, int b) {
    ASSUME(n >= 0 && n < 1000 && !INSIDE(n, b));
    getSpan(n, HSlice<int, int>{a, b});
    violation("an end outside of the container was accepted");
}
OBL_THROWS(C13, span_backward_end_outside)(int n, int a, int b) {
    ASSUME(n >= 0 && n < 1000);
    LIMIT(b);
    ASSUME(!INSIDE(n, n - b));
    getSpan(n, HSlice<int, BackwardsIndex>{a, backIndex(b)});
    violation("an end outside of the container was accepted");
}
OBL_THROWS(C13, span_is_never_negative)(int n, int a, int b) {
    ASSUME(n >= 0 && n < 1000);
    LIMIT(a); LIMIT(b);
    auto [s, e] = getSpan(n, HSlice<int, BackwardsIndex>{a, backIndex(b)});
    REQUIRE(s <= e + 1);
}
OBL(C13, unchecked_span)(int n, int a, int b) {
    LIMIT(n); LIMIT(b);
    auto [s, e] = getSpan(n, HSlice<int, BackwardsIndex>{a, backIndex(b)}, false);
    REQUIRE(s == a); REQUIRE(e == n - b);
}

// ---- spans
static int cells[6];
#define SPAN(s, n) ASSUME((n) >= 0 && (n) <= 6); Span<int> s{cells, n};
OBL(C13, span_size)(int n) {
    SPAN(s, n)
    REQUIRE(s.size() == n);
    REQUIRE(s.empty() == (n == 0));
    REQUIRE(s.hasData() == (n != 0));
    REQUIRE(s.cdata() == cells);
    REQUIRE((!Span<int>{(int*)nullptr, 0}.hasData()));
}
OBL(C13, span_has)(int n, int i) {
    SPAN(s, n)
    REQUIRE(s.has(i) == INSIDE(n, i));
}
OBL(C13, span_has_backwards)(int n, int i) {
    SPAN(s, n) LIMIT(i);
    REQUIRE(s.has(backIndex(i)) == (1 <= i && i <= n));
    REQUIRE(s.index(backIndex(i)) == n - i);
}
OBL(C13, span_get)(int n, int i) {
    SPAN(s, n)
    auto r = s.get(i);
    REQUIRE(r.has_value() == INSIDE(n, i));
    if (r) { REQUIRE(&r->get() == cells + i); }
}
OBL(C13, span_get_backwards)(int n, int i) {
    SPAN(s, n) LIMIT(i);
    auto r = s.get(backIndex(i));
    REQUIRE(r.has_value() == (1 <= i && i <= n));
    if (r) { REQUIRE(&r->get() == cells + (n - i)); }
}
OBL(C13, span_elements)(int n, int i) {
    SPAN(s, n)
    ASSUME(INSIDE(n, i));
    REQUIRE(&s[i] == cells + i);
    REQUIRE(&s.at(i) == cells + i);
    REQUIRE(&s[backIndex(n - i)] == cells + i);
    REQUIRE(&s.at(backIndex(n - i)) == cells + i);
}
OBL(C13, span_part)(int n, int a, int b) {
    SPAN(s, n)
    ASSUME(INSIDE(n, a) && INSIDE(n, b) && a <= b);
    Span<int> t = s.at(slice(a, b));
    REQUIRE(t.data() == cells + a); REQUIRE(t.size() == b - a + 1);
    Span<int> u = s[slice(a, b)];
    REQUIRE(u.data() == cells + a); REQUIRE(u.size() == b - a + 1);
    Span<int> v = s.at(slice(a, backIndex(n - b)));
    REQUIRE(v.data() == cells + a); REQUIRE(v.size() == b - a + 1);
}
OBL_THROWS(C13, span_part_outside)(int n, int a, int b) {
    SPAN(s, n)
    ASSUME(a <= b && !(INSIDE(n, a) && INSIDE(n, b)));
    (void)s.at(Slice<int>{{a, b}});
    violation("a part outside of the span was accepted");
}
OBL(C13, constant_span_part)(int n, int a, int b) {
    SPAN(s, n)
    ASSUME(0 <= a && a <= b && b < n);
    Span<int> const& k = s;
    Span<int> t = k.at(slice(a, b));
    REQUIRE(t.data() == cells + a && t.size() == b - a + 1);
    Span<int> u = k[slice(a, b)];
    REQUIRE(u.data() == cells + a && u.size() == b - a + 1);
    Span<int> v = k.at(slice(a, backIndex(n - b)));
    REQUIRE(v.data() == cells + a && v.size() == b - a + 1);
}
OBL_THROWS(C13, constant_span_part_outside)(int n, int a, int b) {
    SPAN(s, n)
    LIMIT(a); LIMIT(b);
    ASSUME(0 <= a && a <= b && b >= n);
    Span<int> const& k = s;
    k.at(slice(a, b));
    violation("a part outside of the span was accepted");
}
OBL(C13, span_data_at_offset)(int n, int i) {
    SPAN(s, n)
    int* p = s.dataAtOffset(i);
    if (INSIDE(n, i)) {
        REQUIRE(p == cells + i);
    } else {
        REQUIRE(p == nullptr);
    }
    REQUIRE((Span<int>{(int*)nullptr, 0}.dataAtOffset(i) == nullptr));
}
OBL(C13, span_move_start)(int n, int k) {
    SPAN(s, n)
    ASSUME(INSIDE(n, k));
    s.moveStart(k, cells + 5);
    REQUIRE(s.data() == cells + k);
    REQUIRE(s.size() == n - k);
}
OBL(C13, span_move_start_too_far)(int n, int k) {
    SPAN(s, n)
    ASSUME(k >= n);
    s.moveStart(k, cells + 5);
    REQUIRE(s.size() == 0);
    REQUIRE(!s.hasData());
}
OBL(C13, span_move_window)(int n, int k) {
    SPAN(s, n)
    ASSUME(INSIDE(n, k));
    s.moveStart(k, cells + 5, true);
    REQUIRE(s.data() == cells + k);
    REQUIRE(s.size() == (n < 6 - k ? n : 6 - k));
}
OBL(C13, span_move_end)(int n, int k) {
    SPAN(s, n) LIMIT(k);
    s.moveEnd(k, cells + 5);
    REQUIRE(s.data() == cells);
    REQUIRE(s.size() == (n + k < 0 ? 0 : n + k > 6 ? 6 : n + k));
}
OBL(C13, span_move_window_by_the_end)(int n, int k) {
    SPAN(s, n)
    ASSUME(INSIDE(n, k));
    s.moveEnd(k, cells + 5, true);
    REQUIRE(s.data() == cells + k);
    REQUIRE(s.size() == (n < 6 - k ? n : 6 - k));
}
OBL(C13, span_of_iterators)(int a, int b) {
    ASSUME(0 <= a && a < b && b <= 6);
    using It    = __gnu_cxx::__normal_iterator<int*, std::vector<int>>;
    Span<int> s = IteratorSpan(It{cells + a}, It{cells + b});
    REQUIRE(s.data() == cells + a);
    REQUIRE(s.size() == b - a);
}
