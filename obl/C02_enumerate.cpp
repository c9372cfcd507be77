// @throws domain_error
#include <hstd/stdlib/Enumerate.hpp>
#include "obl.hpp"
#include <list>
#include <map>

// Iterator over the integers: dereferencing it yields its position, so the
// element that an enumerator hands out tells where it was read from.
struct Sym {
    using iterator_category = std::random_access_iterator_tag;
    using value_type        = long;
    using difference_type   = long;
    using reference         = long;
    using pointer           = long*;
    long pos;
    long operator*() const { return pos; }
    Sym& operator++() { return ++pos, *this; }
    Sym  operator++(int) { return Sym{pos++}; }
    Sym& operator--() { return --pos, *this; }
    Sym  operator--(int) { return Sym{pos--}; }
    Sym& operator+=(long n) { return pos += n, *this; }
    Sym& operator-=(long n) { return pos -= n, *this; }
    long operator[](long n) const { return pos + n; }
    friend Sym  operator+(Sym a, long n) { return {a.pos + n}; }
    friend Sym  operator+(long n, Sym a) { return {a.pos + n}; }
    friend Sym  operator-(Sym a, long n) { return {a.pos - n}; }
    friend long operator-(Sym a, Sym b) { return a.pos - b.pos; }
    friend auto operator<=>(Sym, Sym) = default;
};

using E = hstd::enumerator_impl<Sym>;

static inline int clampi(int v, int lo, int hi) { return v < lo ? lo : hi < v ? hi : v; }

#define BIG (1 << 30)
// A sequence of n elements, f skipped at the start and l at the end.
#define SETUP                                                                            \
    ASSUME(0 <= n && n < BIG);                                                           \
    E   e = E{Sym{0}, Sym{n}}.skip_first(f).skip_last(l);                                \
    int F = clampi(f, 0, n);                                                             \
    int L = clampi(l, 0, n - F);                                                         \
    int S = n - F - L;

// The k-th item of the iteration.
#define AT                                                                               \
    SETUP;                                                                               \
    ASSUME(0 <= k && k < S);                                                             \
    auto it = e.begin();                                                                 \
    for (int i = 0; i < k; ++i) { ++it; }                                                \
    auto item = *it;

#define ARGS int n, int f, int l

OBL(C02, starts_after_skipped_prefix)(ARGS) { SETUP; REQUIRE((*e.begin()).value() == F); }
OBL(C02, ends_before_skipped_suffix)(ARGS) { SETUP; REQUIRE((*e.end()).value() == n - L); }
OBL(C02, empty_range_is_not_entered)(ARGS) { SETUP; ASSUME(S == 0); REQUIRE(!(e.begin() != e.end())); }
OBL(C02, value_of_kth)(ARGS, int k) { AT; REQUIRE(item.value() == F + k); }
OBL(C02, const_value_of_kth)(ARGS, int k) { AT; auto const& c = item; REQUIRE(c.value() == F + k); }
OBL(C02, index_of_kth)(ARGS, int k) { AT; REQUIRE(item.index() == k); }
OBL(C02, base_index_of_kth)(ARGS, int k) { AT; REQUIRE(item.base_index() == F + k); }
OBL(C02, size_counts_visited)(ARGS, int k) { AT; REQUIRE(item.size() == S); }
OBL(C02, is_first_iff_first)(ARGS, int k) { AT; REQUIRE(item.is_first() == (k == 0)); }
OBL(C02, is_last_iff_last)(ARGS, int k) { AT; REQUIRE(item.is_last() == (k == S - 1)); }
OBL(C02, does_not_stop_early)(ARGS, int k) { AT; REQUIRE(it != e.end()); }
OBL(C02, stops_at_end)(ARGS) {
    SETUP;
    auto it = e.begin();
    for (int i = 0; i < S; ++i) { ++it; }
    REQUIRE(!(it != e.end()));
}
OBL(C02, base_size_is_whole_sequence)(ARGS) { SETUP; REQUIRE(e.base_size() == n); }
OBL(C02, skips_do_not_depend_on_order)(ARGS) {
    ASSUME(0 <= n && n < BIG);
    E a = E{Sym{0}, Sym{n}}.skip_first(f).skip_last(l);
    E b = E{Sym{0}, Sym{n}}.skip_last(l).skip_first(f);
    REQUIRE((*a.begin()).value() == (*b.begin()).value());
    REQUIRE((*a.end()).value() == (*b.end()).value());
}

#define OFFSET ASSUME(-BIG <= o && o <= BIG);
OBL(C02, next_in_range)(ARGS, int k, int o) { AT; OFFSET; ASSUME(0 <= k + o && k + o < S); REQUIRE(item.next(o) == F + k + o); }
OBL(C02, prev_in_range)(ARGS, int k, int o) { AT; OFFSET; ASSUME(0 <= k - o && k - o < S); REQUIRE(item.prev(o) == F + k - o); }
OBL(C02, const_next_in_range)(ARGS, int k, int o) { AT; OFFSET; ASSUME(0 <= k + o && k + o < S); auto const& c = item; REQUIRE(c.next(o) == F + k + o); }
OBL(C02, const_prev_in_range)(ARGS, int k, int o) { AT; OFFSET; ASSUME(0 <= k - o && k - o < S); auto const& c = item; REQUIRE(c.prev(o) == F + k - o); }
OBL(C02, default_next_is_one_ahead)(ARGS, int k) { AT; ASSUME(k + 1 < S); REQUIRE(item.next() == F + k + 1); }
OBL(C02, default_prev_is_one_back)(ARGS, int k) { AT; ASSUME(0 < k); REQUIRE(item.prev() == F + k - 1); }

OBL(C02, const_default_next_is_one_ahead)(ARGS, int k) { AT; ASSUME(k + 1 < S); auto const& c = item; REQUIRE(c.next() == F + k + 1); }
OBL(C02, const_default_prev_is_one_back)(ARGS, int k) { AT; ASSUME(0 < k); auto const& c = item; REQUIRE(c.prev() == F + k - 1); }

#define MUST_THROW(cond, expr)                                                           \
    ASSUME(cond);                                                                        \
    (void)(expr);                                                                        \
    violation(#expr " must throw when " #cond)
OBL_THROWS(C02, next_out_of_range)(ARGS, int k, int o) { AT; OFFSET; MUST_THROW(k + o < 0 || S <= k + o, item.next(o)); }
OBL_THROWS(C02, prev_out_of_range)(ARGS, int k, int o) { AT; OFFSET; MUST_THROW(k - o < 0 || S <= k - o, item.prev(o)); }
OBL_THROWS(C02, const_next_out_of_range)(ARGS, int k, int o) { AT; OFFSET; auto const& c = item; MUST_THROW(k + o < 0 || S <= k + o, c.next(o)); }
OBL_THROWS(C02, const_prev_out_of_range)(ARGS, int k, int o) { AT; OFFSET; auto const& c = item; MUST_THROW(k - o < 0 || S <= k - o, c.prev(o)); }

// ---- the function that makes an enumerator
struct Seq {
    using const_iterator = Sym;
    using iterator       = Sym;
    long           from, to;
    const_iterator begin() const { return Sym{from}; }
    const_iterator end() const { return Sym{to}; }
};
OBL(C02, enumerator_covers_the_whole_sequence)(int n, int b) {
    ASSUME(0 <= n && n < BIG && -BIG < b && b < BIG);
    Seq  s{b, long(b) + n};
    auto e = hstd::enumerator(s);
    REQUIRE(e.base_size() == n);
    REQUIRE((*e.begin()).value() == b);
    REQUIRE((*e.end()).value() == long(b) + n);
}
OBL(C02, range_for_visits_every_element_once)(int n, int b) {
    ASSUME(0 <= n && n < BIG && -BIG < b && b < BIG);
    Seq  s{b, long(b) + n};
    long k = 0;
    for (auto const& it : hstd::enumerator(s)) {
        REQUIRE(it.value() == b + k);
        REQUIRE(it.index() == k);
        ++k;
    }
    REQUIRE(k == n);
}
// Sequences without random access can be enumerated as well.
int list_can_be_enumerated(std::list<int> const& l, std::map<int, int> const& m) {
    int r = 0;
    for (auto const& it : hstd::enumerator(l).skip_first(1).skip_last(1)) { r += it.value() + it.index() + it.is_last() + it.base_index() + it.size(); }
    for (auto const& it : hstd::enumerator(m)) { r += it.value().second + it.is_first(); }
    return r;
}
