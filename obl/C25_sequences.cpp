// @throws range_error|logic_error|out_of_range
#include <hstd/stdlib/Array.hpp>
#include <hstd/stdlib/Ranges.hpp>
#include <hstd/stdlib/Vec.hpp>
#include <hstd/stdlib/algorithms.hpp>
#include <hstd/stdlib/diffs.hpp>
#include <hstd/stdlib/dod_base.hpp>
#include <hstd/stdlib/sequtils.hpp>
#include "obl.hpp"

using namespace hstd;

// ---- the generator itself
static generator<int> three(int a, int b, int c) {
    co_yield a;
    co_yield b;
    co_yield c;
}
static generator<int> nothing(bool v) {
    if (v) { co_return; }
}
static generator<int> sometimes(int a, bool second, int b) {
    co_yield a;
    if (second) { co_yield b; }
}

OBL(C25, generator_yields_in_order_and_ends)(int a, int b, int c) {
    int n = 0;
    for (int x : three(a, b, c)) {
        REQUIRE(n < 3);
        REQUIRE(x == (n == 0 ? a : n == 1 ? b : c));
        ++n;
    }
    REQUIRE(n == 3);
}
OBL(C25, generator_of_nothing_is_empty)() {
    int n = 0;
    for (int x : nothing(true)) { (void)x; ++n; }
    REQUIRE(n == 0);
}
OBL(C25, generator_ends_where_its_body_ends)(int a, bool more, int b) {
    int n = 0;
    for (int x : sometimes(a, more, b)) {
        REQUIRE(x == (n == 0 ? a : b));
        ++n;
    }
    REQUIRE(n == (more ? 2 : 1));
}
OBL(C25, generator_iterators_compare_by_being_done)(int a, int b, int c) {
    auto g  = three(a, b, c);
    auto it = g.begin();
    REQUIRE(it != g.end()); REQUIRE(!(it == g.end()));
    REQUIRE(*it == a);
    REQUIRE(*it == a);
    ++it;
    REQUIRE(*it == b);
    auto const& k = it;
    REQUIRE(*k == b);
    ++it;
    ++it;
    REQUIRE(it == g.end()); REQUIRE(!(it != g.end()));
}
OBL(C25, moved_generator_carries_on)(int a, int b, int c) {
    auto g = three(a, b, c);
    auto h = std::move(g);
    int  n = 0;
    for (int x : h) {
        REQUIRE(x == (n == 0 ? a : n == 1 ? b : c));
        ++n;
    }
    REQUIRE(n == 3);
}
OBL(C25, abandoned_generator_is_released)(int a, int b, int c) {
    for (int x : three(a, b, c)) {
        REQUIRE(x == a);
        break;
    }
}

// ---- sequences over containers
OBL(C25, indexed_get_visits_every_index)(int a, int b) {
    Pair<int, int> v{a, b};
    int            n = 0;
    for (int x : indexed_get_iterator<int, Pair<int, int>>(
             v,
             [](Pair<int, int> const&) -> int { return 2; },
             [](Pair<int, int> const& v, int i) -> int { return i == 0 ? v.first : v.second; })) {
        REQUIRE(n < 2);
        REQUIRE(x == (n == 0 ? a : b));
        ++n;
    }
    REQUIRE(n == 2);
}
OBL(C25, zip_pairs_up_and_runs_to_the_longer_left)(int a, int b, int c) {
    Vec<int> l{a, b};
    Vec<int> r{c};
    int      n = 0;
    for (auto const& [x, y] : zip(l, r)) {
        REQUIRE(n < 2);
        REQUIRE(x == &l[n]);
        REQUIRE(y == (n == 0 ? &r[0] : nullptr));
        ++n;
    }
    REQUIRE(n == 2);
}
OBL(C25, zip_runs_to_the_longer_right)(int a, int b, int c) {
    Vec<int> l{a};
    Vec<int> r{b, c};
    int      n = 0;
    for (auto const& [x, y] : zip(l, r)) {
        REQUIRE(n < 2);
        REQUIRE(y == &r[n]);
        REQUIRE(x == (n == 0 ? &l[0] : nullptr));
        ++n;
    }
    REQUIRE(n == 2);
}
OBL(C25, zip_of_nothing_is_empty)() {
    Vec<int> l, r;
    for (auto const& p : zip(l, r)) { (void)p; violation("an element of zip over empty vectors"); }
}
OBL(C25, zip_to_max_fills_the_shorter_right)(int a, int b, int c, int fill) {
    Vec<int> l{a, b};
    Vec<int> r{c};
    int      n = 0;
    for (auto const& it : zipToMax(l, r, fill)) {
        REQUIRE(n < 2);
        REQUIRE(it.idx == n);
        REQUIRE(it.lhs == (n == 0 ? a : b));
        REQUIRE(it.rhs == (n == 0 ? c : fill));
        ++n;
    }
    REQUIRE(n == 2);
}
OBL(C25, zip_to_max_fills_the_shorter_left)(int a, int b, int c, int fill) {
    Vec<int> l{a};
    Vec<int> r{b, c};
    int      n = 0;
    for (auto const& it : zipToMax(l, r, fill)) {
        REQUIRE(n < 2);
        REQUIRE(it.idx == n);
        REQUIRE(it.lhs == (n == 0 ? a : fill));
        REQUIRE(it.rhs == (n == 0 ? b : c));
        ++n;
    }
    REQUIRE(n == 2);
}
OBL(C25, zip_to_max_says_which_side_is_filled)(int a, int b, int c) {
    Vec<int> l{a, b};
    Vec<int> r{c};
    int      n = 0;
    for (auto const& it : zipToMax(l, r, 0)) {
        REQUIRE(!it.lhsDefault);
        REQUIRE(it.rhsDefault == (n == 1));
        ++n;
    }
    n = 0;
    for (auto const& it : zipToMax(r, l, 0)) {
        REQUIRE(!it.rhsDefault);
        REQUIRE(it.lhsDefault == (n == 1));
        ++n;
    }
}
OBL(C25, carthesian_visits_every_pair)(int a, int b, int c, int d) {
    Vec<int> l{a, b};
    Vec<int> r{c, d};
    int      n = 0;
    for (auto const& [x, y] : carthesian(l, r)) {
        REQUIRE(n < 4);
        REQUIRE(x == &l[n / 2]);
        REQUIRE(y == &r[n % 2]);
        ++n;
    }
    REQUIRE(n == 4);
}
OBL(C25, carthesian_with_nothing_is_empty)(int a, int b) {
    Vec<int> l{a, b};
    Vec<int> r;
    for (auto const& p : carthesian(l, r)) { (void)p; violation("a pair with an empty side"); }
}

DECL_ID_TYPE_MASKED(ItemV, Item, u64, 16);
using Store = dod::Store<Item, int>;
OBL(C25, store_pairs_visits_every_value)(int a, int b) {
    Store s;
    Item  x = s.add(a);
    Item  y = s.add(b);
    int   n = 0;
    for (auto const& it : s.pairs()) {
        REQUIRE(n < 2);
        REQUIRE(it.first == (n == 0 ? x : y));
        REQUIRE(it.second == &s.at(it.first));
        REQUIRE(*it.second == (n == 0 ? a : b));
        ++n;
    }
    REQUIRE(n == 2);
}
OBL(C25, store_items_visits_every_value)(int a, int b) {
    Store s;
    (void)s.add(a); (void)s.add(b);
    Store const& k = s;
    int          n = 0;
    for (int const* it : k.items()) {
        REQUIRE(n < 2);
        REQUIRE(*it == (n == 0 ? a : b));
        ++n;
    }
    REQUIRE(n == 2);
}
OBL(C25, store_items_can_be_written)(int a, int b, int c) {
    Store s;
    Item  x = s.add(a);
    Item  y = s.add(b);
    int   n = 0;
    for (int* it : s.items()) {
        REQUIRE(*it == (n == 0 ? a : b));
        *it = c;
        ++n;
    }
    REQUIRE(n == 2);
    REQUIRE(s.at(x) == c); REQUIRE(s.at(y) == c);
}
OBL(C25, empty_store_yields_nothing)() {
    Store s;
    for (auto const& it : s.pairs()) { (void)it; violation("a pair of an empty store"); }
    for (auto const& it : s.items()) { (void)it; violation("an item of an empty store"); }
}
OBL(C25, typed_array_pairs_visits_every_key)(int v) {
    TypArray<char, int> s;
    for (auto& x : s) { x = v; }
    int n = 0;
    for (auto const& it : s.pairs()) {
        REQUIRE(n < 256);
        REQUIRE(*it.second == v);
        ++n;
        if (256 < n) { break; }
    }
    REQUIRE(n == 256);
}

// ---- views
OBL(C25, generator_view_is_the_generator)(int a, int b, int c) {
    int n = 0;
    for (int x : gen_view(three(a, b, c))) {
        REQUIRE(n < 3);
        REQUIRE(x == (n == 0 ? a : n == 1 ? b : c));
        ++n;
    }
    REQUIRE(n == 3);
}
OBL(C25, owned_range_is_the_range)(int a, int b) {
    int  n = 0;
    auto o = own_view(Vec<int>{a, b});
    for (int x : o) {
        REQUIRE(x == (n == 0 ? a : b));
        ++n;
    }
    REQUIRE(n == 2);
    auto const& k = o;
    n             = 0;
    for (int x : k) {
        REQUIRE(x == (n == 0 ? a : b));
        ++n;
    }
    REQUIRE(n == 2);
}
OBL(C25, collected_range_is_the_range)(int a, int b) {
    Vec<int> v{a, b};
    auto     k = v | make_collect();
    REQUIRE(k.size() == 2); REQUIRE(!k.empty());
    int n = 0;
    for (int x : k) {
        REQUIRE(x == (n == 0 ? a : b));
        ++n;
    }
    REQUIRE(n == 2);
}
struct Maybe {
    long there, held;
    bool has_value() const { return there != 0; }
    long value() const { return held; }
};
OBL(C25, drop_nullopt_keeps_present_values)(long a, long b, long c, long d) {
    Maybe v[2]{{a, b}, {c, d}};
    int   n = 0;
    for (Maybe const& x : v | drop_if_nullopt()) {
        REQUIRE(n < (a != 0) + (c != 0));
        REQUIRE(&x == (n == 0 && a != 0 ? &v[0] : &v[1]));
        ++n;
    }
    REQUIRE(n == (a != 0) + (c != 0));
}
OBL(C25, unpack_optional_gives_the_values)(long b, long d) {
    Maybe v[2]{{1, b}, {1, d}};
    int   n = 0;
    for (long x : v | unpack_optional()) {
        REQUIRE(n < 2);
        REQUIRE(x == (n == 0 ? b : d));
        ++n;
    }
    REQUIRE(n == 2);
}
OBL(C25, pair_first_and_second)(int a, int b, int c, int d) {
    Vec<Pair<int, int>> v{{a, b}, {c, d}};
    int                 n = 0;
    for (int x : v | rv_transform_pair_first) { REQUIRE(x == (n == 0 ? a : c)); ++n; }
    REQUIRE(n == 2);
    n = 0;
    for (int x : v | rv_transform_pair_second) { REQUIRE(x == (n == 0 ? b : d)); ++n; }
    REQUIRE(n == 2);
}
// ---- whole-sequence helpers
OBL(C25, map_applies_to_every_element)(int a, int b) {
    Vec<int> v{a, b};
    auto     r = map(v, [](int x) { return x ^ 5; });
    REQUIRE(r.size() == 2);
    REQUIRE(r[0] == (a ^ 5)); REQUIRE(r[1] == (b ^ 5));
}
OBL(C25, map_of_an_optional)(int a, bool has) {
    Opt<int> v;
    if (has) { v = a; }
    auto r = map(v, [](int x) { return x ^ 5; });
    REQUIRE(r.has_value() == has);
    if (has) { REQUIRE(*r == (a ^ 5)); }
}
OBL(C25, reversed_is_backwards)(int a, int b, int c) {
    Vec<int> v{a, b, c};
    Vec<int> r = reversed(v);
    REQUIRE(v[0] == a); REQUIRE(v[1] == b); REQUIRE(v[2] == c);
    REQUIRE(r.size() == 3);
    REQUIRE(r[0] == c); REQUIRE(r[1] == b); REQUIRE(r[2] == a);
    reverse(v);
    REQUIRE(v[0] == c); REQUIRE(v[1] == b); REQUIRE(v[2] == a);
}
OBL(C25, index_of_finds_the_first)(int a, int b, int c, int x) {
    Vec<int> v{a, b, c};
    REQUIRE(index_of(v, x) == (x == a ? 0 : x == b ? 1 : x == c ? 2 : -1));
}
OBL(C25, all_of_asks_every_element)(bool a, bool b) {
    Array<bool, 2> v;
    v[0] = a;
    v[1] = b;
    REQUIRE(all_of(v, [](bool x) { return x; }) == (a && b));
}
OBL(C25, partition_splits_where_the_value_changes)(int a, int b) {
    Vec<int>             v{a, b};
    Vec<Span<int const>> r = partition<int, int>(v, Func<int(int const&)>([](int const& x) { return x; }));
    if (a == b) {
        REQUIRE(r.size() == 1);
        REQUIRE(r[0].data() == v.data()); REQUIRE(r[0].size() == 2);
    } else {
        REQUIRE(r.size() == 2);
        REQUIRE(r[0].data() == v.data()); REQUIRE(r[0].size() == 1);
        REQUIRE(r[1].data() == v.data() + 1); REQUIRE(r[1].size() == 1);
    }
}
OBL(C25, partition_of_nothing_is_empty)() {
    Vec<int> v;
    REQUIRE((partition<int, int>(v, Func<int(int const&)>([](int const& x) { return x; })).empty()));
}
OBL(C25, typed_array_pairs_follow_the_keys)(unsigned char k, int v) {
    TypArray<unsigned char, int> s;
    s[k] = v;
    auto g  = s.pairs();
    auto it = g.begin();
    REQUIRE((*it).first == 0); REQUIRE((*it).second == s.data());
    ++it;
    REQUIRE((*it).first == 1); REQUIRE((*it).second == s.data() + 1);
}
OBL(C25, typed_array_is_indexed_by_its_key)(unsigned char k) {
    TypArray<unsigned char, int>        s;
    TypArray<unsigned char, int> const& c = s;
    REQUIRE(&s[k] == s.data() + k); REQUIRE(&s.at(k) == s.data() + k);
    REQUIRE(&c[k] == s.data() + k); REQUIRE(&c.at(k) == s.data() + k);
}
