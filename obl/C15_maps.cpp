// @throws range_error|key_error|out_of_range
// @stand-ins maps
#include <hstd/stdlib/Map.hpp>
#include <hstd/stdlib/Set.hpp>
#include "obl.hpp"

using namespace hstd;

// One of three keys; the analysis follows each of them.
inline int pick() { return any_bool() ? 4 : any_bool() ? -7 : 11; }

#define KIND(Map, n)                                                                     \
    OBL(C15, map_starts_empty_##n)() {                                                   \
        int k = pick();                                                                  \
        Map m;                                                                           \
        REQUIRE(m.size() == 0);                                                          \
        REQUIRE(m.empty());                                                              \
        REQUIRE(!m.contains(k));                                                         \
        REQUIRE(!m.get(k).has_value());                                                  \
        REQUIRE(m.keys().empty());                                                       \
        REQUIRE(m.values().empty());                                                     \
    }                                                                                    \
    OBL(C15, map_contains_its_keys_##n)(int x, int y) {                                  \
        int a = pick(), b = pick(), k = pick();                                          \
        Map m;                                                                           \
        m.insert_or_assign(a, x);                                                        \
        m.insert_or_assign(b, y);                                                        \
        Map const& c = m;                                                                \
        REQUIRE(c.contains(k) == (k == a || k == b));                                    \
        REQUIRE(c.size() == (a == b ? 1 : 2));                                           \
    }                                                                                    \
    OBL(C15, map_get_##n)(int x, int y) {                                                \
        int a = pick(), b = pick(), k = pick();                                          \
        Map m;                                                                           \
        m.insert_or_assign(a, x);                                                        \
        m[b] = y;                                                                        \
        auto r = m.get(k);                                                               \
        REQUIRE(r.has_value() == (k == a || k == b));                                    \
        if (r) { REQUIRE(*r == (k == b ? y : x)); }                                      \
        REQUIRE(m.contains(k) == (k == a || k == b));                                    \
    }                                                                                    \
    OBL_THROWS(C15, map_at_##n)(int x, int y) {                                          \
        int a = pick(), b = pick(), k = pick();                                          \
        Map m;                                                                           \
        m.insert_or_assign(a, x);                                                        \
        m.insert_or_assign(b, y);                                                        \
        int r = m.at(k);                                                                 \
        REQUIRE(k == a || k == b);                                                       \
        REQUIRE(r == (k == b ? y : x));                                                  \
        m.at(k) = 17;                                                                    \
        Map const& c = m;                                                                \
        REQUIRE(c.at(k) == 17);                                                          \
    }                                                                                    \
    OBL(C15, map_at_present_##n)(int x, int y) {                                         \
        int a = pick(), b = pick();                                                      \
        Map m;                                                                           \
        m.insert_or_assign(a, x);                                                        \
        m.insert_or_assign(b, y);                                                        \
        Map const& c = m;                                                                \
        REQUIRE(m.at(b) == y);                                                           \
        REQUIRE(c.at(a) == (a == b ? y : x));                                            \
    }                                                                                    \
    OBL(C15, map_get_or_insert_##n)(int x, int y) {                                      \
        int a = pick(), k = pick();                                                      \
        Map m;                                                                           \
        m.insert_or_assign(a, x);                                                        \
        int& r = m.get_or_insert(k, y);                                                  \
        REQUIRE(r == (k == a ? x : y));                                                  \
        REQUIRE(m.contains(k));                                                          \
        REQUIRE(m.contains(a));                                                          \
        REQUIRE(m.size() == (k == a ? 1 : 2));                                           \
        r = 23;                                                                          \
        REQUIRE(m.get(k) == 23);                                                         \
    }                                                                                    \
    OBL(C15, map_pop_##n)(int x, int y) {                                                \
        int a = pick(), b = pick(), k = pick();                                          \
        Map m;                                                                           \
        m.insert_or_assign(a, x);                                                        \
        m.insert_or_assign(b, y);                                                        \
        auto r = m.pop_opt(k);                                                           \
        REQUIRE(r.has_value() == (k == a || k == b));                                    \
        if (r) { REQUIRE(*r == (k == b ? y : x)); }                                      \
        REQUIRE(!m.contains(k));                                                         \
        REQUIRE(m.contains(a) == (a != k));                                              \
        REQUIRE(m.contains(b) == (b != k));                                              \
    }                                                                                    \
    OBL_THROWS(C15, map_insert_unique_##n)(int x, int y) {                               \
        int a = pick(), k = pick();                                                      \
        Map m;                                                                           \
        m.insert_or_assign(a, x);                                                        \
        m.insert_unqiue(k, y);                                                           \
        REQUIRE(k != a);                                                                 \
        REQUIRE(m.get(k) == y);                                                          \
        REQUIRE(m.get(a) == x);                                                          \
    }                                                                                    \
    OBL(C15, map_insert_unique_of_new_key_##n)(int x, int y) {                           \
        int a = pick(), k = pick();                                                      \
        ASSUME(a != k);                                                                  \
        Map m;                                                                           \
        m.insert_or_assign(a, x);                                                        \
        m.insert_unqiue(k, y);                                                           \
        REQUIRE(m.size() == 2);                                                          \
    }                                                                                    \
    OBL(C15, map_keys_and_values_##n)(int x, int y) {                                    \
        int a = pick(), b = pick();                                                      \
        ASSUME(a != b);                                                                  \
        Map m;                                                                           \
        m.insert_or_assign(a, x);                                                        \
        m.insert_or_assign(b, y);                                                        \
        auto k = m.keys();                                                               \
        auto v = m.values();                                                             \
        REQUIRE(k.size() == 2);                                                          \
        REQUIRE(v.size() == 2);                                                          \
        REQUIRE((k[0] == a && k[1] == b) || (k[0] == b && k[1] == a));                   \
        REQUIRE(v[0] == (k[0] == a ? x : y));                                            \
        REQUIRE(v[1] == (k[1] == a ? x : y));                                            \
    }

using Hashed = UnorderedMap<int, int>;
using Sorted = SortedMap<int, int>;
KIND(Hashed, hashed)
KIND(Sorted, sorted)

OBL(C15, sorted_map_orders_its_keys)() {
    int    a = pick(), b = pick();
    Sorted m;
    m[a]   = 1;
    m[b]   = 2;
    auto k = m.keys();
    REQUIRE(k.size() < 2 || k[0] < k[1]);
}

using Set = UnorderedSet<int>;
#define TWO_AND_TWO                                                                      \
    int  a = 4, b = any_bool() ? 4 : -7, c = pick(), x = pick();                         \
    Set  s{a, b}, t{b, c};                                                               \
    bool p = x == a || x == b, q = x == b || x == c;

OBL(C15, set_incl_hashed)() {
    int a = pick(), b = pick(), x = pick();
    Set s;
    REQUIRE(s.empty()); REQUIRE(!s.contains(x));
    s.incl(a);
    s.incl(b);
    REQUIRE(s.contains(x) == (x == a || x == b));
    REQUIRE(s.size() == (a == b ? 1 : 2));
}
OBL(C15, set_excl_hashed)() {
    int a = pick(), b = pick(), c = pick(), x = pick();
    Set s{a, b};
    s.excl(c);
    REQUIRE(s.contains(x) == ((x == a || x == b) && x != c));
}
OBL(C15, set_incl_of_a_set_hashed)() {
    TWO_AND_TWO
    s.incl(t);
    REQUIRE(s.contains(x) == (p || q)); REQUIRE(t.contains(x) == q);
}
OBL(C15, set_excl_of_a_set_hashed)() {
    TWO_AND_TWO
    s.excl(t);
    REQUIRE(s.contains(x) == (p && !q)); REQUIRE(t.contains(x) == q);
}
OBL(C15, set_intersection_hashed)() { TWO_AND_TWO REQUIRE((s & t).contains(x) == (p && q)); }
OBL(C15, set_union_hashed)() { TWO_AND_TWO REQUIRE((s | t).contains(x) == (p || q)); }
OBL(C15, set_sum_hashed)() { TWO_AND_TWO REQUIRE((s + t).contains(x) == (p || q)); }
OBL(C15, set_symmetric_difference_hashed)() { TWO_AND_TWO REQUIRE((s ^ t).contains(x) == (p != q)); }
OBL(C15, set_difference_hashed)() { TWO_AND_TWO REQUIRE((s - t).contains(x) == (p && !q)); }
OBL(C15, set_equality_hashed)() {
    TWO_AND_TWO
    REQUIRE((s == t) == ((a == b || a == c) && (c == b || c == a)));
}
OBL(C15, set_items_hashed)() {
    int a = pick(), b = pick();
    ASSUME(a != b);
    Set  s{a, b};
    auto v = s.items();
    REQUIRE(v.size() == 2);
    REQUIRE((v[0] == a && v[1] == b) || (v[0] == b && v[1] == a));
}
OBL(C15, set_from_vec_hashed)() {
    int      a = pick(), b = pick(), x = pick();
    Vec<int> v{a, b};
    Set      s = Set::FromVec(v);
    REQUIRE(s.contains(x) == (x == a || x == b));
}
OBL(C15, set_from_iterable_hashed)() {
    int      a = pick(), b = pick(), x = pick();
    Vec<int> v{a, b};
    Set      s = Set::FromIterable(v);
    REQUIRE(s.contains(x) == (x == a || x == b));
}

#define ADAPTED(Map, n)                                                                  \
    OBL(C15, adapted_map_##n)(int x, int y) {                                            \
        int a = pick(), b = pick(), k = pick();                                          \
        Map m;                                                                           \
        AssociativeContainerAdapter<Map> w{&m};                                          \
        w.insert_or_assign_impl(a, x);                                                   \
        w.insert_or_assign_impl(b, y);                                                   \
        REQUIRE(m.size() == (a == b ? 1 : 2));                                           \
        REQUIRE(w.size_impl() == (a == b ? 1 : 2));                                      \
        REQUIRE(w.contains_impl(k) == (k == a || k == b));                               \
        REQUIRE(w.at_impl(a) == (a == b ? y : x));                                       \
        REQUIRE(w.at_impl(b) == y);                                                      \
        w.clear_impl();                                                                  \
        REQUIRE(m.size() == 0);                                                          \
    }                                                                                    \
    OBL(C15, adapted_map_adds_##n)(int x) {                                              \
        int a = pick(), k = pick();                                                      \
        Map m;                                                                           \
        SequentialContainerAdapter<Map> w{&m};                                           \
        w.add_impl({a, x});                                                              \
        REQUIRE(m.size() == 1);                                                          \
        REQUIRE(m.contains(k) == (k == a));                                              \
        auto it = w.begin_impl();                                                        \
        REQUIRE(it != w.end_impl());                                                     \
        REQUIRE(it->first == a);                                                         \
        REQUIRE(it->second == x);                                                        \
    }
typedef UnorderedMap<int, int> HashedInts;
ADAPTED(HashedInts, hashed)
