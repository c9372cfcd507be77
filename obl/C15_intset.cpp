// @throws range_error|out_of_range
#include <hstd/stdlib/IntSet.hpp>
#include <hstd/system/reflection.hpp>
#include "obl.hpp"

using namespace hstd;

// Values 3..9: ordinals differ from the numbers.
enum class Day : unsigned char { mon = 3, tue, wed, thu, fri, sat, sun };
template <>
struct hstd::value_domain<Day> : value_domain_ungapped<Day, Day::mon, Day::sun> {};
inline Day day(int i) { return static_cast<Day>(i); }

// One of three values; the analysis follows each of them.
inline int one_of(int a, int b, int c) { return any_bool() ? a : any_bool() ? b : c; }
#define A_DAY one_of(4, 5, 9)

#define KIND(T, n, MK, PICK, LO, HI)                                                     \
    OBL(C15, set_starts_empty_##n)() {                                                   \
        int x = PICK;                                                                    \
        IntSet<T> s;                                                                     \
        REQUIRE(s.empty());                                                              \
        REQUIRE(s.size() == 0);                                                          \
        REQUIRE(!s.contains(MK(x)));                                                     \
    }                                                                                    \
    OBL(C15, set_incl_##n)() {                                                           \
        int a = PICK, b = PICK, x = PICK;                                                \
        IntSet<T> s;                                                                     \
        s.incl(MK(a));                                                                   \
        s.incl(MK(b));                                                                   \
        REQUIRE(s.contains(MK(x)) == (x == a || x == b));                                \
        REQUIRE(s.size() == (a == b ? 1 : 2));                                           \
        REQUIRE(!s.empty());                                                             \
    }                                                                                    \
    OBL(C15, set_of_values_##n)() {                                                      \
        int a = PICK, b = PICK, x = PICK;                                                \
        IntSet<T> s{MK(a), MK(b)};                                                       \
        REQUIRE(s.contains(MK(x)) == (x == a || x == b));                                \
    }                                                                                    \
    OBL(C15, set_excl_##n)() {                                                           \
        int a = PICK, b = PICK, c = PICK, x = PICK;                                      \
        IntSet<T> s{MK(a), MK(b)};                                                       \
        s.excl(MK(c));                                                                   \
        REQUIRE(s.contains(MK(x)) == ((x == a || x == b) && x != c));                    \
    }                                                                                    \
    OBL(C15, set_intersection_##n)() {                                                   \
        int a = PICK, b = PICK, c = PICK, x = PICK;                                      \
        IntSet<T> s{MK(a), MK(b)}, t{MK(b), MK(c)};                                      \
        bool p = x == a || x == b, q = x == b || x == c;                                 \
        REQUIRE((s & t).contains(MK(x)) == (p && q));                                    \
    }                                                                                    \
    OBL(C15, set_union_##n)() {                                                          \
        int a = PICK, b = PICK, c = PICK, x = PICK;                                      \
        IntSet<T> s{MK(a), MK(b)}, t{MK(b), MK(c)};                                      \
        bool p = x == a || x == b, q = x == b || x == c;                                 \
        REQUIRE((s | t).contains(MK(x)) == (p || q));                                    \
    }                                                                                    \
    OBL(C15, set_sum_##n)() {                                                            \
        int a = PICK, b = PICK, c = PICK, x = PICK;                                      \
        IntSet<T> s{MK(a), MK(b)}, t{MK(b), MK(c)};                                      \
        bool p = x == a || x == b, q = x == b || x == c;                                 \
        REQUIRE((s + t).contains(MK(x)) == (p || q));                                    \
    }                                                                                    \
    OBL(C15, set_symmetric_difference_##n)() {                                           \
        int a = PICK, b = PICK, c = PICK, x = PICK;                                      \
        IntSet<T> s{MK(a), MK(b)}, t{MK(b), MK(c)};                                      \
        bool p = x == a || x == b, q = x == b || x == c;                                 \
        REQUIRE((s ^ t).contains(MK(x)) == (p != q));                                    \
    }                                                                                    \
    OBL(C15, set_difference_##n)() {                                                     \
        int a = PICK, b = PICK, c = PICK, x = PICK;                                      \
        IntSet<T> s{MK(a), MK(b)}, t{MK(b), MK(c)};                                      \
        bool p = x == a || x == b, q = x == b || x == c;                                 \
        REQUIRE((s - t).contains(MK(x)) == (p && !q));                                   \
    }                                                                                    \
    OBL(C15, set_complement_##n)() {                                                     \
        int a = PICK, b = PICK, x = PICK;                                                \
        IntSet<T> s{MK(a), MK(b)};                                                       \
        bool p = x == a || x == b;                                                       \
        REQUIRE((~s).contains(MK(x)) == (!p));                                           \
    }                                                                                    \
    OBL(C15, set_relations_##n)() {                                                      \
        int a = PICK, b = PICK, c = PICK;                                                \
        IntSet<T> s{MK(a)}, t{MK(b), MK(c)};                                             \
        REQUIRE((s <= t) == (a == b || a == c));                                         \
        REQUIRE(t.contains(s) == (a == b || a == c));                                    \
        REQUIRE((s < t) == ((a == b || a == c) && b != c));                              \
        REQUIRE((s == t) == (a == b && a == c));                                         \
    }                                                                                    \
    OBL(C15, set_overlap_relations_##n)() {                                              \
        int       a = PICK, b = PICK, c = PICK;                                          \
        IntSet<T> s{MK(a), MK(b)}, t{MK(b), MK(c)};                                      \
        REQUIRE((s <= t) == (a == b || a == c));                                         \
        REQUIRE(t.contains(s) == (a == b || a == c));                                    \
        bool same = (a == b || a == c) && (c == a || c == b);                            \
        REQUIRE((s == t) == same);                                                       \
        REQUIRE((s < t) == ((a == b || a == c) && !same));                               \
    }                                                                                    \
    OBL(C15, small_set_iterates_its_values_##n)() {                                      \
        IntSet<T> s{MK(LO), MK(HI)};                                                     \
        auto it = s.begin();                                                             \
        REQUIRE(it != s.end());                                                          \
        REQUIRE(*it == MK(LO));                                                          \
        ++it;                                                                            \
        REQUIRE(it != s.end());                                                          \
        REQUIRE(*it == MK(HI));                                                          \
        ++it;                                                                            \
        REQUIRE(!(it != s.end()));                                                       \
    }

KIND(Day, enum, day, A_DAY, 3, 9)
inline char chr(int i) { return static_cast<char>(i); }
#define A_LETTER one_of(63, 64, 'z')
KIND(char, char, chr, A_LETTER, 0, 'z')
inline signed char sml(int i) { return static_cast<signed char>(i); }
#define A_SMALL one_of(-128, -1, 1)
KIND(signed char, signed, sml, A_SMALL, -128, 1)

OBL(C15, set_of_a_range)() {
    int a = one_of(3, 4, 5), b = one_of(5, 6, 9), x = one_of(4, 6, 9);
    IntSet<Day> s{slice(day(a), day(b))};
    REQUIRE(s.contains(day(x)) == (a <= x && x <= b));
    s.excl(slice(day(a), day(b)));
    REQUIRE(s.empty());
}

// ---- described enumerations: the position in the list is the ordinal
enum class Mood : unsigned char
{
    calm = 9,
    sad  = 2,
    glad = 77,
};
BOOST_DESCRIBE_ENUM(Mood, calm, sad, glad);
OBL(C15, small_described_enum_iterates_its_values)() {
    IntSet<Mood> const s{Mood::glad, Mood::calm};
    REQUIRE(s.contains(Mood::calm) && s.contains(Mood::glad) && !s.contains(Mood::sad));
    REQUIRE(s.size() == 2);
    auto it = s.begin();
    REQUIRE(it != s.end());
    REQUIRE(*it == Mood::calm);
    ++it;
    REQUIRE(it != s.end());
    REQUIRE(*it == Mood::glad);
    ++it;
    REQUIRE(!(it != s.end()));
}
OBL(C15, small_constant_set_iterates_its_values)() {
    IntSet<char> const s{chr(0), chr('k')};
    auto it = s.begin();
    REQUIRE(it != s.end());
    REQUIRE(*it == 0);
    ++it;
    REQUIRE(it != s.end());
    REQUIRE(*it == 'k');
    ++it;
    REQUIRE(!(it != s.end()));
}
