#include <cstdint>
#include <cstdlib>
#include <limits>
#include <hstd/system/basic_templates.hpp>
#include "obl.hpp"
using hstd::value_domain;

typedef signed char        i8;
typedef unsigned char      u8;
typedef short              i16;
typedef unsigned short     u16;
typedef int                i32;
typedef unsigned int       u32;
typedef long               i64;
typedef unsigned long      u64;
typedef __int128           wide;

#define INTS(X) X(i8) X(u8) X(i16) X(u16) X(i32) X(u32) X(i64) X(u64)
#define DOMAIN(T)                                                                        \
    OBL(C18, bounds_enclose_##T)(T v) {                                                  \
        REQUIRE(value_domain<T>::low() <= v && v <= value_domain<T>::high());            \
        REQUIRE(value_domain<T>::low() == std::numeric_limits<T>::min());                \
        REQUIRE(value_domain<T>::high() == std::numeric_limits<T>::max());               \
    }                                                                                    \
    OBL(C18, successor_is_the_next_##T)(T v) {                                           \
        ASSUME(v != value_domain<T>::high());                                            \
        T s = value_domain<T>::succ(v);                                                  \
        REQUIRE(v < s);                                                                  \
        REQUIRE((T)(s - 1) == v);                                                        \
        REQUIRE(value_domain<T>::prev(s) == v);                                          \
    }                                                                                    \
    OBL(C18, predecessor_is_the_previous_##T)(T v) {                                     \
        ASSUME(v != value_domain<T>::low());                                             \
        T s = value_domain<T>::prev(v);                                                  \
        REQUIRE(s < v);                                                                  \
        REQUIRE(value_domain<T>::succ(s) == v);                                          \
    }
INTS(DOMAIN)
#define ORD(T)                                                                           \
    OBL(C18, ordinal_orders_as_the_values_##T)(T a, T b) {                               \
        ASSUME(a <= (u64)std::numeric_limits<long long>::max() || a < 0);                \
        ASSUME(b <= (u64)std::numeric_limits<long long>::max() || b < 0);                \
        REQUIRE((value_domain<T>::ord(a) < value_domain<T>::ord(b)) == (a < b));         \
        REQUIRE((value_domain<T>::ord(a) == value_domain<T>::ord(b)) == (a == b));       \
    }
ORD(i8) ORD(u8) ORD(i16) ORD(u16) ORD(i32) ORD(u32) ORD(u64)
OBL(C18, ordinal_orders_as_the_values_i64)(i64 a, i64 b) {
    REQUIRE((value_domain<i64>::ord(a) < value_domain<i64>::ord(b)) == (a < b));
    REQUIRE((value_domain<i64>::ord(a) == value_domain<i64>::ord(b)) == (a == b));
}
// Characters are numbered as bytes whatever their signedness.
OBL(C18, character_ordinal_is_its_byte)(char c) {
    REQUIRE(value_domain<char>::ord(c) == (long long)(unsigned char)c);
    REQUIRE(value_domain<char>::ord(value_domain<char>::low()) == 0);
    REQUIRE(value_domain<char>::ord(value_domain<char>::high()) == 255);
}
OBL(C18, character_successor_is_the_next_byte)(char c) {
    ASSUME(c != value_domain<char>::high());
    REQUIRE(value_domain<char>::ord(value_domain<char>::succ(c)) == value_domain<char>::ord(c) + 1);
}

// ---- ungapped domains
enum class E8 : u8 { a = 3, b, c, d, e, f, g, h, i, j };
enum class E32 : int { a = -7, b, c, d, e, f = 40 };
using DE8  = hstd::value_domain_ungapped<E8, E8::a, E8::j>;
using DE32 = hstd::value_domain_ungapped<E32, E32::a, E32::f>;
using DI   = hstd::value_domain_ungapped<int, -100, 2000>;
#define UNGAPPED(D, E, U, LOW, HIGH)                                                     \
    OBL(C18, ungapped_##D)(U u) {                                                        \
        ASSUME((U)LOW <= u && u <= (U)HIGH);                                             \
        E v = (E)u;                                                                      \
        REQUIRE(D::low() == LOW);                                                        \
        REQUIRE(D::high() == HIGH);                                                      \
        REQUIRE(D::ord(v) == (long long)u - (long long)LOW);                             \
        REQUIRE(D::ord(D::low()) == 0);                                                  \
        if (v != D::high()) {                                                            \
            REQUIRE(D::ord(D::succ(v)) == D::ord(v) + 1);                                \
            REQUIRE(D::prev(D::succ(v)) == v);                                           \
        }                                                                                \
        if (v != D::low()) {                                                             \
            REQUIRE(D::ord(D::prev(v)) == D::ord(v) - 1);                                \
            REQUIRE(D::succ(D::prev(v)) == v);                                           \
        }                                                                                \
    }
UNGAPPED(DE8, E8, u8, E8::a, E8::j)
UNGAPPED(DE32, E32, int, E32::a, E32::f)
UNGAPPED(DI, int, int, -100, 2000)

// ---- saturating arithmetic
#define SAT(T, O, W)                                                                     \
    OBL(C18, saturating_add_##T##_##O)(T v, O c) {                                       \
        W exact = (W)v + (W)c;                                                           \
        T r     = hstd::saturating_add(v, c);                                            \
        if (exact < (W)std::numeric_limits<T>::min()) {                                  \
            REQUIRE(r == std::numeric_limits<T>::min());                                 \
        } else if ((W)std::numeric_limits<T>::max() < exact) {                           \
            REQUIRE(r == std::numeric_limits<T>::max());                                 \
        } else {                                                                         \
            REQUIRE((W)r == exact);                                                      \
        }                                                                                \
        REQUIRE(hstd::saturating_add_any(v, c) == r);                                    \
    }                                                                                    \
    OBL(C18, saturating_sub_##T##_##O)(T v, O c) {                                       \
        W exact = (W)v - (W)c;                                                           \
        T r     = hstd::saturating_sub(v, c);                                            \
        if (exact < (W)std::numeric_limits<T>::min()) {                                  \
            REQUIRE(r == std::numeric_limits<T>::min());                                 \
        } else if ((W)std::numeric_limits<T>::max() < exact) {                           \
            REQUIRE(r == std::numeric_limits<T>::max());                                 \
        } else {                                                                         \
            REQUIRE((W)r == exact);                                                      \
        }                                                                                \
    }
SAT(i8, i8, int) SAT(i8, i32, i64) SAT(i8, u32, i64) SAT(u8, u8, int) SAT(u8, i32, i64) SAT(u8, u32, i64)
SAT(i16, i16, int) SAT(i16, i32, i64) SAT(u16, u16, int) SAT(u16, i32, i64)
SAT(i32, i32, i64) SAT(i32, u32, i64) SAT(u32, u32, i64) SAT(u32, i32, i64)
SAT(i32, i64, wide) SAT(u32, i64, wide)
SAT(i64, i64, wide) SAT(i64, i32, wide) SAT(u64, u64, wide) SAT(u64, i32, wide)

// ---- defaults
OBL(C18, default_of_serialized_values)() {
    REQUIRE(hstd::SerdeDefaultProvider<int>::get() == 0);
    REQUIRE(hstd::SerdeDefaultProvider<bool>::get() == false);
    REQUIRE(hstd::SerdeDefaultProvider<long>::get() == 0);
}
static_assert(hstd::ImplementsSucc<int> && hstd::ImplementsPrev<int> && hstd::ImplementsLow<int> && hstd::ImplementsHigh<int> && hstd::ImplementsOrd<int>);
