// @throws .
// @stand-ins ghost
#include <hstd/system/string_base.cpp>
#include <hstd/system/string_convert.hpp>
#include "obl.hpp"

/// n elements, numbered from 0
struct Items {
    int n;
    struct iterator {
        int     i;
        Element operator*() const { return Element{i}; }
        iterator& operator++() {
            ++i;
            return *this;
        }
        bool operator!=(iterator const& o) const { return i != o.i; }
        bool operator==(iterator const& o) const { return i == o.i; }
    };
    iterator    begin() const { return {0}; }
    iterator    end() const { return {n}; }
    std::size_t size() const { return n; }
    bool        empty() const { return n == 0; }
};

static std::string separator() {
    std::string s;
    s.kind = ghost::Sep;
    return s;
}

OBL(C21, join_puts_the_separator_between_neighbours)(int n) {
    ASSUME(0 < n && n < (1 << 29));
    std::string r = hstd::join(separator(), Items{n});
    REQUIRE(r.kind == ghost::Run);
    REQUIRE(r.a == 0);
    REQUIRE(r.b == n);
    REQUIRE(r.lead == 0);
    REQUIRE(r.trail == 0);
}
OBL(C21, small_join_of_up_to_three)(int n) {
    ASSUME(0 < n && n < 4);
    std::string r = hstd::join(separator(), Items{n});
    REQUIRE(r.kind == ghost::Run);
    REQUIRE(r.a == 0);
    REQUIRE(r.b == n);
    REQUIRE(r.lead == 0);
    REQUIRE(r.trail == 0);
}
OBL(C21, join_of_nothing_is_empty)() {
    std::string r = hstd::join(separator(), Items{0});
    REQUIRE(r.kind == ghost::Empty);
}
OBL(C21, join_leaves_the_separator_alone)(int n) {
    ASSUME(0 <= n && n < (1 << 29));
    std::string s = separator();
    (void)hstd::join(s, Items{n});
    REQUIRE(s.kind == ghost::Sep);
}

template <typename T>
static inline void hex(T v) {
    std::string r = format_string_to_hex<T>(v);
    REQUIRE(r.kind == ghost::Number);
    REQUIRE(r.a == (long long)v);
    REQUIRE(r.b == 16);
    REQUIRE(r.width == 2 * (int)sizeof(T));
    REQUIRE(r.zero);
    REQUIRE(r.upper);
}
template <typename T>
static inline void bin(T v) {
    std::string r = format_string_to_bin<T>(v);
    REQUIRE(r.kind == ghost::Number);
    REQUIRE(r.a == (long long)v);
    REQUIRE(r.b == 2);
    REQUIRE(r.width == 8 * (int)sizeof(T));
    REQUIRE(r.zero);
}
#define NUM(name, T)                                                                     \
    OBL(C21, hex_##name)(T v) { hex<T>(v); }                                             \
    OBL(C21, bin_##name)(T v) { bin<T>(v); }
NUM(int, int)
NUM(uint, unsigned int)
NUM(long, long)
NUM(ulong, unsigned long)
NUM(llong, long long)
NUM(ullong, unsigned long long)
NUM(char, char)
NUM(uchar, unsigned char)
NUM(short, short)
NUM(ushort, unsigned short)
