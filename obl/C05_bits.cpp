#include <cstdint>
#include <hstd/system/bit_utils.hpp>
#include <hstd/system/ptr_utils.hpp>
#include "obl.hpp"

// Bit i of a word.
template <typename T>
static inline bool bit(T v, T one) {
    return (v & one) != 0;
}

#define ALL(X) X(std::uint8_t, u8) X(std::uint16_t, u16) X(std::uint32_t, u32) X(std::uint64_t, u64)
#define MASKS(T, N)                                                                      \
    OBL(C05, assign_changes_exactly_the_masked_bits_##N)(T base, T mask, T value) {      \
        T r = hstd::assign_masked<T>(base, mask, value);                                 \
        REQUIRE((T)(r & mask) == (T)(value & mask));                                     \
        REQUIRE((T)(r & (T)~mask) == (T)(base & (T)~mask));                              \
    }                                                                                    \
    OBL(C05, assigned_value_compares_equal_##N)(T base, T mask, T value) {               \
        T r = hstd::assign_masked<T>(base, mask, value);                                 \
        REQUIRE(hstd::masked_equals<T>(r, mask, (T)(value & mask)));                     \
    }                                                                                    \
    OBL(C05, without_clears_exactly_the_masked_bits_##N)(T base, T mask) {               \
        T r = hstd::without_masked_bits<T>(base, mask);                                  \
        REQUIRE((T)(r & mask) == 0);                                                     \
        REQUIRE((T)(r & (T)~mask) == (T)(base & (T)~mask));                              \
    }                                                                                    \
    OBL(C05, equality_looks_at_exactly_the_masked_bits_##N)(T base, T mask, T v) {       \
        REQUIRE(hstd::masked_equals<T>(base, mask, v) == ((T)(base & mask) == v));       \
    }
ALL(MASKS)

// A mask of the top `size` bits: the field extracted from the right is the one
// that was put there.
#define RIGHT(T, N, W, SIZE)                                                             \
    OBL(C05, field_of_##SIZE##_bits_reads_back_##N)(T base, T value) {                   \
        ASSUME(value < (T)(T(1) << SIZE));                                               \
        T mask = (T)((T)((T(1) << SIZE) - 1) << (W - SIZE));                             \
        T word = hstd::assign_masked<T>(base, mask, (T)(value << (W - SIZE)));           \
        REQUIRE(hstd::masked_bits_right<T>(word, mask, SIZE) == value);                  \
    }
RIGHT(std::uint8_t, u8, 8, 1) RIGHT(std::uint8_t, u8, 8, 3) RIGHT(std::uint8_t, u8, 8, 7)
RIGHT(std::uint16_t, u16, 16, 1) RIGHT(std::uint16_t, u16, 16, 8) RIGHT(std::uint16_t, u16, 16, 15)
RIGHT(std::uint32_t, u32, 32, 1) RIGHT(std::uint32_t, u32, 32, 8) RIGHT(std::uint32_t, u32, 32, 24)
RIGHT(std::uint64_t, u64, 64, 1) RIGHT(std::uint64_t, u64, 64, 16) RIGHT(std::uint64_t, u64, 64, 48)

// ---- address ranges
template <typename T>
static inline T const* at(std::uintptr_t base, long i) {
    return reinterpret_cast<T const*>(base) + i;
}
#define RANGE(T, N)                                                                      \
    OBL(C05, block_contains_exactly_its_elements_##N)(T const* start, long i, long n) {  \
        ASSUME(start != nullptr);                                                        \
        ASSUME(0 <= n && n < (1L << 40));                                                \
        ASSUME(-(1L << 40) < i && i < (1L << 40));                                       \
        ASSUME(start + i != nullptr);                                                    \
        bool in = 0 <= i && i < n;                                                       \
        REQUIRE(hstd::is_within_memory_block(start + i, start, (std::size_t)n) == in);   \
        REQUIRE(hstd::is_pointer_valid(start + i, start, (std::size_t)n) == in);         \
    }                                                                                    \
    OBL(C05, null_is_never_valid_##N)(T const* start, long n) {                          \
        ASSUME(0 <= n && n < (1L << 40));                                                \
        REQUIRE(!hstd::is_pointer_valid((T const*)nullptr, start, (std::size_t)n));      \
    }                                                                                    \
    OBL(C05, distance_counts_elements_##N)(T const* start, long i) {                     \
        ASSUME(-(1L << 40) < i && i < (1L << 40));                                       \
        REQUIRE(hstd::pointer_distance(start, start + i) == i);                          \
    }
struct Three { int a, b, c; };
RANGE(char, char) RANGE(int, int) RANGE(double, double) RANGE(Three, struct)
