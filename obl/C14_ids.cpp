// @throws range_error|logic_error
#include <hstd/stdlib/dod_base.hpp>
#include "obl.hpp"

using namespace hstd;
using hstd::dod::Id;

DECL_ID_TYPE_MASKED(W64V, W64, u64, 16);
DECL_ID_TYPE_MASKED(W32V, W32, u32, 8);
DECL_ID_TYPE(P64V, P64, u64);
DECL_ID_TYPE(P32V, P32, u32);

constexpr u64 TOP64 = (u64(1) << 48) - 1;
constexpr u32 TOP32 = (u32(1) << 24) - 1;

#define FOR_MASKED(X) X(W64, u64, TOP64, 0xffff, w64) X(W32, u32, TOP32, 0xff, w32)
#define FOR_PLAIN(X) X(P64, u64, ~u64(0), p64) X(P32, u32, ~u32(0), p32)

// ---- index and mask

#define ONE(I, U, TOP, M, n)                                                             \
    OBL(C14, index_##n)(U i) {                                                           \
        ASSUME(i < TOP);                                                                 \
        I id{i};                                                                         \
        REQUIRE(id.getIndex() == i);                                                     \
        REQUIRE(!id.isNil());                                                            \
        REQUIRE(id.getUnmasked() == i + 1);                                              \
        REQUIRE(id.getMask() == 0);                                                      \
        REQUIRE(I::FromValue(id.getValue()) == id);                                      \
    }                                                                                    \
    OBL(C14, masked_##n)(U i, U m) {                                                     \
        ASSUME(i < TOP && m <= M);                                                       \
        auto id = I::FromMaskedIdx(i, m);                                                \
        REQUIRE(id.getIndex() == i);                                                     \
        REQUIRE(id.getMask() == m);                                                      \
        REQUIRE(!id.isNil());                                                            \
    }                                                                                    \
    OBL(C14, parts_##n)(U v) {                                                           \
        auto id = I::FromValue(v);                                                       \
        REQUIRE(id.getUnmasked() <= TOP);                                                \
        REQUIRE(id.getMask() <= M);                                                      \
        REQUIRE(id.getMaskUnshifed() + id.getUnmasked() == v);                           \
        REQUIRE(id.getMaskUnshifed() == id.getMask() * (TOP + 1));                       \
    }                                                                                    \
    OBL(C14, set_mask_keeps_index_##n)(U v, U m) {                                       \
        ASSUME(m <= M);                                                                  \
        auto id = I::FromValue(v);                                                       \
        U    b  = id.getUnmasked();                                                      \
        id.setMask(m);                                                                   \
        REQUIRE(id.getUnmasked() == b);                                                  \
        REQUIRE(id.getMask() == m);                                                      \
    }                                                                                    \
    OBL_THROWS(C14, wide_mask_is_rejected_##n)(U v, U m) {                               \
        ASSUME(m > M);                                                                   \
        auto id = I::FromValue(v);                                                       \
        id.setMask(m);                                                                   \
        violation("mask that does not fit accepted");                                    \
    }                                                                                    \
    OBL(C14, set_unmasked_keeps_mask_##n)(U v, U b) {                                    \
        ASSUME(b <= TOP);                                                                \
        auto id = I::FromValue(v);                                                       \
        U    m  = id.getMask();                                                          \
        id.setUnmasked(b);                                                               \
        REQUIRE(id.getUnmasked() == b);                                                  \
        REQUIRE(id.getMask() == m);                                                      \
    }
FOR_MASKED(ONE)
#undef ONE

#define ONE(I, U, TOP, n)                                                                \
    OBL(C14, index_##n)(U i) {                                                           \
        ASSUME(i < TOP);                                                                 \
        I id{i};                                                                         \
        REQUIRE(id.getIndex() == i);                                                     \
        REQUIRE(!id.isNil());                                                            \
        REQUIRE(id.getUnmasked() == i + 1);                                              \
        REQUIRE(id.getMask() == 0);                                                      \
        REQUIRE(id.getMaskUnshifed() == 0);                                              \
        REQUIRE(I::FromValue(id.getValue()) == id);                                      \
    }                                                                                    \
    OBL(C14, value_##n)(U v, U b) {                                                      \
        auto id = I::FromValue(v);                                                       \
        REQUIRE(id.getUnmasked() == v);                                                  \
        REQUIRE(id.getValue() == v);                                                     \
        id.setUnmasked(b);                                                               \
        REQUIRE(id.getValue() == b);                                                     \
        id.setValue(v);                                                                  \
        REQUIRE(id.getValue() == v);                                                     \
    }
FOR_PLAIN(ONE)
#undef ONE

// ---- nil

#define ONE(I, U, n)                                                                     \
    OBL(C14, nil_##n)(U v) {                                                             \
        REQUIRE(I::Nil().isNil());                                                       \
        auto id = I::FromValue(v);                                                       \
        REQUIRE(id.isNil() == (id.getUnmasked() == 0));                                  \
    }                                                                                    \
    OBL_THROWS(C14, nil_has_no_index_##n)(U v) {                                         \
        auto id = I::FromValue(v);                                                       \
        ASSUME(id.getUnmasked() == 0);                                                   \
        (void)id.getIndex();                                                             \
        violation("nil id has an index");                                                \
    }                                                                                    \
    OBL(C14, order_##n)(U a, U b) {                                                      \
        auto x = I::FromValue(a);                                                        \
        auto y = I::FromValue(b);                                                        \
        REQUIRE((x == y) == (a == b));                                                   \
        REQUIRE((x != y) == (a != b));                                                   \
        REQUIRE((x < y) == (x.getUnmasked() < y.getUnmasked()));                         \
        REQUIRE((x <= y) == (x.getUnmasked() <= y.getUnmasked()));                       \
        REQUIRE((x - y) == U(x.getUnmasked() - y.getUnmasked()));                        \
        REQUIRE(std::hash<I>{}(x) == a);                                                 \
    }                                                                                    \
    OBL(C14, equal_by_whole_value_##n)(U a, U b) {                                       \
        auto x = I##BaseId::FromValue(a);                                                \
        auto y = I##BaseId::FromValue(b);                                                \
        REQUIRE((x == y) == (a == b));                                                   \
        REQUIRE((x != y) == (a != b));                                                   \
    }
ONE(W64, u64, w64)
ONE(W32, u32, w32)
ONE(P64, u64, p64)
ONE(P32, u32, p32)
#undef ONE

// ---- steps

inline u64 advanced(u64 b, int by, u64 top) { return b <= top - u64(by) ? b + u64(by) : top; }
inline u32 advanced(u32 b, int by, u32 top) {
    u64 sum = u64(b) + u64(by);
    return sum <= top ? u32(sum) : top;
}

#define ONE(I, U, TOP, n)                                                                \
    OBL(C14, increment_##n)(U v) {                                                       \
        auto id = I::FromValue(v);                                                       \
        U    b = id.getUnmasked(), m = id.getMask();                                     \
        auto o = id++;                                                                   \
        REQUIRE(o.getValue() == v);                                                      \
        REQUIRE(id.getUnmasked() == (b < TOP ? b + 1 : TOP));                            \
        REQUIRE(id.getMask() == m);                                                      \
        auto k = I::FromValue(v);                                                        \
        auto& r = ++k;                                                                   \
        REQUIRE(&r == &k);                                                               \
        REQUIRE(k.getUnmasked() == (b < TOP ? b + 1 : TOP));                             \
        REQUIRE(k.getMask() == m);                                                       \
    }                                                                                    \
    OBL(C14, decrement_##n)(U v) {                                                       \
        auto id = I::FromValue(v);                                                       \
        U    b = id.getUnmasked(), m = id.getMask();                                     \
        auto o = id--;                                                                   \
        REQUIRE(o.getValue() == v);                                                      \
        REQUIRE(id.getUnmasked() == (b == 0 ? 0 : b - 1));                               \
        REQUIRE(id.getMask() == m);                                                      \
        auto k = I::FromValue(v);                                                        \
        auto& r = --k;                                                                   \
        REQUIRE(&r == &k);                                                               \
        REQUIRE(k.getUnmasked() == (b == 0 ? 0 : b - 1));                                \
        REQUIRE(k.getMask() == m);                                                       \
    }                                                                                    \
    OBL(C14, advance_##n)(U v, int by) {                                                 \
        auto id = I::FromValue(v);                                                       \
        U    b  = id.getUnmasked();                                                      \
        ASSUME(by >= 0);                                                                 \
        auto r = id + by;                                                                \
        REQUIRE(r.getMask() == id.getMask());                                            \
        REQUIRE(r.getUnmasked() == advanced(b, by, TOP));                                \
    }                                                                                    \
    OBL(C14, retreat_##n)(U v, int by) {                                                 \
        auto id = I::FromValue(v);                                                       \
        U    b  = id.getUnmasked();                                                      \
        ASSUME(by < 0 && by > -1000000);                                                 \
        auto r = id + by;                                                                \
        REQUIRE(r.getMask() == id.getMask());                                            \
        REQUIRE(r.getUnmasked() == (b >= U(-by) ? b - U(-by) : 0));                      \
    }                                                                                    \
    OBL(C14, distance_##n)(U v, U w) {                                                   \
        auto x = I::FromValue(v);                                                        \
        auto y = I::FromValue(w);                                                        \
        U    a = x.getUnmasked(), b = y.getUnmasked();                                   \
        REQUIRE(dod::distance(x, y) == (a <= b ? U(b - a) : 0));                         \
        ASSUME(a <= b && b - a < TOP);                                                   \
        REQUIRE(dod::size(Slice<I>{{x, y}}) == b - a + 1);                               \
    }
ONE(W64, u64, TOP64, w64)
ONE(W32, u32, TOP32, w32)
ONE(P64, u64, ~u64(0), p64)
ONE(P32, u32, ~u32(0), p32)
#undef ONE
