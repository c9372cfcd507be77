// @throws bad_variant_access
#include <stdexcept>
#include <tuple>
#include <hstd/stdlib/DynVariant.hpp>
#include "obl.hpp"

// ---- a variant whose kind is data, so that every kind is covered at once
enum class K : unsigned short { A, B, C, D };
struct Base {
    int   k;
    long  payload;
    virtual ~Base() = default;
};
struct A : Base { static constexpr K staticKind = K::A; };
struct B : Base { static constexpr K staticKind = K::B; };
struct C : Base { static constexpr K staticKind = K::C; };
struct D : Base { static constexpr K staticKind = K::D; };
struct Tag {
    using base_class                = Base;
    using kind_type                 = K;
    using type_list                 = hstd::type_list_t<A, B, C, D>;
    using types                     = std::tuple<A, B, C, D>;
    static constexpr int type_count = 4;
    static kind_type     get_kind(base_class const* p) { return static_cast<K>(p->k); }
};
using V = hstd::dyn_variant<Tag>;

// An object of unknown address that is really a T.
template <typename T>
static inline bool really(Base* b) {
    return b != nullptr && b->k == static_cast<int>(T::staticKind)
        && dynamic_cast<T*>(b) == static_cast<T*>(b);
}
// Refers to b without taking part in its life time.
static inline V over(Base* b) {
    V v;
    v.data = std::shared_ptr<Base>(std::shared_ptr<void>{}, b);
    return v;
}

template <typename Have, typename Want>
static inline void access(Base* b) {
    constexpr bool same = std::is_same_v<Have, Want>;
    V              v    = over(b);
    V const&       c    = v;
    Want*          want = same ? static_cast<Want*>(b) : nullptr;
    REQUIRE(hstd::get_if<Want>(&v) == want);
    REQUIRE(hstd::get_if<Want>(&c) == want);
    REQUIRE(v.get_if<Want>() == want);
    REQUIRE(hstd::holds_alternative<Want>(c) == same);
    if constexpr (same) {
        REQUIRE(&hstd::get<Want>(v) == want);
        REQUIRE(&hstd::get<Want>(c) == want);
    }
}

#define FOR_HAVE(X) X(A) X(B) X(C) X(D)
#define ACCESS(H)                                                                        \
    OBL(C01, checked_access_when_holding_##H)(Base * b) {                                \
        ASSUME(really<H>(b));                                                            \
        access<H, A>(b);                                                                 \
        access<H, B>(b);                                                                 \
        access<H, C>(b);                                                                 \
        access<H, D>(b);                                                                 \
    }                                                                                    \
    OBL(C01, kind_when_holding_##H)(Base * b) {                                          \
        ASSUME(really<H>(b));                                                            \
        V v = over(b);                                                                   \
        REQUIRE(v.kind() == H::staticKind);                                              \
        REQUIRE(v.index() == static_cast<int>(H::staticKind));                           \
        REQUIRE(v.get() == b);                                                           \
        REQUIRE(static_cast<bool>(v));                                                   \
        REQUIRE(!v.valueless_by_exception());                                            \
    }
FOR_HAVE(ACCESS)

#define REJECT(H, W)                                                                     \
    OBL_THROWS(C01, get_##W##_from_##H##_throws)(Base * b) {                             \
        ASSUME(really<H>(b));                                                            \
        V v = over(b);                                                                   \
        (void)hstd::get<W>(v);                                                           \
        violation("get of an alternative that is not held must throw");                  \
    }                                                                                    \
    OBL_THROWS(C01, const_get_##W##_from_##H##_throws)(Base * b) {                       \
        ASSUME(really<H>(b));                                                            \
        V const v = over(b);                                                             \
        (void)hstd::get<W>(v);                                                           \
        violation("get of an alternative that is not held must throw");                  \
    }
REJECT(A, B) REJECT(B, A) REJECT(A, D) REJECT(C, B) REJECT(D, C) REJECT(D, A)

OBL(C01, empty_holds_nothing)() {
    V        v;
    V const& c = v;
    REQUIRE(hstd::get_if<A>(&v) == nullptr);
    REQUIRE(hstd::get_if<D>(&c) == nullptr);
    REQUIRE(v.get_if<B>() == nullptr);
    REQUIRE(!hstd::holds_alternative<A>(c));
    REQUIRE(!hstd::holds_alternative<C>(c));
    REQUIRE(!static_cast<bool>(v));
    REQUIRE(v.valueless_by_exception());
    REQUIRE(v.get() == nullptr);
}
OBL(C01, null_variant_pointer_yields_null)() {
    REQUIRE(hstd::get_if<A>(static_cast<V*>(nullptr)) == nullptr);
    REQUIRE(hstd::get_if<A>(static_cast<V const*>(nullptr)) == nullptr);
}
OBL_THROWS(C01, get_from_empty_throws)() {
    V v;
    (void)hstd::get<A>(v);
    violation("get from an empty variant must throw");
}
OBL_THROWS(C01, const_get_from_empty_throws)() {
    V const v;
    (void)hstd::get<B>(v);
    violation("get from an empty variant must throw");
}

// ---- visiting
struct Seen {
    int   calls = 0;
    int   which = -1;
    void* at    = nullptr;
};
struct Visitor {
    Seen& seen;
    int   note(int which, Base* at) const {
        ++seen.calls;
        seen.which = which;
        seen.at    = at;
        return 10 + which;
    }
    int operator()(std::shared_ptr<A> const& p) const { return note(0, p.get()); }
    int operator()(std::shared_ptr<B> const& p) const { return note(1, p.get()); }
    int operator()(std::shared_ptr<C> const& p) const { return note(2, p.get()); }
    int operator()(std::shared_ptr<D> const& p) const { return note(3, p.get()); }
};
#define VISIT(H)                                                                         \
    OBL(C01, visit_calls_the_handler_of_##H)(Base * b) {                                 \
        ASSUME(really<H>(b));                                                            \
        V    v = over(b);                                                                \
        Seen s;                                                                          \
        int  r = hstd::dyn_visit(Visitor{s}, v);                                         \
        REQUIRE(s.calls == 1);                                                           \
        REQUIRE(s.which == static_cast<int>(H::staticKind));                             \
        REQUIRE(s.at == b);                                                              \
        REQUIRE(r == 10 + static_cast<int>(H::staticKind));                              \
    }                                                                                    \
    OBL(C01, lvalue_visitor_calls_the_handler_of_##H)(Base * b) {                        \
        ASSUME(really<H>(b));                                                            \
        V             v = over(b);                                                       \
        Seen          s;                                                                 \
        Visitor const vis{s};                                                            \
        int           r = hstd::dyn_visit(vis, v);                                       \
        REQUIRE(s.calls == 1);                                                           \
        REQUIRE(s.which == static_cast<int>(H::staticKind));                             \
        REQUIRE(s.at == b);                                                              \
        REQUIRE(r == 10 + static_cast<int>(H::staticKind));                              \
    }
FOR_HAVE(VISIT)
OBL_THROWS(C01, visit_of_empty_throws_without_calling)() {
    V    v;
    Seen s;
    struct AtUnwind {
        Seen& s;
        ~AtUnwind() { REQUIRE(s.calls == 0); }
    } check{s};
    (void)hstd::dyn_visit(Visitor{s}, v);
    violation("visiting an empty variant must throw");
}

// ---- kinds that agree in some of their bits
enum class W : long long { P = 1, Q = 257, R = 65537, S = 0x100000001, T = -1 };
struct WBase {
    long long k;
    virtual ~WBase() = default;
};
struct WP : WBase { static constexpr W staticKind = W::P; };
struct WQ : WBase { static constexpr W staticKind = W::Q; };
struct WR : WBase { static constexpr W staticKind = W::R; };
struct WS : WBase { static constexpr W staticKind = W::S; };
struct WT : WBase { static constexpr W staticKind = W::T; };
struct WTag {
    using base_class                = WBase;
    using kind_type                 = W;
    using type_list                 = hstd::type_list_t<WP, WQ, WR, WS, WT>;
    using types                     = std::tuple<WP, WQ, WR, WS, WT>;
    static constexpr int type_count = 5;
    static kind_type     get_kind(base_class const* p) { return static_cast<W>(p->k); }
};
using WV = hstd::dyn_variant<WTag>;
template <typename Have, typename Want>
static inline void wide_access(WBase* b) {
    constexpr bool same = std::is_same_v<Have, Want>;
    WV             v;
    v.data         = std::shared_ptr<WBase>(std::shared_ptr<void>{}, b);
    WV const& c    = v;
    Want*     want = same ? static_cast<Want*>(b) : nullptr;
    REQUIRE(hstd::get_if<Want>(&v) == want);
    REQUIRE(hstd::get_if<Want>(&c) == want);
    REQUIRE(v.get_if<Want>() == want);
    REQUIRE(hstd::holds_alternative<Want>(c) == same);
}
#define WIDE(H)                                                                          \
    OBL(C01, access_with_wide_kinds_when_holding_##H)(WBase * b) {                       \
        ASSUME(b != nullptr && b->k == static_cast<long long>(H::staticKind));           \
        wide_access<H, WP>(b);                                                           \
        wide_access<H, WQ>(b);                                                           \
        wide_access<H, WR>(b);                                                           \
        wide_access<H, WS>(b);                                                           \
        wide_access<H, WT>(b);                                                           \
    }
WIDE(WP) WIDE(WQ) WIDE(WR) WIDE(WS) WIDE(WT)

// ---- alternatives whose shared base is not at their start
enum class O : int { X, Y };
struct OBase {
    int k;
    virtual ~OBase() = default;
};
struct Before {
    long first = 0;
    virtual ~Before() = default;
};
struct OX
    : Before
    , OBase {
    static constexpr O staticKind = O::X;
};
struct OY
    : Before
    , OBase {
    long                extra      = 0;
    static constexpr O staticKind = O::Y;
};
struct OTag {
    using base_class                = OBase;
    using kind_type                 = O;
    using type_list                 = hstd::type_list_t<OX, OY>;
    using types                     = std::tuple<OX, OY>;
    static constexpr int type_count = 2;
    static kind_type     get_kind(base_class const* p) { return static_cast<O>(p->k); }
};
using OV = hstd::dyn_variant<OTag>;
template <typename Have, typename Want>
static inline void offset_access(Have* h) {
    constexpr bool same = std::is_same_v<Have, Want>;
    OV             v;
    v.data      = std::shared_ptr<OBase>(std::shared_ptr<void>{}, static_cast<OBase*>(h));
    OV const& c = v;
    void*     want = same ? static_cast<void*>(h) : nullptr;
    REQUIRE(hstd::get_if<Want>(&v) == want);
    REQUIRE(hstd::get_if<Want>(&c) == want);
    REQUIRE(v.get_if<Want>() == want);
    if constexpr (same) {
        REQUIRE(&hstd::get<Want>(v) == want);
        REQUIRE(&hstd::get<Want>(c) == want);
    }
}
#define OFFSET_BASE(H)                                                                   \
    OBL(C01, access_with_offset_base_when_holding_##H)() {                               \
        H h;                                                                             \
        h.k = static_cast<int>(H::staticKind);                                           \
        offset_access<H, OX>(&h);                                                        \
        offset_access<H, OY>(&h);                                                        \
    }
OFFSET_BASE(OX) OFFSET_BASE(OY)

// ---- the tag, base and alternatives written with the macros
struct Shape {
    DEFINE_DYN_VARIANT_BASE_TYPE_BODY(Shape, Kind, getKind, Circle, Square, Line);
};
struct Circle : Shape {
    DEFINE_DYN_VARIANT_DERIVED_TYPE_BODY(Circle, Kind, getKind);
    long r = 0;
    Circle() = default;
    Circle(long r) : r{r} {}
};
struct Square : Shape {
    DEFINE_DYN_VARIANT_DERIVED_TYPE_BODY(Square, Kind, getKind);
    long a = 0, b = 0;
    Square() = default;
    Square(long a, long b) : a{a}, b{b} {}
};
struct Line : Shape {
    DEFINE_DYN_VARIANT_DERIVED_TYPE_BODY(Line, Kind, getKind);
    long len = 0;
};
DEFINE_DYN_VARIANT_TAG(ShapeTag, Shape, Shape::Kind, ptr->getKind(), Circle, Square, Line)
using S = hstd::dyn_variant<ShapeTag>;

static_assert(Circle::staticKind == Shape::Kind::Circle);
static_assert(Square::staticKind == Shape::Kind::Square);
static_assert(Line::staticKind == Shape::Kind::Line);
static_assert(std::is_same_v<ShapeTag::types, std::tuple<Circle, Square, Line>>);
static_assert(std::is_same_v<ShapeTag::type_list, hstd::type_list_t<Circle, Square, Line>>);
static_assert(ShapeTag::type_count == 3);
static_assert(std::is_same_v<ShapeTag::base_class, Shape>);
static_assert(std::is_same_v<ShapeTag::kind_type, Shape::Kind>);
static_assert(std::has_virtual_destructor_v<Shape>);
static_assert(static_cast<int>(Shape::Kind::Circle) == 0);
static_assert(static_cast<int>(Shape::Kind::Square) == 1);
static_assert(static_cast<int>(Shape::Kind::Line) == 2);

OBL(C01, macro_alternatives_report_their_kind)() {
    Circle c;
    Square s;
    Line   l;
    REQUIRE(c.getKind() == Shape::Kind::Circle);
    REQUIRE(s.getKind() == Shape::Kind::Square);
    REQUIRE(l.getKind() == Shape::Kind::Line);
    REQUIRE(ShapeTag::get_kind(&c) == Shape::Kind::Circle);
    REQUIRE(ShapeTag::get_kind(&s) == Shape::Kind::Square);
    REQUIRE(ShapeTag::get_kind(&l) == Shape::Kind::Line);
}
OBL(C01, make_constructs_the_requested_alternative)(long a, long b) {
    S       v = S::make<Square>(a, b);
    Square* q = hstd::get_if<Square>(&v);
    REQUIRE(q != nullptr);
    if (q) {
        REQUIRE(q->a == a);
        REQUIRE(q->b == b);
    }
    REQUIRE(hstd::get_if<Circle>(&v) == nullptr);
}
OBL(C01, holds_the_pointer_it_was_given)() {
    Circle c;
    S      v{std::shared_ptr<Circle>(std::shared_ptr<void>{}, &c)};
    REQUIRE(v.get() == &c);
    REQUIRE(hstd::get_if<Circle>(&v) == &c);
    S copy = v;
    REQUIRE(copy.get() == &c);
}

// ---- construction from an index
struct Counted {
    int& calls;
    template <typename T>
    T operator()() const {
        ++calls;
        return T{};
    }
};
#define FROM_INDEX(I, T)                                                                 \
    OBL(C01, from_index_##I##_is_##T)() {                                                \
        S v = hstd::from_index(ShapeTag{}, I);                                           \
        REQUIRE(v.kind() == T::staticKind);                                              \
        REQUIRE(hstd::get_if<T>(&v) != nullptr);                                         \
    }                                                                                    \
    OBL(C01, from_index_##I##_uses_the_factory_for_##T)() {                              \
        int calls = 0;                                                                   \
        S   v     = hstd::from_index(ShapeTag{}, I, Counted{calls});                     \
        REQUIRE(calls == 1);                                                             \
        REQUIRE(v.kind() == T::staticKind);                                              \
    }
FROM_INDEX(0, Circle)
FROM_INDEX(1, Square)
FROM_INDEX(2, Line)
OBL_THROWS(C01, from_index_rejects_unknown_index)(int i) {
    ASSUME(i < 0 || 3 <= i);
    (void)hstd::from_index(ShapeTag{}, i);
    violation("from_index of an index outside of the alternatives must throw");
}
