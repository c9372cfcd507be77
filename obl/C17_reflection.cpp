// @throws out_of_range
#include <hstd/system/reflection.hpp>
#include "obl.hpp"

// ---- described enumerations: not starting at zero, with gaps, not sorted
enum class Hue : int
{
    Red   = 7,
    Green = 3,
    Blue  = 40,
};
BOOST_DESCRIBE_ENUM(Hue, Red, Green, Blue);

enum class Lone : unsigned char
{
    Only = 200,
};
BOOST_DESCRIBE_ENUM(Lone, Only);

enum class Letters
{
    a,
    A,
    b,
    B,
};
BOOST_DESCRIBE_ENUM(Letters, a, A, b, B);

template <typename E>
using D = hstd::value_domain<E>;

OBL(C17, enumeration_bounds_are_first_and_last_listed)() {
    REQUIRE(D<Hue>::low() == Hue::Red);
    REQUIRE(D<Hue>::high() == Hue::Blue);
    REQUIRE(D<Lone>::low() == Lone::Only);
    REQUIRE(D<Lone>::high() == Lone::Only);
    REQUIRE(D<Letters>::low() == Letters::a);
    REQUIRE(D<Letters>::high() == Letters::B);
}
OBL(C17, enumeration_ordinals_count_from_zero_in_order)() {
    REQUIRE(D<Hue>::ord(Hue::Red) == 0);
    REQUIRE(D<Hue>::ord(Hue::Green) == 1);
    REQUIRE(D<Hue>::ord(Hue::Blue) == 2);
    REQUIRE(D<Lone>::ord(Lone::Only) == 0);
    REQUIRE(D<Letters>::ord(Letters::B) == 3);
}
OBL(C17, value_outside_the_enumeration_has_no_ordinal)(int v) {
    ASSUME(v != 7 && v != 3 && v != 40);
    REQUIRE(D<Hue>::ord(static_cast<Hue>(v)) == -1);
}
OBL(C17, enumeration_successor_and_predecessor_step_once)() {
    REQUIRE(D<Hue>::succ(Hue::Red) == Hue::Green);
    REQUIRE(D<Hue>::succ(Hue::Green) == Hue::Blue);
    REQUIRE(D<Hue>::prev(Hue::Blue) == Hue::Green);
    REQUIRE(D<Hue>::prev(Hue::Green) == Hue::Red);
    REQUIRE(D<Letters>::succ(Letters::b) == Letters::B);
    REQUIRE(D<Letters>::prev(Letters::A) == Letters::a);
}
OBL(C17, enumerators_are_listed_in_order)() {
    constexpr auto a = hstd::describe_enumerators_as_array<Hue>();
    static_assert(a.size() == 3);
    REQUIRE(a[0] == Hue::Red && a[1] == Hue::Green && a[2] == Hue::Blue);
}
OBL(C17, enumerator_names_parse_to_their_values)() {
    REQUIRE(boost::describe::string_to_enum<Hue>("Red") == Hue::Red);
    REQUIRE(boost::describe::string_to_enum<Hue>("Green") == Hue::Green);
    REQUIRE(boost::describe::string_to_enum<Hue>("Blue") == Hue::Blue);
    REQUIRE(boost::describe::string_to_enum<Letters>("a") == Letters::a);
    REQUIRE(boost::describe::string_to_enum<Letters>("A") == Letters::A);
    REQUIRE(boost::describe::string_to_enum<Letters>("B") == Letters::B);
}
OBL(C17, enumerator_names_parse_back)() {
    using S = hstd::enum_serde<Hue>;
    REQUIRE(S::from_string("Red") == Hue::Red);
    REQUIRE(S::from_string("Green") == Hue::Green);
    REQUIRE(S::from_string("Blue") == Hue::Blue);
}
OBL(C17, enumerator_prints_its_name)() {
    using S = hstd::enum_serde<Hue>;
    REQUIRE(S::to_string(Hue::Red) == "Red");
    REQUIRE(S::to_string(Hue::Green) == "Green");
    REQUIRE(S::to_string(Hue::Blue) == "Blue");
    REQUIRE(hstd::enum_to_string(Hue::Blue) == "Blue");
}
OBL_CONTAINS(C17, unknown_name_is_refused)() {
    using S = hstd::enum_serde<Hue>;
    REQUIRE(!S::from_string("red").has_value());
    REQUIRE(!S::from_string("Rex").has_value());
    REQUIRE(!S::from_string("Reda").has_value());
    REQUIRE(!S::from_string("Greenish").has_value());
    REQUIRE(!S::from_string("GREEN").has_value());
}

// ---- fields
struct BaseA {
    int a1;
    int a2;
    BOOST_DESCRIBE_CLASS(BaseA, (), (a1, a2), (), ());
};
struct BaseB {
    long b1;
    BOOST_DESCRIBE_CLASS(BaseB, (), (b1), (), ());
};
struct MidA : BaseA {
    int m1;
    BOOST_DESCRIBE_CLASS(MidA, (BaseA), (m1), (), ());
};
struct Leaf
    : MidA
    , BaseB {
    short l1;
    int   l2;
    BOOST_DESCRIBE_CLASS(Leaf, (MidA, BaseB), (l1, l2), (), ());
};
struct Hidden {
    int open;
    Hidden(int a, int b, int c) : open{a}, guarded{b}, closed{c} {}
    static constexpr auto guarded_ptr() { return &Hidden::guarded; }
    static constexpr auto closed_ptr() { return &Hidden::closed; }
    int const*            at_guarded() const { return &guarded; }
    int const*            at_closed() const { return &closed; }

  protected:
    int guarded;

  private:
    int closed;
    BOOST_DESCRIBE_CLASS(Hidden, (), (open), (guarded), (closed));
};
struct Nothing {
    BOOST_DESCRIBE_CLASS(Nothing, (), (), (), ());
};
struct Undescribed {
    int x;
};

// The order in which fields were seen, one letter each.
struct Seen {
    unsigned long mask = 0;
    void          put(char const* name) {
        mask = mask * 256 + (unsigned char)(name[0]) * 16 - 96 * 16
             + ((unsigned char)(name[1]) - '0');
    }
};
constexpr unsigned long fld(char c, int i) { return (c - 96) * 16 + i; }
template <typename... T>
constexpr unsigned long seq(T... v) {
    unsigned long r = 0;
    ((r = r * 256 + v), ...);
    return r;
}
constexpr auto PRE = seq(
    fld('a', 1),
    fld('a', 2),
    fld('m', 1),
    fld('b', 1),
    fld('l', 1),
    fld('l', 2));
constexpr auto POST = seq(
    fld('l', 1),
    fld('l', 2),
    fld('m', 1),
    fld('a', 1),
    fld('a', 2),
    fld('b', 1));

OBL(C17, every_field_is_visited_once_bases_first)() {
    Seen s;
    hstd::for_each_field_with_bases<Leaf>([&](auto const& f) { s.put(f.name); });
    REQUIRE(s.mask == PRE);
    Seen t;
    hstd::for_each_field_with_bases<Leaf>([&](auto const& f) { t.put(f.name); }, true);
    REQUIRE(t.mask == PRE);
}
OBL(C17, every_field_is_visited_once_bases_last)() {
    Seen s;
    hstd::for_each_field_with_bases<Leaf>([&](auto const& f) { s.put(f.name); }, false);
    REQUIRE(s.mask == POST);
}
OBL(C17, own_fields_only)(bool pre) {
    Seen s;
    hstd::for_each_field_no_base<Leaf>([&](auto const& f) { s.put(f.name); }, pre);
    REQUIRE(s.mask == seq(fld('l', 1), fld('l', 2)));
    Seen t;
    hstd::for_each_field_no_base<MidA>([&](auto const& f) { t.put(f.name); });
    REQUIRE(t.mask == fld('m', 1));
}
OBL(C17, base_values_come_with_their_fields)(Leaf const& v) {
    Seen s;
    int  n = 0;
    hstd::for_each_field_with_base_value(v, [&](auto const& base, auto const& f) {
        s.put(f.name);
        if ((void const*)&(base.*f.pointer) == (void const*)&(v.*f.pointer)) { ++n; }
    });
    REQUIRE(s.mask == PRE);
    REQUIRE(n == 6);
    Seen t;
    n = 0;
    hstd::for_each_field_with_base_value(
        v,
        [&](auto const& base, auto const& f) {
            t.put(f.name);
            if ((void const*)&(base.*f.pointer) == (void const*)&(v.*f.pointer)) { ++n; }
        },
        false);
    REQUIRE(t.mask == POST);
    REQUIRE(n == 6);
}
OBL(C17, values_come_with_their_names)(long p) {
    Leaf v{};
    v.a1 = 1, v.a2 = 2, v.m1 = 3, v.b1 = p, v.l1 = 5, v.l2 = 6;
    Seen s;
    bool ok = true;
    auto cb = [&](char const* name, auto const& value) {
        s.put(name);
        if (name[0] == 'a' && name[1] == '1') { ok &= (void*)&value == &v.a1; }
        if (name[0] == 'a' && name[1] == '2') { ok &= (void*)&value == &v.a2; }
        if (name[0] == 'm') { ok &= (void*)&value == &v.m1; }
        if (name[0] == 'b') { ok &= (void*)&value == &v.b1 && value == p; }
        if (name[0] == 'l' && name[1] == '1') { ok &= (void*)&value == &v.l1; }
        if (name[0] == 'l' && name[1] == '2') { ok &= (void*)&value == &v.l2; }
    };
    hstd::for_each_field_value_with_bases(v, cb);
    REQUIRE(s.mask == PRE);
    REQUIRE(ok);
    Seen t     = s;
    s          = Seen{};
    Leaf const& c = v;
    hstd::for_each_field_value_with_bases(c, cb);
    REQUIRE(s.mask == PRE);
    REQUIRE(ok);
}
OBL(C17, values_can_be_changed_through_the_visit)(int p) {
    Leaf v{};
    hstd::for_each_field_value_with_bases(
        v, [&](char const* name, auto& value) { value = name[0] == 'm' ? 9 : 4; });
    REQUIRE(v.a1 == 4 && v.a2 == 4 && v.m1 == 9 && v.b1 == 4 && v.l1 == 4 && v.l2 == 4);
}
OBL(C17, protected_and_private_fields_are_visited)(int a, int b, int c) {
    Hidden h{a, b, c};
    int    n   = 0;
    long   sum = 0;
    hstd::for_each_field_value_with_bases(h, [&](char const*, int const& v) {
        ++n;
        sum = v;
    });
    REQUIRE(n == 3);
    REQUIRE(sum == c);
    n = 0;
    hstd::for_each_field_no_base<Hidden>([&](auto const&) { ++n; });
    REQUIRE(n == 3);
    n = 0;
    hstd::for_each_field_with_base_value(h, [&](auto const&, auto const&) { ++n; });
    REQUIRE(n == 3);
    n = 0;
    hstd::for_each_field_with_bases<Nothing>([&](auto const&) { ++n; });
    REQUIRE(n == 0);
}
OBL(C17, equality_on_fields_is_equality_of_each)(Leaf const& x, Leaf const& y) {
    bool eq = x.a1 == y.a1 && x.a2 == y.a2 && x.m1 == y.m1 && x.b1 == y.b1 && x.l1 == y.l1
           && x.l2 == y.l2;
    REQUIRE(hstd::equal_on_all_fields(x, y) == eq);
}
OBL(C17, difference_in_any_field_is_noticed)(int v) {
    ASSUME(v != 0);
    Leaf z{};
    REQUIRE(hstd::equal_on_all_fields(z, z));
#define DIFFERS(f)                                                                       \
    {                                                                                    \
        Leaf c{};                                                                        \
        c.f = v;                                                                         \
        if (c.f != 0) { REQUIRE(!hstd::equal_on_all_fields(z, c)); }                     \
        if (c.f != 0) { REQUIRE(!hstd::equal_on_all_fields(c, z)); }                     \
    }
    DIFFERS(a1) DIFFERS(a2) DIFFERS(m1) DIFFERS(b1) DIFFERS(l1) DIFFERS(l2)
}
OBL(C17, difference_in_a_private_field_is_noticed)(int a, int b, int c, int d) {
    REQUIRE(hstd::equal_on_all_fields(Hidden{a, b, c}, Hidden{a, b, d}) == (c == d));
    REQUIRE(hstd::equal_on_all_fields(Hidden{a, b, c}, Hidden{a, d, c}) == (b == d));
    REQUIRE(hstd::equal_on_all_fields(Hidden{a, b, c}, Hidden{d, b, c}) == (a == d));
}
OBL(C17, field_counts)() {
    REQUIRE(hstd::get_own_field_count<BaseA>() == 2);
    REQUIRE(hstd::get_own_field_count<MidA>() == 1);
    REQUIRE(hstd::get_own_field_count<Leaf>() == 2);
    REQUIRE(hstd::get_own_field_count<Hidden>() == 3);
    REQUIRE(hstd::get_own_field_count<Nothing>() == 0);
    REQUIRE(hstd::get_total_field_count<BaseA>() == 2);
    REQUIRE(hstd::get_total_field_count<MidA>() == 3);
    REQUIRE(hstd::get_total_field_count<Leaf>() == 6);
    REQUIRE(hstd::get_total_field_count<Hidden>() == 3);
    REQUIRE(hstd::get_total_field_count<Nothing>() == 0);
}
OBL(C17, field_by_total_index)(Leaf& v) {
    REQUIRE(hstd::get_field_ptr_by_total_index(v, 0) == &v.a1);
    REQUIRE(hstd::get_field_ptr_by_total_index(v, 1) == &v.a2);
    REQUIRE(hstd::get_field_ptr_by_total_index(v, 2) == &v.m1);
    REQUIRE(hstd::get_field_ptr_by_total_index(v, 3) == &v.b1);
    REQUIRE(hstd::get_field_ptr_by_total_index(v, 4) == &v.l1);
    REQUIRE(hstd::get_field_ptr_by_total_index(v, 5) == &v.l2);
}
OBL_THROWS(C17, no_field_beyond_the_total_count)(Leaf& v, int i) {
    void* p = hstd::get_field_ptr_by_total_index(v, i);
    REQUIRE(0 <= i && i < 6);
    REQUIRE(p != nullptr);
}
OBL(C17, field_by_own_index)(Leaf& v, MidA& m) {
    REQUIRE(hstd::get_field_ptr_by_own_index(v, 0) == &v.l1);
    REQUIRE(hstd::get_field_ptr_by_own_index(v, 1) == &v.l2);
    REQUIRE(hstd::get_field_ptr_by_own_index(m, 0) == &m.m1);
}
OBL(C17, private_field_by_index)(int a, int b, int c) {
    Hidden h{a, b, c};
    REQUIRE(hstd::get_field_ptr_by_own_index(h, 0) == &h.open);
    REQUIRE(hstd::get_field_ptr_by_own_index(h, 1) == h.at_guarded());
    REQUIRE(hstd::get_field_ptr_by_own_index(h, 2) == h.at_closed());
    REQUIRE(hstd::get_field_ptr_by_total_index(h, 0) == &h.open);
    REQUIRE(hstd::get_field_ptr_by_total_index(h, 1) == h.at_guarded());
    REQUIRE(hstd::get_field_ptr_by_total_index(h, 2) == h.at_closed());
}
OBL_THROWS(C17, no_field_beyond_the_own_count)(Leaf& v, int i) {
    void* p = hstd::get_field_ptr_by_own_index(v, i);
    REQUIRE(i == 0 || i == 1);
    REQUIRE(p != nullptr);
}
OBL_THROWS(C17, no_total_field_in_an_empty_class)(Nothing& v, int i) {
    hstd::get_field_ptr_by_total_index(v, i);
    REQUIRE(false);
}
OBL_THROWS(C17, no_own_field_in_an_empty_class)(Nothing& v, int i) {
    hstd::get_field_ptr_by_own_index(v, i);
    REQUIRE(false);
}
OBL_THROWS(C17, no_total_field_in_an_undescribed_class)(Undescribed& v, int i) {
    hstd::get_field_ptr_by_total_index(v, i);
    REQUIRE(false);
}
OBL_THROWS(C17, no_own_field_in_an_undescribed_class)(Undescribed& v, int i) {
    hstd::get_field_ptr_by_own_index(v, i);
    REQUIRE(false);
}
OBL(C17, own_index_by_pointer)() {
    REQUIRE(hstd::get_own_field_index_by_ptr(&BaseA::a1) == 0);
    REQUIRE(hstd::get_own_field_index_by_ptr(&BaseA::a2) == 1);
    REQUIRE((hstd::get_own_field_index_by_ptr<Leaf, short>(&Leaf::l1)) == 0);
    REQUIRE((hstd::get_own_field_index_by_ptr<Leaf, int>(&Leaf::l2)) == 1);
    REQUIRE(hstd::get_own_field_index_by_ptr(Hidden::guarded_ptr()) == 1);
    REQUIRE(hstd::get_own_field_index_by_ptr(Hidden::closed_ptr()) == 2);
}
OBL(C17, total_index_by_pointer)() {
    REQUIRE(hstd::get_total_field_index_by_ptr(&BaseA::a1) == 0);
    REQUIRE(hstd::get_total_field_index_by_ptr(&BaseA::a2) == 1);
    REQUIRE((hstd::get_total_field_index_by_ptr<Leaf, short>(&Leaf::l1)) == 4);
    REQUIRE((hstd::get_total_field_index_by_ptr<Leaf, int>(&Leaf::l2)) == 5);
    REQUIRE((hstd::get_total_field_index_by_ptr<MidA, int>(&MidA::m1)) == 2);
    REQUIRE(hstd::get_total_field_index_by_ptr(Hidden::closed_ptr()) == 2);
}
OBL_THROWS(C17, no_own_index_for_an_undescribed_class)() {
    hstd::get_own_field_index_by_ptr(&Undescribed::x);
    REQUIRE(false);
}
OBL_THROWS(C17, no_total_index_for_an_undescribed_class)() {
    hstd::get_total_field_index_by_ptr(&Undescribed::x);
    REQUIRE(false);
}
struct Partly {
    int one;
    int two;
    BOOST_DESCRIBE_CLASS(Partly, (), (one), (), ());
};
OBL_THROWS(C17, no_own_index_for_an_undescribed_field)() {
    hstd::get_own_field_index_by_ptr(&Partly::two);
    REQUIRE(false);
}
OBL_THROWS(C17, no_total_index_for_an_undescribed_field)() {
    hstd::get_total_field_index_by_ptr(&Partly::two);
    REQUIRE(false);
}
OBL(C17, field_pointers_compare_as_fields)() {
    REQUIRE(hstd::compare_field_pointers_eq(&BaseA::a1, &BaseA::a1));
    REQUIRE(!hstd::compare_field_pointers_eq(&BaseA::a1, &BaseA::a2));
    REQUIRE(!hstd::compare_field_pointers_eq(&BaseA::a1, &BaseB::b1));
    REQUIRE(!hstd::compare_field_pointers_eq(&Leaf::l1, &Leaf::l2));
}
OBL(C17, all_field_addresses)(Leaf const& v) {
    auto t = hstd::class_to_total_ptr_tuple(v);
    static_assert(std::tuple_size_v<decltype(t)> == 6);
    REQUIRE(std::get<0>(t) == &v.a1 && std::get<1>(t) == &v.a2 && std::get<2>(t) == &v.m1);
    REQUIRE(std::get<3>(t) == &v.b1 && std::get<4>(t) == &v.l1 && std::get<5>(t) == &v.l2);
}

// ---- hashing
struct Key {
    unsigned long h;
};
template <>
struct std::hash<Key> {
    std::size_t operator()(Key const& k) const noexcept { return k.h; }
};
OBL(C17, combined_hash_tells_values_apart)(unsigned long seed, unsigned long a, unsigned long b) {
    ASSUME(a != b);
    std::size_t x = seed, y = seed;
    hstd::hax_hash_combine(x, Key{a});
    hstd::hax_hash_combine(y, Key{b});
    REQUIRE(x != y);
}

OBL(C17, enumerators_are_described_in_order)() {
    auto d = hstd::describe_enumerators<Hue>();
    REQUIRE(d.size() == 3);
    REQUIRE(d[0].index == 0); REQUIRE(d[1].index == 1); REQUIRE(d[2].index == 2);
    REQUIRE(d[0].value == Hue::Red); REQUIRE(d[1].value == Hue::Green); REQUIRE(d[2].value == Hue::Blue);
}
OBL(C17, hash_keeps_the_bits_asked_for)(unsigned long a, unsigned long b) {
    unsigned long full = hstd::hash_bits<64>(a, b);
    REQUIRE(hstd::hash_bits<0>(a, b) == 0);
    REQUIRE(hstd::hash_bits<16>(a, b) == (full & 0xffff));
    REQUIRE(hstd::hash_bits<1>(a, b) == (full & 1));
    REQUIRE(hstd::hash_bits<63>(a, b) == (full & ~(1ul << 63)));
}
