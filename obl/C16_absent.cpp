// @throws hstd21logic_assertion_error|hstd18bad_variant_access|range_error
#include <hstd/stdlib/Variant.hpp>
#include <hstd/stdlib/Exception.hpp>
#include <hstd/stdlib/Vec.hpp>
#include <hstd/stdlib/Opt.hpp>
#include <hstd/stdlib/Formatter.hpp>
#include "obl.hpp"

template <typename T>
using M = hstd::value_metadata<T>;

// ---- emptiness and nil
struct Plain {
    long a;
};
OBL(C16, plain_values_are_never_absent)(long v, double d, bool b) {
    REQUIRE(!M<long>::isEmpty(v));
    REQUIRE(!M<long>::isNil(v));
    REQUIRE(!M<double>::isEmpty(d));
    REQUIRE(!M<double>::isNil(d));
    REQUIRE(!M<bool>::isEmpty(b));
    REQUIRE(!M<bool>::isNil(b));
    Plain p{v};
    REQUIRE(!M<Plain>::isEmpty(p));
    REQUIRE(!M<Plain>::isNil(p));
}
OBL(C16, pointers_are_absent_when_null)(long* p) {
    REQUIRE(M<long*>::isEmpty(p) == (p == nullptr));
    REQUIRE(M<long*>::isNil(p) == (p == nullptr));
    long const* c = p;
    REQUIRE(M<long const*>::isEmpty(c) == (p == nullptr));
    REQUIRE(M<long const*>::isNil(c) == (p == nullptr));
}
OBL(C16, optional_is_nil_when_it_has_no_value)(long v) {
    std::optional<long> none;
    std::optional<long> some{v};
    REQUIRE(M<std::optional<long>>::isNil(none));
    REQUIRE(M<std::optional<long>>::isEmpty(none));
    REQUIRE(!M<std::optional<long>>::isNil(some));
    REQUIRE(!M<std::optional<long>>::isEmpty(some));
}
OBL(C16, optional_is_empty_when_its_value_is)(long* p) {
    std::optional<long*> none;
    std::optional<long*> some{p};
    REQUIRE(M<std::optional<long*>>::isNil(none));
    REQUIRE(M<std::optional<long*>>::isEmpty(none));
    REQUIRE(!M<std::optional<long*>>::isNil(some));
    REQUIRE(M<std::optional<long*>>::isEmpty(some) == (p == nullptr));
}
OBL(C16, vectors_are_empty_without_elements)(int v) {
    std::vector<int> a;
    REQUIRE(M<std::vector<int>>::isEmpty(a));
    a.push_back(v);
    REQUIRE(!M<std::vector<int>>::isEmpty(a));
    hstd::Vec<int> b;
    REQUIRE(M<hstd::Vec<int>>::isEmpty(b));
    REQUIRE(!M<hstd::Vec<int>>::isNil(b));
    b.push_back(v);
    REQUIRE(!M<hstd::Vec<int>>::isEmpty(b));
    REQUIRE(!M<hstd::Vec<int>>::isNil(b));
}
OBL(C16, strings_are_empty_without_characters)() {
    std::string s;
    REQUIRE(M<std::string>::isEmpty(s));
    s = "x";
    REQUIRE(!M<std::string>::isEmpty(s));
}
using PV = hstd::Variant<long*, long, std::optional<long*>>;
OBL(C16, variant_is_absent_when_what_it_holds_is_pointer)(long* p) {
    PV v{std::in_place_index<0>, p};
    REQUIRE(M<PV>::isEmpty(v) == (p == nullptr));
    REQUIRE(M<PV>::isNil(v) == (p == nullptr));
}
OBL(C16, variant_is_absent_when_what_it_holds_is_plain)(long n) {
    PV v{std::in_place_index<1>, n};
    REQUIRE(!M<PV>::isEmpty(v));
    REQUIRE(!M<PV>::isNil(v));
}
OBL(C16, variant_is_absent_when_what_it_holds_is_optional)(long* p, bool has) {
    PV v{std::in_place_index<2>, has ? std::optional<long*>{p} : std::nullopt};
    REQUIRE(M<PV>::isEmpty(v) == (!has || p == nullptr));
    REQUIRE(M<PV>::isNil(v) == !has);
}

// ---- checks that refuse absent values
struct Obj {
    long v;
};
template <>
struct hstd::value_metadata<Obj> {
    static bool        isEmpty(Obj const&) { return false; }
    static bool        isNil(Obj const&) { return false; }
    static std::string typeName() { return {}; }
};
#define MUST_THROW(expr)                                                                 \
    (void)(expr);                                                                        \
    violation(#expr " must throw")
#define MUST_THROW_V(expr)                                                               \
    expr;                                                                                \
    violation(#expr " must throw")
OBL(C16, present_pointers_pass)(Obj* p) {
    ASSUME(p != nullptr);
    Obj const* c = p;
    hstd::logic_assertion_check_not_nil(p);
    hstd::logic_assertion_check_not_nil(c);
}
OBL_THROWS(C16, null_pointer_is_refused)() {
    Obj* p = nullptr;
    MUST_THROW_V(hstd::logic_assertion_check_not_nil(p));
}
OBL_THROWS(C16, null_const_pointer_is_refused)() {
    Obj const* p = nullptr;
    MUST_THROW_V(hstd::logic_assertion_check_not_nil(p));
}
OBL(C16, present_optional_passes)(long v) {
    std::optional<long> o{v};
    hstd::logic_assertion_check_not_nil(o);
}
OBL_THROWS(C16, absent_optional_is_refused)() {
    std::optional<long> o;
    MUST_THROW_V(hstd::logic_assertion_check_not_nil(o));
}
OBL(C16, plain_value_passes)(long v) { hstd::logic_assertion_check_not_nil(v); }

static std::shared_ptr<Obj> over(Obj* p) { return std::shared_ptr<Obj>(std::shared_ptr<void>{}, p); }
OBL(C16, present_shared_pointer_passes)(Obj* p) {
    ASSUME(p != nullptr);
    auto s = over(p);
    hstd::logic_assertion_check_not_nil(s);
    REQUIRE(s.get() == p);
}
OBL_THROWS(C16, null_shared_pointer_is_refused)() {
    std::shared_ptr<Obj> s;
    MUST_THROW_V(hstd::logic_assertion_check_not_nil(s));
}
OBL(C16, present_unique_pointer_passes)(long v) {
    auto s = std::make_unique<Obj>(Obj{v});
    hstd::logic_assertion_check_not_nil(s);
    REQUIRE(s->v == v);
}
OBL_THROWS(C16, null_unique_pointer_is_refused)() {
    std::unique_ptr<Obj> s;
    MUST_THROW_V(hstd::logic_assertion_check_not_nil(s));
}
OBL_THROWS(C16, weak_pointer_to_nothing_is_refused)() {
    std::weak_ptr<Obj> s;
    MUST_THROW_V(hstd::logic_assertion_check_not_nil(s));
}
OBL_THROWS(C16, locking_a_weak_pointer_to_nothing_is_refused)() {
    std::weak_ptr<Obj> s;
    MUST_THROW(hstd::safe_wptr_lock(s));
}

// ---- casts that refuse the wrong type
struct Base {
    virtual ~Base() = default;
    long a;
};
struct Derived : Base {
    long b;
};
template <>
struct hstd::value_metadata<Derived> {
    static bool        isEmpty(Derived const&) { return false; }
    static bool        isNil(Derived const&) { return false; }
    static std::string typeName() { return {}; }
};
OBL(C16, checked_cast_yields_what_the_cast_yields)(Base* p) {
    ASSUME(p != nullptr);
    Derived* d = dynamic_cast<Derived*>(p);
    ASSUME(d != nullptr);
    REQUIRE(hstd::validated_dynamic_cast<Derived>(p) == d);
}
OBL(C16, checked_const_cast_yields_what_the_cast_yields)(Base const* p) {
    ASSUME(p != nullptr);
    Derived const* d = dynamic_cast<Derived const*>(p);
    ASSUME(d != nullptr);
    REQUIRE(hstd::validated_dynamic_cast<Derived>(p) == d);
}
OBL_THROWS(C16, checked_cast_refuses_another_type)(Base* p) {
    ASSUME(p != nullptr);
    ASSUME(dynamic_cast<Derived*>(p) == nullptr);
    MUST_THROW(hstd::validated_dynamic_cast<Derived>(p));
}
OBL_THROWS(C16, checked_const_cast_refuses_another_type)(Base const* p) {
    ASSUME(p != nullptr);
    ASSUME(dynamic_cast<Derived const*>(p) == nullptr);
    MUST_THROW(hstd::validated_dynamic_cast<Derived>(p));
}
OBL_THROWS(C16, checked_cast_refuses_null)() {
    Base* p = nullptr;
    MUST_THROW(hstd::validated_dynamic_cast<Derived>(p));
}
OBL_THROWS(C16, checked_shared_cast_refuses_null)() {
    std::shared_ptr<Base> p;
    MUST_THROW(hstd::validated_dynamic_cast<Derived>(p));
}

OBL(C16, checked_shared_cast_yields_the_object)(Base* b) {
    ASSUME(b != nullptr);
    Derived* d = dynamic_cast<Derived*>(b);
    ASSUME(d != nullptr);
    auto p = std::shared_ptr<Base>(std::shared_ptr<void>{}, b);
    auto r = hstd::validated_dynamic_cast<Derived>(p);
    REQUIRE(r.get() == d);
    REQUIRE(p.get() == b);
}
OBL_THROWS(C16, checked_shared_cast_refuses_another_type)(Base* b) {
    ASSUME(b != nullptr);
    ASSUME(dynamic_cast<Derived*>(b) == nullptr);
    auto p = std::shared_ptr<Base>(std::shared_ptr<void>{}, b);
    MUST_THROW(hstd::validated_dynamic_cast<Derived>(p));
}

// ---- variants
using V3 = std::variant<int, long, Plain>;
OBL(C16, variant_get_yields_what_is_held)(int i, long l) {
    V3        a{std::in_place_index<0>, i};
    V3        b{std::in_place_index<1>, l};
    V3        c{std::in_place_index<2>, Plain{l}};
    V3 const& ca = a;
    V3 const& cb = b;
    V3 const& cc = c;
    REQUIRE(hstd::variant_get<0>(a) == i);
    REQUIRE(hstd::variant_get<1>(b) == l);
    REQUIRE(hstd::variant_get<2>(c).a == l);
    REQUIRE(&hstd::variant_get<0>(ca) == &hstd::variant_get<0>(a));
    REQUIRE(&hstd::variant_get<1>(cb) == &hstd::variant_get<1>(b));
    REQUIRE(&hstd::variant_get<2>(cc) == &hstd::variant_get<2>(c));
    REQUIRE(&hstd::variant_get<2>(c) == std::get_if<2>(&c));
}
#define REFUSE(N, W)                                                                     \
    OBL_THROWS(C16, variant_get_##W##_of_##N##_is_refused)() {                           \
        V3 v{std::in_place_index<N>};                                                    \
        MUST_THROW(hstd::variant_get<W>(v));                                             \
    }                                                                                    \
    OBL_THROWS(C16, const_variant_get_##W##_of_##N##_is_refused)() {                     \
        V3 const v{std::in_place_index<N>};                                              \
        MUST_THROW(hstd::variant_get<W>(v));                                             \
    }
REFUSE(0, 1) REFUSE(0, 2) REFUSE(1, 0) REFUSE(1, 2) REFUSE(2, 0) REFUSE(2, 1)

static_assert(hstd::variant_index<int, V3> == 0);
static_assert(hstd::variant_index<long, V3> == 1);
static_assert(hstd::variant_index<Plain, V3> == 2);
static_assert(hstd::variant_index<char, V3> == 3);
static_assert(hstd::IsVariant<V3> && hstd::IsVariant<V3 const&> && !hstd::IsVariant<Plain>);

using N3 = std::variant<int, long, short>;
OBL(C16, variant_from_index_holds_the_alternative)() {
    REQUIRE(hstd::variant_from_index<N3>(0).index() == 0);
    REQUIRE(hstd::variant_from_index<N3>(1).index() == 1);
    REQUIRE(hstd::variant_from_index<N3>(2).index() == 2);
}

// ---- sub-variants written with the macro
struct Target {
    struct Existing {
        long id;
        BOOST_DESCRIBE_CLASS(Existing, (), (id), (), ());
    };
    struct Created {
        int at;
        BOOST_DESCRIBE_CLASS(Created, (), (at), (), ());
    };
    struct Moved {
        int from;
        BOOST_DESCRIBE_CLASS(Moved, (), (from), (), ());
    };
    SUB_VARIANTS(Kind, Data, data, getKind, Existing, Created, Moved);
    Data data;
};
static_assert(std::is_same_v<Target::Data, std::variant<Target::Existing, Target::Created, Target::Moved>>);
static_assert(hstd::IsSubVariantType<Target> && !hstd::IsSubVariantType<Plain>);
#define KIND_IS(t, e, c, m)                                                              \
    REQUIRE(t.isExisting() == e);                                                        \
    REQUIRE(t.isCreated() == c);                                                         \
    REQUIRE(t.isMoved() == m)
OBL(C16, small_sub_variant_of_first_alternative)(long id) {
    Target        t{Target::Existing{id}};
    Target const& c = t;
    KIND_IS(t, true, false, false);
    REQUIRE(t.getKind() == Target::Kind::Existing);
    REQUIRE(Target::getKind(t.data) == Target::Kind::Existing);
    REQUIRE(t.sub_variant_get_kind() == Target::Kind::Existing);
    REQUIRE(&t.sub_variant_get_data() == &t.data);
    REQUIRE(t.getExisting().id == id);
    REQUIRE(&c.getExisting() == &t.getExisting());
}
OBL(C16, small_sub_variant_of_second_alternative)(int at) {
    Target        t{Target::Created{at}};
    Target const& c = t;
    KIND_IS(t, false, true, false);
    REQUIRE(t.getKind() == Target::Kind::Created);
    REQUIRE(t.sub_variant_get_kind() == Target::Kind::Created);
    REQUIRE(t.getCreated().at == at);
    REQUIRE(&c.getCreated() == &t.getCreated());
}
OBL(C16, small_sub_variant_of_last_alternative)(int f) {
    Target        t{Target::Moved{f}};
    Target const& c = t;
    KIND_IS(t, false, false, true);
    REQUIRE(t.getKind() == Target::Kind::Moved);
    REQUIRE(t.sub_variant_get_kind() == Target::Kind::Moved);
    REQUIRE(t.getMoved().from == f);
    REQUIRE(&c.getMoved() == &t.getMoved());
}
OBL_THROWS(C16, small_sub_variant_refuses_the_first)() {
    Target t{Target::Moved{1}};
    MUST_THROW(t.getExisting());
}
OBL_THROWS(C16, small_const_sub_variant_refuses_the_last)() {
    Target const t{Target::Existing{1}};
    MUST_THROW(t.getMoved());
}
OBL_THROWS(C16, small_sub_variant_refuses_the_second)() {
    Target t{Target::Existing{1}};
    MUST_THROW(t.getCreated());
}

struct ReflTarget {
    struct Existing {
        long id;
        BOOST_DESCRIBE_CLASS(Existing, (), (id), (), ());
    };
    struct Created {
        int at;
        BOOST_DESCRIBE_CLASS(Created, (), (at), (), ());
    };
    struct Moved {
        int from;
        BOOST_DESCRIBE_CLASS(Moved, (), (from), (), ());
    };
    SUB_VARIANTS_REFL(Kind, Data, data, getKind, Existing, Created, Moved);
    Data data;
};
static_assert(std::is_same_v<ReflTarget::Data, std::variant<ReflTarget::Existing, ReflTarget::Created, ReflTarget::Moved>>);
static_assert(hstd::IsSubVariantType<ReflTarget> && !hstd::IsSubVariantType<Plain>);
OBL(C16, small_refl_sub_variant_of_first_alternative)(long id) {
    ReflTarget        t{ReflTarget::Existing{id}};
    ReflTarget const& c = t;
    KIND_IS(t, true, false, false);
    REQUIRE(t.getKind() == ReflTarget::Kind::Existing);
    REQUIRE(ReflTarget::getKind(t.data) == ReflTarget::Kind::Existing);
    REQUIRE(t.sub_variant_get_kind() == ReflTarget::Kind::Existing);
    REQUIRE(&t.sub_variant_get_data() == &t.data);
    REQUIRE(t.getExisting().id == id);
    REQUIRE(&c.getExisting() == &t.getExisting());
}
OBL(C16, small_refl_sub_variant_of_second_alternative)(int at) {
    ReflTarget        t{ReflTarget::Created{at}};
    ReflTarget const& c = t;
    KIND_IS(t, false, true, false);
    REQUIRE(t.getKind() == ReflTarget::Kind::Created);
    REQUIRE(t.sub_variant_get_kind() == ReflTarget::Kind::Created);
    REQUIRE(t.getCreated().at == at);
    REQUIRE(&c.getCreated() == &t.getCreated());
}
OBL(C16, small_refl_sub_variant_of_last_alternative)(int f) {
    ReflTarget        t{ReflTarget::Moved{f}};
    ReflTarget const& c = t;
    KIND_IS(t, false, false, true);
    REQUIRE(t.getKind() == ReflTarget::Kind::Moved);
    REQUIRE(t.sub_variant_get_kind() == ReflTarget::Kind::Moved);
    REQUIRE(t.getMoved().from == f);
    REQUIRE(&c.getMoved() == &t.getMoved());
}
OBL_THROWS(C16, small_refl_sub_variant_refuses_the_first)() {
    ReflTarget t{ReflTarget::Moved{1}};
    MUST_THROW(t.getExisting());
}
OBL_THROWS(C16, small_const_refl_sub_variant_refuses_the_last)() {
    ReflTarget const t{ReflTarget::Existing{1}};
    MUST_THROW(t.getMoved());
}
OBL_THROWS(C16, small_refl_sub_variant_refuses_the_second)() {
    ReflTarget t{ReflTarget::Existing{1}};
    MUST_THROW(t.getCreated());
}

static inline bool reads(char const* s, char const* want, int n) {
    for (int i = 0; i <= n; ++i) {
        if (s[i] != want[i]) { return false; }
    }
    return true;
}
OBL(C16, small_sub_variant_names)() {
    REQUIRE(reads(Target::sub_variant_get_name(), "data", 4));
    REQUIRE(reads(Target::sub_variant_get_enum_name(), "Kind", 4));
    REQUIRE(reads(ReflTarget::sub_variant_get_name(), "data", 4));
    REQUIRE(reads(ReflTarget::sub_variant_get_enum_name(), "Kind", 4));
}

// ---- what an exception records
OBL(C16, exception_records_where_it_was_made)(int line, char const* fn, char const* file) {
    ASSUME(fn != nullptr && file != nullptr);
    auto e = hstd::range_error::init("text", line, fn, file);
    REQUIRE(e.line == line);
    REQUIRE(e.function == fn);
    REQUIRE(e.file == file);
    REQUIRE(e.msg.size() == 4);
}
OBL(C16, exception_context_replaces_the_place)(int line, char const* fn, char const* file) {
    ASSUME(fn != nullptr && file != nullptr);
    auto  e = hstd::range_error::init("text", 1, "a", "b");
    auto& r = e.add_context("longer", line, fn, file);
    REQUIRE(&r == &e);
    REQUIRE(e.line == line);
    REQUIRE(e.function == fn);
    REQUIRE(e.file == file);
}
OBL(C16, unhandled_kind_records_where_it_was_made)(int line, char const* fn, char const* file) {
    ASSUME(fn != nullptr && file != nullptr);
    auto e = hstd::logic_unhandled_kind_error::init(std::string{"k"}, line, fn, file);
    REQUIRE(e.line == line);
    REQUIRE(e.function == fn);
    REQUIRE(e.file == file);
}
OBL(C16, index_below_the_size_passes)(int size, int wanted) {
    ASSUME(wanted < size);
    hstd::assert_has_idx(size, wanted, "");
}
OBL_THROWS(C16, index_past_the_size_is_refused)(int size, int wanted) {
    ASSUME(wanted >= size);
    MUST_THROW_V(hstd::assert_has_idx(size, wanted, ""));
}
OBL(C16, true_assertion_passes)(int a) {
    ASSUME(0 < a);
    LOGIC_ASSERTION_CHECK(0 < a, "positive");
}
OBL_THROWS(C16, false_assertion_is_refused)(int a) {
    ASSUME(a <= 0);
    LOGIC_ASSERTION_CHECK(0 < a, "positive");
    violation("a failed assertion must throw");
}
OBL(C16, true_formatted_assertion_passes)(int a) {
    ASSUME(0 < a);
    LOGIC_ASSERTION_CHECK_FMT(0 < a, "{} is not positive", a);
}
OBL_THROWS(C16, false_formatted_assertion_is_refused)(int a) {
    ASSUME(a <= 0);
    LOGIC_ASSERTION_CHECK_FMT(0 < a, "{} is not positive", a);
    violation("a failed assertion must throw");
}
