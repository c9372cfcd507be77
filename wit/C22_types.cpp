#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <boost/describe.hpp>
#include <boost/mp11.hpp>
#include <hstd/stdlib/Func.hpp>
#include <hstd/stdlib/Opt.hpp>
#include <hstd/stdlib/Ptrs.hpp>
#include <hstd/system/aux_templates.hpp>
#include <hstd/system/aux_utils.hpp>
#include <hstd/system/basic_templates.hpp>
#include <hstd/system/basic_typedefs.hpp>
#include <hstd/system/macros.hpp>

struct witness_begin_marker;

using namespace hstd;

// ---------------------------------------------------------------- powers
constexpr int ipow(int n, int m) {
    int r = 1;
    for (int i = 0; i < m; ++i) { r *= n; }
    return r;
}
template <int N, int... M>
constexpr bool powers(std::integer_sequence<int, M...>) {
    return ((int(pow_v<N, M>::res) == ipow(N, M)) && ...);
}
template <int... N>
constexpr bool all_powers(std::integer_sequence<int, N...>) {
    return (powers<N - 6>(std::make_integer_sequence<int, 9>{}) && ...);
}
static_assert(all_powers(std::make_integer_sequence<int, 14>{}), "every power from (-6)^0 to 7^8");
static_assert(int(pow_v<2, 30>::res) == 1 << 30);
static_assert(int(pow_v<10, 9>::res) == 1000000000);
static_assert(int(pow_v<1, 200>::res) == 1);
static_assert(int(pow_v<0, 0>::res) == 1);

// ------------------------------------------------------------ membership
template <int I>
struct T {};
template <int I>
struct Sub : T<I> {};
template <int V, int... I>
constexpr bool expected_in() {
    return ((V == I) || ...);
}
/// membership of T<0>..T<5> in every cyclic rotation and every prefix
template <int V, int... I>
constexpr bool agrees(std::integer_sequence<int, I...>) {
    return is_in_pack_v<T<V>, T<I>...> == expected_in<V, I...>()
        && is_in_pack<T<V>, T<I>...>::value == expected_in<V, I...>()
        && IsAnyOf<T<V>, T<I>...> == expected_in<V, I...>();
}
template <int V>
constexpr bool prefixes() {
    return agrees<V>(std::integer_sequence<int>{}) && agrees<V>(std::integer_sequence<int, 0>{})
        && agrees<V>(std::integer_sequence<int, 0, 1>{}) && agrees<V>(std::integer_sequence<int, 0, 1, 2>{})
        && agrees<V>(std::integer_sequence<int, 0, 1, 2, 3>{}) && agrees<V>(std::integer_sequence<int, 0, 1, 2, 3, 4>{})
        && agrees<V>(std::integer_sequence<int, 4, 3, 2, 1, 0>{}) && agrees<V>(std::integer_sequence<int, 2, 2, 3>{})
        && agrees<V>(std::integer_sequence<int, 3, 2, 2>{}) && agrees<V>(std::integer_sequence<int, 1, 0, 1>{})
        && agrees<V>(std::integer_sequence<int, 5, 5, 5, 5>{}) && agrees<V>(std::integer_sequence<int, 0, 0>{});
}
static_assert(prefixes<0>());
static_assert(prefixes<1>());
static_assert(prefixes<2>());
static_assert(prefixes<3>());
static_assert(prefixes<4>());
static_assert(prefixes<5>());
static_assert(!is_in_pack_v<int>);
static_assert(!IsAnyOf<int>);
static_assert(!is_in_pack_v<int, int const, int&, int*, unsigned>, "only the very same type is a member");
static_assert(!IsAnyOf<int, int const, int&, int*, unsigned>, "only the very same type is a member");
static_assert(is_in_pack_v<int&, int const, int&>);
static_assert(IsAnyOf<int const, int, int const>);
static_assert(!is_in_pack_v<Sub<0>, T<0>> && !is_in_pack_v<T<0>, Sub<0>>, "a derived class is another type");
static_assert(!IsAnyOf<Sub<0>, T<0>> && !IsAnyOf<T<0>, Sub<0>>, "a derived class is another type");
static_assert(std::is_same_v<std::remove_cv_t<decltype(is_in_pack_v<int, int>)>, bool>);

// ------------------------------------------------- derived from a template
template <typename... A>
struct Base {};
template <typename A>
struct One {};
template <typename A, typename B>
struct Two {};
struct Direct : Base<int> {};
struct Indirect : Direct {};
struct Deep : Indirect {};
struct Several : One<int>, Base<char, int> {};
struct Empty_ : Base<> {};
struct Virtual_ : virtual Base<long> {};
template <typename A>
struct Passing : Base<A> {};
struct Unrelated {};
struct Holder {
    Base<int> member;
};
struct Convertible {
    operator Base<int>*() const;
    operator Base<int>() const;
};
static_assert(is_base_of_template_v<Base, Direct>);
static_assert(is_base_of_template_v<Base, Indirect>);
static_assert(is_base_of_template_v<Base, Deep>);
static_assert(is_base_of_template_v<Base, Several>);
static_assert(is_base_of_template_v<One, Several>);
static_assert(!is_base_of_template_v<Two, Several>);
static_assert(is_base_of_template_v<Base, Empty_>);
static_assert(is_base_of_template_v<Base, Virtual_>);
static_assert(is_base_of_template_v<Base, Passing<int>>);
static_assert(is_base_of_template_v<Passing, Passing<int>>);
static_assert(!is_base_of_template_v<Passing, Base<int>>, "the base is not derived from the derived");
static_assert(is_base_of_template_v<Base, Base<int, char>>, "a class counts as its own base");
static_assert(is_base_of_template_v<Base, Direct const>);
static_assert(is_base_of_template_v<Base, Direct volatile>);
static_assert(is_base_of_template_v<Base, Direct const volatile>);
static_assert(!is_base_of_template_v<Base, Unrelated>);
static_assert(!is_base_of_template_v<Base, Holder>);
static_assert(!is_base_of_template_v<Base, Convertible>, "a conversion is not inheritance");
static_assert(!is_base_of_template_v<One, Direct>);
static_assert(!is_base_of_template_v<Base, int>);
static_assert(is_base_of_template<Base, Direct>::value && !is_base_of_template<Base, Unrelated>::value);

// ------------------------------------------------------------ completeness
struct Known {};
struct Unknown;
enum class Opaque_ : int;
template <typename A>
struct Declared;
template <typename A>
struct Defined {
    A a;
};
static_assert(is_complete<Known>::value);
static_assert(is_complete<int>::value);
static_assert(is_complete<Known*>::value);
static_assert(is_complete<Unknown*>::value);
static_assert(!is_complete<Unknown>::value);
static_assert(!is_complete<Declared<int>>::value);
static_assert(is_complete<Defined<int>>::value);
static_assert(is_complete<Opaque_>::value);
static_assert(is_complete<int[3]>::value);
static_assert(!is_complete<int[]>::value);
static_assert(!is_complete<Unknown[2]>::value);

// ---------------------------------------------------------- smart pointers
static_assert(std::is_same_v<remove_smart_pointer<std::shared_ptr<Known>>::type, Known>);
static_assert(std::is_same_v<remove_smart_pointer<std::unique_ptr<Known>>::type, Known>);
static_assert(std::is_same_v<remove_smart_pointer<std::weak_ptr<Known>>::type, Known>);
static_assert(std::is_same_v<remove_smart_pointer<Known>::type, Known>);
static_assert(std::is_same_v<remove_smart_pointer<Known*>::type, Known*>);
static_assert(std::is_same_v<remove_smart_pointer<std::shared_ptr<Known const>>::type, Known const>);
static_assert(std::is_same_v<remove_smart_pointer<std::shared_ptr<std::unique_ptr<int>>>::type, std::unique_ptr<int>>, "one layer only");
static_assert(std::is_same_v<UPtr<int>, std::unique_ptr<int>>);
static_assert(std::is_same_v<SPtr<int>, std::shared_ptr<int>>);
static_assert(std::is_same_v<WPtr<int>, std::weak_ptr<int>>);
static_assert(std::is_same_v<UPtrIn<int>, std::unique_ptr<int>&&>);
static_assert(std::is_same_v<Opt<int>, std::optional<int>>);
static_assert(std::is_same_v<Func<int(char)>, std::function<int(char)>>);

// ------------------------------------------------------------- value types
template <typename A, int Bytes, bool Signed>
constexpr bool integer = sizeof(A) == Bytes && std::is_integral_v<A> && std::is_signed_v<A> == Signed && alignof(A) == Bytes;
static_assert(integer<i8, 1, true>);
static_assert(integer<u8, 1, false>);
static_assert(integer<i16, 2, true>);
static_assert(integer<u16, 2, false>);
static_assert(integer<i32, 4, true>);
static_assert(integer<u32, 4, false>);
static_assert(integer<i64, 8, true>);
static_assert(integer<u64, 8, false>);
static_assert(std::is_same_v<decltype(1_u8), u8>);
static_assert(std::is_same_v<decltype(1_i8), i8>);
static_assert(std::is_same_v<decltype("a"_qs), std::string>);
static_assert(std::is_same_v<Ref<int>, int&>);
static_assert(std::is_same_v<CR<int>, int const&>);
static_assert(std::is_same_v<CP<int>, int const*>);
static_assert(std::is_same_v<Ptr<int>, int*>);
static_assert(std::is_same_v<Const<int>, int const>);
static_assert(std::is_same_v<Rw<int>, std::reference_wrapper<int>>);
static_assert(std::is_same_v<CRw<int>, std::reference_wrapper<int const>>);
static_assert(std::is_same_v<decltype(cr(std::declval<int&>())), int const&>);
static_assert(std::is_same_v<decltype(cr(std::declval<int>())), int const&>);
static_assert(std::is_empty_v<arg_pack<int, char>> && !std::is_same_v<arg_pack<int, char>, arg_pack<char, int>>);

// --------------------------------------------------------- value domains
template <typename A>
constexpr bool walkable = ImplementsSucc<A> && ImplementsPrev<A> && ImplementsLow<A> && ImplementsHigh<A> && ImplementsOrd<A>;
template <typename A>
constexpr bool unknown = !ImplementsSucc<A> && !ImplementsPrev<A> && !ImplementsLow<A> && !ImplementsHigh<A> && !ImplementsOrd<A>;
static_assert(walkable<int>);
static_assert(walkable<unsigned>);
static_assert(walkable<signed char>);
static_assert(walkable<unsigned char>);
static_assert(walkable<short>);
static_assert(walkable<unsigned short>);
static_assert(walkable<long>);
static_assert(walkable<unsigned long>);
static_assert(walkable<long long>);
static_assert(walkable<unsigned long long>);
static_assert(ImplementsSucc<char> && ImplementsLow<char> && ImplementsHigh<char> && ImplementsOrd<char>);
static_assert(unknown<Known>);
static_assert(unknown<std::string>);
static_assert(unknown<int*>);
struct Loose {};
template <>
struct hstd::value_domain<Loose> {
    static int   succ(Loose);
    static void  prev(Loose);
    static Loose low();
    static char  high();
    static Known ord(Loose);
};
static_assert(!ImplementsSucc<Loose>, "the result must be of the type itself");
static_assert(!ImplementsPrev<Loose>, "the result must be of the type itself");
static_assert(ImplementsLow<Loose>);
static_assert(!ImplementsHigh<Loose>, "the result must be of the type itself");
static_assert(!ImplementsOrd<Loose>, "an ordinal converts to an integer");

template <typename A>
concept Provided = requires {
    { SerdeDefaultProvider<A>::get() } -> std::same_as<A>;
};
struct NoDefault {
    NoDefault(int);
};
static_assert(DefaultConstructible<int> && DefaultConstructible<Known> && DefaultConstructible<std::string>);
static_assert(!DefaultConstructible<NoDefault> && !DefaultConstructible<int&>);
static_assert(Provided<int> && Provided<Known> && Provided<std::string> && Provided<std::vector<int>>);
static_assert(!Provided<NoDefault>, "a type without a default has no default provider");

// -------------------------------------------------------------- type names
namespace names {
struct Plain {};
template <typename A>
struct Box {};
enum class Colour
{
    red
};
} // namespace names
static_assert(get_type_name_fallback<int>() == "int");
static_assert(get_type_name_fallback<names::Plain>() == "names::Plain");
static_assert(get_type_name_fallback<names::Box<int>>() == "names::Box<int>");
static_assert(get_type_name_fallback<names::Colour>() == "names::Colour");
static_assert(get_type_name_fallback<Unknown>() == "Unknown");
static_assert(get_type_name_fallback<unsigned long>() == "unsigned long");
static_assert(get_type_name_fallback<int const*>() == "const int *");

// ---------------------------------------------------- reached through CRTP
struct Crtp : CRTP_this_method<Crtp> {
    using CRTP_this_method<Crtp>::_this;
};
static_assert(std::is_same_v<decltype(std::declval<Crtp&>()._this()), Crtp*>);
static_assert(std::is_same_v<decltype(std::declval<Crtp const&>()._this()), Crtp const*>);
struct SharedOne : SharedPtrApi<SharedOne> {};
static_assert(std::is_same_v<SharedOne::Ptr, std::shared_ptr<SharedOne>>);
static_assert(std::is_same_v<SharedOne::WPtr, std::weak_ptr<SharedOne>>);
static_assert(std::is_same_v<decltype(SharedOne::shared()), std::shared_ptr<SharedOne>>);
static_assert(std::is_same_v<decltype(std::declval<SharedOne const&>().mshared_from_this()), std::shared_ptr<SharedOne>>);
static_assert(std::is_same_v<decltype(std::declval<SharedOne const&>().mweak_from_this()), std::weak_ptr<SharedOne>>);

// ------------------------------------------------------- overload sets
constexpr auto pick = overloaded{[](int) { return 1; }, [](char) { return 2; }, [](auto const&) { return 3; }};
static_assert(pick(1) == 1);
static_assert(pick('c') == 2);
static_assert(pick(1.5) == 3);

// ---------------------------------------------------------------- macros
#define AB_CD 7
static_assert(CONCAT(AB_, CD) == 7);
#define LEFT_ AB_
#define RIGHT_ CD
static_assert(CONCAT(LEFT_, RIGHT_) == 7, "arguments are expanded before they are joined");

/// what was passed along, then the element
#define ITEM(a, e) ((a) * 1000 + (e)),
#define ITEMS(...) {-1, FOR_EACH_CALL_WITH_PASS(ITEM, (34), __VA_ARGS__) -1}
template <int N>
constexpr bool in_order(int const (&got)[N], int from) {
    for (int i = 1; i < N - 1; ++i) {
        if (got[i] != 34000 + from + i - 1) { return false; }
    }
    return got[0] == -1 && got[N - 1] == -1;
}
constexpr int none[] = ITEMS();
static_assert(sizeof(none) / sizeof(int) == 2, "no element, no call");
constexpr int one[] = ITEMS(5);
static_assert(sizeof(one) / sizeof(int) == 3 && in_order(one, 5));
constexpr int two[] = ITEMS(5, 6);
static_assert(sizeof(two) / sizeof(int) == 4 && in_order(two, 5));
constexpr int three[] = ITEMS(5, 6, 7);
static_assert(sizeof(three) / sizeof(int) == 5 && in_order(three, 5));
#define TEN(d) d##0, d##1, d##2, d##3, d##4, d##5, d##6, d##7, d##8, d##9
#define ITEMS_(...) ITEMS(__VA_ARGS__)
constexpr int ninety[] = ITEMS_(TEN(1), TEN(2), TEN(3), TEN(4), TEN(5), TEN(6), TEN(7), TEN(8), TEN(9));
static_assert(sizeof(ninety) / sizeof(int) == 92 && in_order(ninety, 10));
#define CENT(d) TEN(d##0), TEN(d##1), TEN(d##2), TEN(d##3), TEN(d##4), TEN(d##5), TEN(d##6), TEN(d##7), TEN(d##8), TEN(d##9)
constexpr int many[] = ITEMS_(CENT(1), CENT(2), CENT(3));
static_assert(sizeof(many) / sizeof(int) == 302 && in_order(many, 100));

// ------------------------------------------------------- described types
DECL_DESCRIBED_ENUM_STANDALONE(Fruit, apple, pear, plum);
struct Basket {
    DECL_DESCRIBED_ENUM(Size, small, medium, large, huge);
    int  first;
    char second;
    long third;
    DESC_FIELDS(Basket, (first, second, third));
};
static_assert(int(Fruit::apple) == 0 && int(Fruit::pear) == 1 && int(Fruit::plum) == 2);
static_assert(int(Basket::Size::small) == 0 && int(Basket::Size::medium) == 1 && int(Basket::Size::large) == 2 && int(Basket::Size::huge) == 3);
static_assert(std::is_enum_v<Fruit> && !std::is_convertible_v<Fruit, int> && !std::is_convertible_v<Basket::Size, int>);
template <typename E, int N>
constexpr bool described(std::string_view const (&names)[N]) {
    int  i  = 0;
    bool ok = true;
    boost::mp11::mp_for_each<boost::describe::describe_enumerators<E>>([&](auto d) {
        ok = ok && i < N && d.name == names[i] && int(d.value) == i;
        ++i;
    });
    return ok && i == N;
}
static_assert(described<Fruit>({"apple", "pear", "plum"}));
static_assert(described<Basket::Size>({"small", "medium", "large", "huge"}));
template <typename C, int N>
constexpr bool members(std::string_view const (&names)[N]) {
    int  i  = 0;
    bool ok = true;
    boost::mp11::mp_for_each<boost::describe::describe_members<C, boost::describe::mod_any_access>>([&](auto d) {
        ok = ok && i < N && d.name == names[i];
        ++i;
    });
    return ok && i == N;
}
static_assert(members<Basket>({"first", "second", "third"}));
using Ms = boost::describe::describe_members<Basket, boost::describe::mod_public>;
static_assert(boost::mp11::mp_size<Ms>::value == 3, "described fields are public");
static_assert(boost::mp11::mp_at_c<Ms, 0>::pointer == &Basket::first);
static_assert(boost::mp11::mp_at_c<Ms, 1>::pointer == &Basket::second);
static_assert(boost::mp11::mp_at_c<Ms, 2>::pointer == &Basket::third);
