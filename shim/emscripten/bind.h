// declarations only: enough to type-check registrations
#pragma once
#include <cstddef>
#include <string>
#include <type_traits>
#include <utility>
#define EMSCRIPTEN_BINDINGS(name) void embind_##name()
#define EMSCRIPTEN_KEEPALIVE
namespace emscripten {
enum class sharing_policy { NONE, INTRUSIVE, BY_EMVAL };
typedef struct _EM_VAL* EM_VAL;
struct val {
    val();
    template <typename T> explicit val(T&& v);
    val(val const&);
    val& operator=(val const&);
    static val undefined(); static val null(); static val object(); static val array();
    template <typename I> static val array(I b, I e);
    template <typename T> static val array(T const& v);
    static val global(char const* name = 0);
    static val module_property(char const* name);
    static val take_ownership(EM_VAL);
    template <typename... A> val operator()(A&&... a) const;
    template <typename... A> val new_(A&&... a) const;
    template <typename R, typename... A> R call(char const* name, A&&... a) const;
    template <typename K> val operator[](K const& k) const;
    template <typename K, typename V> void set(K const& k, V const& v);
    template <typename T> T as() const;
    bool isNull() const; bool isUndefined() const; bool isArray() const; bool isString() const; bool isNumber() const; bool isTrue() const; bool isFalse() const;
    bool hasOwnProperty(char const*) const;
    val typeOf() const; val typeof_() const;
};
template <typename T> struct smart_ptr_trait;
template <typename T> struct base {};
template <typename... B> struct bases {};
struct pure_virtual {};
struct allow_raw_pointers {};
template <typename T, typename B = void> struct class_ {
    explicit class_(char const* name);
    template <typename... A, typename... P> class_ const& constructor(P...) const;
    template <typename F, typename... P> class_ const& constructor(F f, P...) const;
    template <typename P> class_ const& smart_ptr(char const*) const;
    template <typename P, typename... A> class_ const& smart_ptr_constructor(char const*, A...) const;
    template <typename F, typename... P> class_ const& function(char const* name, F f, P...) const;
    template <typename F, typename... P> class_ const& property(char const* name, F f, P...) const;
    template <typename F, typename... P> class_ const& class_function(char const* name, F f, P...) const;
    template <typename F, typename... P> class_ const& class_property(char const* name, F f, P...) const;
};
template <typename E> struct enum_ {
    explicit enum_(char const* name);
    enum_& value(char const* name, E v);
    enum_& operator=(enum_ const&);
};
template <typename F, typename... P> void function(char const* name, F f, P...);
template <typename V> void constant(char const* name, V v);
template <typename T> void register_vector(char const*);
template <typename K, typename V> void register_map(char const*);
template <typename T> void register_optional();
template <typename T> struct value_object { explicit value_object(char const*); template <typename F> value_object& field(char const*, F); };
template <typename T> struct wrapper : T { using T::T; template <typename R, typename... A> R call(char const* name, A&&... a) const; };
} // namespace emscripten
