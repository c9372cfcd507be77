#pragma once
// Stands in for the parser generator library in units that are only type-checked.
#include <initializer_list>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace lexy {
struct any_rule {
    constexpr any_rule operator()(auto&&...) const { return {}; }
};
template <typename A, typename B>
concept rules = std::is_same_v<A, any_rule> || std::is_same_v<B, any_rule>;
#define SHIM_OP(op)                                                            \
    template <typename A, typename B>                                          \
        requires rules<A, B>                                                   \
    constexpr any_rule operator op(A, B) {                                     \
        return {};                                                             \
    }
SHIM_OP(+) SHIM_OP(-) SHIM_OP(|) SHIM_OP(/) SHIM_OP(>>) SHIM_OP(&) SHIM_OP(*)
#undef SHIM_OP

namespace dsl {
template <auto... C>
constexpr any_rule lit_c{};
template <typename T, typename... B>
constexpr any_rule integer{};
template <typename T>
constexpr any_rule p{};
template <typename T>
constexpr any_rule recurse{};
template <typename... T>
constexpr any_rule digit{};
template <typename... T>
constexpr any_rule digits{};
template <auto N>
constexpr any_rule times{};
constexpr any_rule whitespace{}, literal_set{}, until{}, not_followed_by{}, newline{}, eol{}, else_{}, if_{}, lookahead{}, followed_by{}, peek_not{};
constexpr any_rule peek{}, capture{}, token{}, while_one{}, while_{}, opt{}, list{}, sep{}, identifier{}, comma{}, curly_bracketed{}, round_bracketed{}, square_bracketed{}, any{}, eof{}, semicolon{}, colon{}, period{};
namespace ascii {
constexpr any_rule case_folding{}, word{}, print{}, graph{}, control{}, hex_digit{}, alpha{}, digit{}, alnum{}, alpha_digit{}, alpha_underscore{}, alpha_digit_underscore{}, character{}, space{}, blank{}, newline{}, punct{}, upper{}, lower{};
}
} // namespace dsl

struct any_callback {
    constexpr any_callback operator()(auto&&...) const { return {}; }
};
template <typename... T>
constexpr any_callback as_string{};
template <typename... T>
constexpr any_callback as_list{};
template <typename... T>
constexpr any_callback construct{};
template <typename T, typename... F>
constexpr any_callback callback(F&&...) {
    return {};
}
constexpr any_callback bind{};
struct placeholder {
    template <typename T>
    constexpr placeholder operator||(T&&) const {
        return {};
    }
};
constexpr placeholder _1{}, _2{}, _3{}, _4{};

struct nullopt {};
constexpr any_callback noop{};
struct default_encoding {};
template <typename Reader = void>
struct lexeme {
    char const* begin() const;
    char const* end() const;
};
template <typename... T>
using string_lexeme = lexeme<>;
template <typename Input>
struct error_context {};
template <typename Reader, typename Tag>
struct error {};

template <typename... T>
struct string_input {
    string_input(char const*, char const*) {}
    string_input(char const*, unsigned long) {}
    char const* data() const;
};
string_input(char const*, char const*) -> string_input<>;
string_input(char const*, unsigned long) -> string_input<default_encoding>;
inline string_input<> zstring_input(char const* s) { return {s, s}; }
struct visualization_options {
    int flags = 0;
};
constexpr int visualize_use_unicode = 1, visualize_use_symbols = 2, visualize_space = 4;
template <typename Rule, typename... T>
void trace_to(T&&...) {}

template <typename T, typename E>
struct result {
    bool has_value() const;
    bool is_success() const;
    T    value() const;
    E    errors() const;
};
template <typename T>
struct anything {
    auto begin() const { return (T const*)nullptr; }
};
struct convertible {
    template <typename T>
    operator T const&() const;
};
struct convertible_list {
    convertible* begin() const;
    convertible* end() const;
                 operator std::optional<int>() const;
};
template <typename Rule, typename Input, typename Errors>
result<convertible_list, std::vector<std::string>> parse(Input&&, Errors&&);
} // namespace lexy

namespace lexy_ext::_detail {
void write_error(auto&&...) {}
template <typename Out, typename C, typename E>
void write_error(Out, C const&, E const&, std::initializer_list<int>, std::nullptr_t) {}
} // namespace lexy_ext::_detail

#define LEXY_LIT(x) ::lexy::any_rule{}
#define LEXY_LITERAL_SET(...) ::lexy::any_rule{}
#define LEXY_CHAR_CLASS(name, ...) ::lexy::any_rule{}
