// @throws .
#include <functional>
#include <stdexcept>
#include <type_traits>
#include <hstd/stdlib/Func.hpp>
#include "obl.hpp"

extern "C" void may_throw();
extern "C" bool coin() noexcept;

struct Bump {
    int* n;
    void operator()() const { ++*n; }
};

OBL(C03, runs_once_at_scope_exit)() {
    int n = 0;
    {
        hstd::finally<Bump> f{Bump{&n}};
        REQUIRE(n == 0);
    }
    REQUIRE(n == 1);
}
OBL(C03, runs_once_on_early_return)() {
    int  n  = 0;
    auto go = [&]() {
        hstd::finally<Bump> f{Bump{&n}};
        if (coin()) { return 1; }
        return 2;
    };
    int r = go();
    REQUIRE(n == 1);
    REQUIRE(r == 1 || r == 2);
}
OBL_THROWS(C03, runs_once_when_an_exception_leaves_the_scope)() {
    int n = 0;
    struct Outer {
        int& n;
        ~Outer() { REQUIRE(n == 1); }
    } outer{n};
    {
        hstd::finally<Bump> f{Bump{&n}};
        may_throw();
        REQUIRE(n == 0);
    }
}
OBL(C03, nested_guards_run_innermost_first)() {
    int order = 0, first = 0, second = 0;
    {
        auto a = [&]() { first = ++order; };
        auto b = [&]() { second = ++order; };
        hstd::finally<decltype(a)> fa{a};
        hstd::finally<decltype(b)> fb{b};
    }
    REQUIRE(second == 1);
    REQUIRE(first == 2);
}
OBL(C03, captured_value_is_passed_once)(int value) {
    int n = 0, got = 0, orig = value;
    {
        auto f = hstd::finally_std::init([&](int const& v) { ++n; got = v; }, value);
        value  = 0;
        REQUIRE(n == 0);
    }
    REQUIRE(n == 1);
    REQUIRE(got == orig);
}
OBL(C03, returned_guard_runs_once)() {
    int  n    = 0;
    auto make = [&]() { return hstd::finally<Bump>{Bump{&n}}; };
    {
        auto f = make();
        REQUIRE(n == 0);
    }
    REQUIRE(n == 1);
}
OBL(C03, type_erased_guard_runs_once)() {
    int n = 0;
    {
        hstd::finally_std f{Bump{&n}};
        REQUIRE(n == 0);
    }
    REQUIRE(n == 1);
}
OBL(C03, nop_guard_is_harmless)() {
    auto f = hstd::finally_std::nop();
}
// A second owner would run the action a second time.
static_assert(!std::is_copy_constructible_v<hstd::finally<Bump>>, "a scope guard must not be copyable");
static_assert(!std::is_copy_assignable_v<hstd::finally<Bump>>, "a scope guard must not be copyable");
static_assert(!std::is_convertible_v<Bump, hstd::finally<Bump>>);

// ---- accessors turned into functions
struct Obj {
    long x;
    long y;
    long gx() const { return x + 1; }
    long gy() const { return y + 2; }
    bool px() const { return x == 3; }
};
OBL(C03, field_getter_reads_that_field)(long x, long y) {
    Obj o{x, y};
    REQUIRE(hstd::get_field_get(&Obj::x)(o) == x);
    REQUIRE(hstd::get_field_get(&Obj::y)(o) == y);
}
OBL(C03, method_getter_calls_that_method)(long x, long y) {
    ASSUME(0 < x && x < 1000 && 0 < y && y < 1000);
    Obj o{x, y};
    REQUIRE(hstd::get_getter_get(&Obj::gx)(o) == x + 1);
    REQUIRE(hstd::get_getter_get(&Obj::gy)(o) == y + 2);
}
OBL(C03, method_filter_returns_the_predicate)(long x, long y) {
    Obj o{x, y};
    REQUIRE(hstd::get_method_filter(&Obj::px)(o) == (x == 3));
}
// ---- exception probe
OBL(C03, no_exception_reports_normal_return)() {
    int  n = 0;
    bool r = hstd::no_exception([&]() { ++n; });
    REQUIRE(r);
    REQUIRE(n == 1);
}
OBL(C03, no_exception_reports_and_contains_throw)() {
    int  done = 0;
    bool r    = hstd::no_exception([&]() {
        may_throw();
        done = 1;
    });
    REQUIRE(r == (done == 1));
}
// ---- overload sets
OBL(C03, overloaded_picks_the_matching_callable)(long v) {
    hstd::overloaded o{[](int) { return 1; }, [](long) { return 2; }, [](char const*) { return 3; }};
    REQUIRE(o(1) == 1);
    REQUIRE(o(v) == 2);
    REQUIRE(o("") == 3);
}
