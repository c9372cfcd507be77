// @throws .
// @stand-ins ghost
#include <functional>
#include <string>
#include <hstd/system/basic_templates.cpp>
#include <hstd/system/basic_typedefs.hpp>
#include "obl.hpp"

extern "C" void*       any_ptr() noexcept;
extern "C" char const* any_text() noexcept;

OBL(C21, string_literal_keeps_every_character)(char const* text, unsigned long size) {
    ASSUME(size < (1ul << 40));
    std::string r = hstd::operator""_qs(text, size);
    REQUIRE(r.kind == ghost::Block);
    REQUIRE(r.p == text);
    REQUIRE(r.b == (long long)size);
}
OBL(C21, u8_literal)(unsigned long long v) {
    hstd::u8 r = hstd::operator""_u8(v);
    REQUIRE(r == (v & 255));
}
OBL(C21, i8_literal)(unsigned long long v) {
    hstd::i8 r = hstd::operator""_i8(v);
    ASSUME(v < 128);
    REQUIRE(r == (int)v);
}
OBL(C21, const_view_is_the_object_itself)(int* v) {
    ASSUME(v != nullptr);
    int const& r = hstd::cr(*v);
    REQUIRE(&r == v);
}

static int         demangled; ///< 0 never asked, 1 failed, 2 succeeded
static char*       buffer;
static char const* asked;
static int         frees;
static bool        used_after_free;

extern "C" char* __cxa_demangle(char const* name, char* out, std::size_t* n, int* status) {
    asked = name;
    if (out || n) { violation("no buffer is handed to the demangler"); }
    if (coin()) {
        demangled = 1;
        *status   = -2;
        return nullptr;
    }
    demangled = 2;
    *status   = 0;
    return buffer;
}
extern "C" void free(void* p) noexcept {
    if (p == nullptr) { return; }
    if (p != buffer) { violation("only the demangled text is freed"); }
    ++frees;
}
extern "C" void text_read(char const* from) noexcept {
    if (from == nullptr) { violation("text is read from a null pointer"); }
    if (from == buffer && frees != 0) { violation("text is read after it was freed"); }
}

OBL(C21, demangle_yields_the_readable_name_or_the_given_one)(char const* name, char* mine) {
    ASSUME(name != nullptr && mine != nullptr && mine != name);
    buffer    = mine;
    frees     = 0;
    demangled = 0;
    asked     = nullptr;
    std::string r = hstd::demangle(name);
    REQUIRE(demangled != 0);
    REQUIRE(asked == name);
    REQUIRE(r.kind == ghost::Text);
    if (demangled == 2) {
        REQUIRE(r.p == mine);
        REQUIRE(frees == 1);
    } else {
        REQUIRE(r.p == name);
        REQUIRE(frees == 0);
    }
}
