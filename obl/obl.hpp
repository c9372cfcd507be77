// Vocabulary of the proof obligations.
//
// An obligation is a function that receives arbitrary inputs, narrows them to
// the precondition of the property with ASSUME, calls the code of /repo and
// REQUIREs the documented result. lib/irabs.py analyses the compiled function;
// nothing here is ever executed.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" void violation(char const*) noexcept;
// Values the analysis knows nothing about.
extern "C" int           any_int() noexcept;
extern "C" long          any_long() noexcept;
extern "C" unsigned long any_ulong() noexcept;
extern "C" bool          any_bool() noexcept;
extern "C" void*         any_ptr() noexcept;

// OBL(id, name): nothing may be thrown. OBL_THROWS: throwing is fine.
// OBL_CONTAINS: exceptions may be thrown inside but none may leave.
#define OBL(id, name) extern "C" void obl_##id##_##name
#define OBL_THROWS(id, name) extern "C" void oblt_##id##_##name
#define OBL_CONTAINS(id, name) extern "C" void oblc_##id##_##name
#define ASSUME(c)                                                                        \
    do {                                                                                 \
        if (!(c)) { return; }                                                            \
    } while (0)
#define REQUIRE(c)                                                                       \
    do {                                                                                 \
        if (!(c)) { violation(#c); }                                                     \
    } while (0)
