#pragma once
#include <string>
#include <vector>
#include <optional>
#include <exception>
#include <cstdint>
namespace cpptrace {
struct nullable_u32 { std::uint32_t v=0; std::uint32_t value_or(std::uint32_t d) const { return v ? v : d; } bool has_value() const {return v!=0;} std::uint32_t value() const {return v;} };
struct stacktrace_frame {
    std::uintptr_t raw_address=0; std::uintptr_t object_address=0;
    nullable_u32 line, column; std::string filename; std::string symbol; bool is_inline=false;
    std::string to_string() const; std::string to_string(bool) const;
};
struct stacktrace {
    std::vector<stacktrace_frame> frames;
    auto begin() const { return frames.begin(); }
    auto end() const { return frames.end(); }
    std::string to_string(bool color=false) const { return {}; }
    void print() const {}
    bool empty() const { return frames.empty(); }
};
inline stacktrace generate_trace(std::size_t skip=0) { return {}; }
struct exception : std::exception {
    virtual const char* message() const noexcept = 0;
    virtual stacktrace const& trace() const noexcept = 0;
};
struct lazy_exception : exception {
    stacktrace t;
    const char* what() const noexcept override { return message(); }
    const char* message() const noexcept override { return "cpptrace::lazy_exception"; }
    stacktrace const& trace() const noexcept override { return t; }
};
}
