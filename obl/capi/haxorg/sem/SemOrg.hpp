// Stand-in: what the marshalling layer of the C interface names of the document model.
#pragma once
#include <concepts>
#include <cstdint>
#include <cstdio>
#include <exception>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>

namespace hstd {
template <typename T>
concept IsEnum = std::is_enum_v<T>;
namespace ext {
template <typename T>
struct ImmBox {
    T value;
      operator T const&() const { return value; }
    T const& get() const { return value; }
};
} // namespace ext
} // namespace hstd

namespace org::sem {
template <typename T>
struct SemId {
    T* value = nullptr;
};
} // namespace org::sem

// The message is only needed as being there and fitting into its buffer.
extern "C" void violation(char const*) noexcept;
namespace std {
template <typename... Args>
inline int ghost_snprintf(char* to, unsigned long n, char const* fmt, Args... args) {
    if (sizeof(to) == 8 && n > 256) { violation("the message fits into its buffer"); }
    if (n != 0) { to[0] = 'm'; }
    return 0;
}
} // namespace std
#define snprintf ghost_snprintf
