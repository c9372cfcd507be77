#include <algorithm>
#include <format>
#include <fmt/core.h>
namespace fmt { using context = format_context; }
