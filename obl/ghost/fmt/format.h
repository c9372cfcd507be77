// Stand-in for {fmt}: a single replacement field, read at compile time.
#pragma once
#include <string>

struct Element {
    int index;
};

namespace fmt {
struct format_context {};
template <typename T>
struct formatter {
    void format(T const&, format_context&);
};
struct field {
    bool understood = true;
    bool plain      = false; ///< nothing but {}
    bool literal    = false; ///< text around the field
    int  arg        = 0;
    int  width      = 0;
    int  width_arg  = -1;
    bool zero       = false;
    char type       = 0;

    consteval field(char const* s) {
        int next = 0;
        while (*s && *s != '{') {
            literal = true;
            ++s;
        }
        if (*s != '{' || s[1] == '{') {
            understood = false;
            return;
        }
        ++s;
        if ('0' <= *s && *s <= '9') {
            arg = *s++ - '0';
        } else {
            arg = next++;
        }
        if (*s == '}') {
            plain = true;
            rest(s);
            return;
        }
        if (*s != ':') {
            understood = false;
            return;
        }
        ++s;
        if (*s == '0') {
            zero = true;
            ++s;
        }
        if (*s == '{') {
            ++s;
            if ('0' <= *s && *s <= '9') {
                width_arg = *s++ - '0';
            } else {
                width_arg = next++;
            }
            if (*s != '}') {
                understood = false;
                return;
            }
            ++s;
        } else {
            while ('0' <= *s && *s <= '9') { width = width * 10 + (*s++ - '0'); }
        }
        if (*s && *s != '}') { type = *s++; }
        if (*s == '}') {
            rest(s);
        } else {
            understood = false;
        }
    }
    consteval void rest(char const* s) {
        for (++s; *s; ++s) {
            literal = true;
            if (*s == '{' || *s == '}') { understood = false; }
        }
    }
};

template <typename T>
inline long long as_number(T const& v) {
    if constexpr (std::is_integral_v<T>) {
        return (long long)v;
    } else {
        return opaque_value();
    }
}

template <typename T>
inline std::string one(field f, T const& v, long long width) {
    std::string r;
    if constexpr (std::is_same_v<T, Element>) {
        r.kind = f.plain ? ghost::Run : ghost::Broken;
        r.a    = v.index;
        r.b    = 1ll + v.index;
    } else if constexpr (std::is_same_v<T, std::string>) {
        r = v;
        if (!f.plain) { r.kind = ghost::Broken; }
    } else if constexpr (std::is_integral_v<T>) {
        r.kind  = ghost::Number;
        r.a     = (long long)v;
        r.b     = f.type == 'x' || f.type == 'X' ? 16 : f.type == 'b' || f.type == 'B' ? 2 : f.type == 'o' ? 8 : f.type == 'c' ? 0 : 10;
        r.width = (int)width;
        r.zero  = f.zero;
        r.upper = f.type == 'X' || f.type == 'B';
    } else {
        r.kind = opaque_value();
    }
    if (f.literal && r.kind != ghost::Empty) { r.kind = ghost::Broken; }
    return r;
}

template <typename... A>
inline std::string format(field f, A const&... args) {
    if (!f.understood) {
        std::string r;
        r.kind = opaque_value();
        return r;
    }
    long long   width = f.width;
    int         i     = 0;
    std::string res;
    ((f.width_arg == i++ ? void(width = as_number(args)) : void()), ...);
    i = 0;
    ((f.arg == i++ ? void(res = one(f, args, width)) : void()), ...);
    return res;
}
inline std::string to_string(Element const& e) { return one(field("{}"), e, 0); }
} // namespace fmt
