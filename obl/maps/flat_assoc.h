// Small associative containers without hashing or balancing, for analysing code
// that is written over the standard ones. Elements keep their addresses.
#pragma once
#include <bits/stl_pair.h>
#include <bits/stl_function.h>
#include <bits/functional_hash.h>
#include <bits/stl_iterator_base_types.h>
#include <bits/range_access.h>
#include <bits/functexcept.h>
#include <initializer_list>
#include <tuple>
#include <new>

namespace flat {
constexpr int CAP = 4;
// Loops over the elements have a constant number of rounds and are unrolled.
#define FLAT_EACH(i, n)                                                                  \
    _Pragma("clang loop unroll(full)") for (int i = 0; i < CAP; ++i) if (i < n)

template <typename E>
struct iter {
    using iterator_category = std::forward_iterator_tag;
    using value_type        = E;
    using difference_type   = std::ptrdiff_t;
    using pointer           = E*;
    using reference         = E&;
    E* const* at            = nullptr;
    E&    operator*() const { return **at; }
    E*    operator->() const { return *at; }
    iter& operator++() { ++at; return *this; }
    iter  operator++(int) { iter r = *this; ++at; return r; }
    bool  operator==(iter const& o) const { return at == o.at; }
    bool  operator!=(iter const& o) const { return at != o.at; }
};
template <typename E>
struct citer {
    using iterator_category = std::forward_iterator_tag;
    using value_type        = E;
    using difference_type   = std::ptrdiff_t;
    using pointer           = E const*;
    using reference         = E const&;
    E* const* at            = nullptr;
    citer() = default;
    citer(E* const* p) : at(p) {}
    citer(iter<E> i) : at(i.at) {}
    E const& operator*() const { return **at; }
    E const* operator->() const { return *at; }
    citer&   operator++() { ++at; return *this; }
    citer    operator++(int) { citer r = *this; ++at; return r; }
    bool     operator==(citer const& o) const { return at == o.at; }
    bool     operator!=(citer const& o) const { return at != o.at; }
};

template <typename K, typename E, typename KeyOf, typename Same, typename Before>
struct base {
    using key_type       = K;
    using value_type     = E;
    using size_type      = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference      = E&;
    using const_reference = E const&;
    using iterator       = iter<E>;
    using const_iterator = citer<E>;

    E*  nodes[CAP];
    int n = 0;

    base() = default;
    base(base const& o) { FLAT_EACH(i, o.n) { nodes[i] = new E(*o.nodes[i]); } n = o.n; }
    base(base&& o) { FLAT_EACH(i, o.n) { nodes[i] = o.nodes[i]; } n = o.n; o.n = 0; }
    base(std::initializer_list<E> l) { for (auto const& e : l) { insert(e); } }
    template <typename It>
    base(It b, It e) { for (; b != e; ++b) { insert(*b); } }
    base& operator=(base const& o) {
        if (this != &o) {
            clear();
            FLAT_EACH(i, o.n) { nodes[i] = new E(*o.nodes[i]); }
            n = o.n;
        }
        return *this;
    }
    base& operator=(base&& o) {
        if (this != &o) {
            clear();
            FLAT_EACH(i, o.n) { nodes[i] = o.nodes[i]; }
            n   = o.n;
            o.n = 0;
        }
        return *this;
    }
    ~base() { clear(); }

    iterator       begin() { return {nodes}; }
    iterator       end() { return {nodes + n}; }
    const_iterator begin() const { return {nodes}; }
    const_iterator end() const { return {nodes + n}; }
    const_iterator cbegin() const { return {nodes}; }
    const_iterator cend() const { return {nodes + n}; }
    size_type      size() const { return n; }
    bool           empty() const { return n == 0; }
    void           reserve(size_type) {}
    void           clear() { FLAT_EACH(i, n) { delete nodes[i]; } n = 0; }

    int index(K const& k) const {
        FLAT_EACH(i, n) {
            if (Same{}(KeyOf{}(*nodes[i]), k)) { return i; }
        }
        return n;
    }
    iterator       find(K const& k) { return {nodes + index(k)}; }
    const_iterator find(K const& k) const { return {nodes + index(k)}; }
    size_type      count(K const& k) const { return index(k) != n; }
    bool           contains(K const& k) const { return index(k) != n; }

    std::pair<iterator, bool> put(E const& e) {
        int i = index(KeyOf{}(e));
        if (i != n) { return {iterator{nodes + i}, false}; }
        if (n == CAP) { __builtin_unreachable(); }
        i = n;
        _Pragma("clang loop unroll(full)") for (int j = CAP - 1; 0 < j; --j) {
            if (j == i && Before{}(KeyOf{}(e), KeyOf{}(*nodes[j - 1]))) {
                nodes[j] = nodes[j - 1];
                --i;
            }
        }
        nodes[i] = new E(e);
        ++n;
        return {iterator{nodes + i}, true};
    }
    std::pair<iterator, bool> insert(E const& e) { return put(e); }
    template <typename... A>
    std::pair<iterator, bool> emplace(A&&... a) { return put(E(static_cast<A&&>(a)...)); }
    template <typename It>
    void insert(It b, It e) { for (; b != e; ++b) { put(*b); } }
    void insert(std::initializer_list<E> l) { for (auto const& e : l) { put(e); } }
    size_type erase(K const& k) {
        int i = index(k);
        if (i == n) { return 0; }
        remove(i);
        return 1;
    }
    iterator erase(const_iterator p) { int i = p.at - nodes; remove(i); return {nodes + i}; }
    iterator erase(iterator p) { int i = p.at - nodes; remove(i); return {nodes + i}; }
    void remove(int i) {
        delete nodes[i];
        FLAT_EACH(j, n - 1) {
            if (i <= j) { nodes[j] = nodes[j + 1]; }
        }
        --n;
    }
    friend bool operator==(base const& a, base const& b) {
        if (a.n != b.n) { return false; }
        FLAT_EACH(i, a.n) {
            int j = b.index(KeyOf{}(*a.nodes[i]));
            if (j == b.n || !(*a.nodes[i] == *b.nodes[j])) { return false; }
        }
        return true;
    }
};

struct First { template <typename P> auto const& operator()(P const& p) const { return p.first; } };
struct Self { template <typename P> P const& operator()(P const& p) const { return p; } };
struct Never { template <typename A, typename B> bool operator()(A const&, B const&) const { return false; } };
struct Equal { template <typename A, typename B> bool operator()(A const& a, B const& b) const { return a == b; } };
template <typename Less>
struct Equiv { template <typename A, typename B> bool operator()(A const& a, B const& b) const { return !Less{}(a, b) && !Less{}(b, a); } };

template <typename K, typename V, typename Same, typename Before>
struct map : base<K, std::pair<const K, V>, First, Same, Before> {
    using B = base<K, std::pair<const K, V>, First, Same, Before>;
    using B::B;
    using mapped_type = V;
    using typename B::iterator;
    using B::nodes;
    using B::n;
    V& at(K const& k) {
        int i = B::index(k);
        if (i == n) { std::__throw_out_of_range("at"); }
        return nodes[i]->second;
    }
    V const& at(K const& k) const {
        int i = B::index(k);
        if (i == n) { std::__throw_out_of_range("at"); }
        return nodes[i]->second;
    }
    V& operator[](K const& k) { return B::put({k, V()}).first->second; }
    std::pair<iterator, bool> insert_or_assign(K const& k, V const& v) {
        auto r = B::put({k, v});
        if (!r.second) { r.first->second = v; }
        return r;
    }
    template <typename... A>
    std::pair<iterator, bool> try_emplace(K const& k, A&&... a) {
        int i = B::index(k);
        if (i != n) { return {iterator{nodes + i}, false}; }
        return B::put({k, V(static_cast<A&&>(a)...)});
    }
};
template <typename K, typename Same, typename Before>
struct set : base<K, K, Self, Same, Before> {
    using B = base<K, K, Self, Same, Before>;
    using B::B;
};
} // namespace flat
