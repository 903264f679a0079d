#pragma once
#include <pbt.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace cont {
using namespace pbt;
// a heap-owning value with a small domain, printable and hashable by its text
struct Big {
    std::unique_ptr<int> p{};
    Big() = default;
    Big(int i) : p{std::make_unique<int>(i)} {}
    Big(Big const &o) : p{o.p ? std::make_unique<int>(*o.p) : nullptr} {}
    Big(Big &&) = default;
    Big &operator=(Big const &o) {
        p = o.p ? std::make_unique<int>(*o.p) : nullptr;
        return *this;
    }
    Big &operator=(Big &&) = default;
    int key() const { return p ? *p : -1; }
    friend bool operator==(Big const &a, Big const &b) {
        return a.key() == b.key();
    }
    friend bool operator<(Big const &a, Big const &b) {
        return a.key() < b.key();
    }
};
enum struct Color : std::uint8_t {};

template <typename T> T make(int i) {
    if constexpr (std::is_same_v<T, std::string>) {
        // short and long strings
        return i % 3 == 0 ? std::string(40, static_cast<char>('a' + i % 26)) +
                                std::to_string(i)
                          : std::to_string(i);
    } else if constexpr (std::is_enum_v<T>) {
        return static_cast<T>(i);
    } else {
        return T(i);
    }
}
template <typename T> std::string str(T const &t) {
    if constexpr (std::is_same_v<T, std::string>) {
        return t;
    } else if constexpr (std::is_same_v<T, Big>) {
        return std::to_string(t.key());
    } else {
        return show(t);
    }
}
// draws a value; a small domain makes repeats likely
template <typename T> T val(Ctx &c, int dom = 9) {
    return make<T>(c.range(0, dom - 1));
}
// capacities for which every step is checked at length are tried now and then
template <auto Large, auto Small> void rarely(Ctx &c) {
    if (c.choose(48) == 47) {
        Large(c);
    } else {
        Small(c);
    }
}
template <std::size_t N> constexpr std::size_t max_steps = N > 64 ? 8 : 60;
template <typename V> std::string str_all(V const &v) {
    std::string s = "[";
    for (auto const &x : v) {
        s += str(x) + " ";
    }
    return s + "]";
}
} // namespace cont
