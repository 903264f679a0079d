#pragma once
#include <cmath>
#include <compare>
#include <cstdint>
#include <limits>
#include <memory>
#include <optional>
#include <pbt.hpp>
#include <stdx/optional.hpp>
#include <stdx/tuple.hpp>
#include <tuple>
#include <utility>

namespace opts {
using namespace pbt;
enum struct E : std::uint8_t {};
enum struct I16 : std::int16_t {};
// owns memory and counts its live objects; -1 is the sentinel
inline long live = 0;
struct Obj {
    explicit Obj(int v) : p{std::make_unique<int>(v)} { ++live; }
    Obj(int a, int b) : Obj{a * 10 + b} {}
    Obj(Obj const &o) : p{o.p ? std::make_unique<int>(*o.p) : nullptr} { ++live; }
    Obj(Obj &&o) noexcept : p{std::move(o.p)} { ++live; }
    Obj &operator=(Obj const &o) {
        if (this != &o) {
            p = o.p ? std::make_unique<int>(*o.p) : nullptr;
        }
        return *this;
    }
    Obj &operator=(Obj &&o) noexcept {
        p = std::move(o.p);
        return *this;
    }
    Obj &operator=(int v) {
        p = std::make_unique<int>(v);
        return *this;
    }
    ~Obj() { --live; }
    int get() const { return p ? *p : -1000; }
    friend bool operator==(Obj const &a, Obj const &b) {
        return a.get() == b.get();
    }
    friend bool operator<(Obj const &a, Obj const &b) {
        return a.get() < b.get();
    }
    friend auto operator<=>(Obj const &a, Obj const &b) {
        return a.get() <=> b.get();
    }
    std::unique_ptr<int> p;
};
inline int cells[8];
using Pair = std::pair<float, int *>;
using Tup = std::tuple<double, E>;
using STup = stdx::tuple<float, float>;
} // namespace opts
template <> struct stdx::tombstone_traits<opts::E> {
    constexpr auto operator()() const { return static_cast<opts::E>(0xff); }
};
template <> struct stdx::tombstone_traits<opts::Obj> {
    auto operator()() const { return opts::Obj{-1}; }
};
namespace opts {
// non-sentinel values by small index, increasing in order
template <typename T> T at(int k) {
    if constexpr (std::is_floating_point_v<T>) {
        T const v[] = {T(-1.5), T(-0.25), T(0), T(1), T(2.5), T(7), T(1e9), T(1e30)};
        return v[k];
    } else if constexpr (std::is_pointer_v<T>) {
        return cells + k;
    } else if constexpr (std::is_enum_v<T>) {
        return static_cast<T>(k * 17);
    } else if constexpr (std::is_same_v<T, Obj>) {
        return Obj{k * 3};
    } else if constexpr (std::is_same_v<T, Pair>) {
        // halves equal to a half of the sentinel are still values
        if (k == 7) {
            return {std::numeric_limits<float>::infinity(), cells};
        }
        return {at<float>(k / 2), k % 2 ? cells + k : nullptr};
    } else if constexpr (std::is_same_v<T, Tup>) {
        if (k == 7) {
            return {std::numeric_limits<double>::infinity(), at<E>(1)};
        }
        return {at<double>(k / 2), k % 2 ? static_cast<E>(0xff) : at<E>(k)};
    } else if constexpr (std::is_same_v<T, STup>) {
        if (k == 7) {
            return {std::numeric_limits<float>::infinity(), 1.0f};
        }
        return {at<float>(k / 2), k % 2 ? std::numeric_limits<float>::infinity()
                                        : at<float>(k)};
    } else {
        return static_cast<T>(k * 5 + 1); // integral with an explicit sentinel
    }
}
// the sentinel, written independently of the traits
template <typename T> T sentinel() {
    if constexpr (std::is_same_v<T, long double>) {
        return 2.25L;
    } else if constexpr (std::is_floating_point_v<T>) {
        return std::numeric_limits<T>::infinity();
    } else if constexpr (std::is_pointer_v<T>) {
        return nullptr;
    } else if constexpr (std::is_same_v<T, E>) {
        return static_cast<E>(0xff);
    } else if constexpr (std::is_same_v<T, I16>) {
        return static_cast<I16>(-7);
    } else if constexpr (std::is_same_v<T, Obj>) {
        return Obj{-1};
    } else if constexpr (std::is_same_v<T, Pair>) {
        return {std::numeric_limits<float>::infinity(), nullptr};
    } else if constexpr (std::is_same_v<T, Tup>) {
        return {std::numeric_limits<double>::infinity(), static_cast<E>(0xff)};
    } else if constexpr (std::is_same_v<T, STup>) {
        return {std::numeric_limits<float>::infinity(),
                std::numeric_limits<float>::infinity()};
    } else {
        return static_cast<T>(99);
    }
}
template <typename T> struct opt_of {
    using type = stdx::optional<T>;
};
template <> struct opt_of<int> {
    using type = stdx::optional<int, stdx::tombstone_value<99>>;
};
template <> struct opt_of<std::uint64_t> {
    using type = stdx::optional<std::uint64_t, stdx::tombstone_value<[] {
                                    return std::uint64_t{99};
                                }()>>;
};
struct inner_sentinel { // with values on both sides of it
    constexpr auto operator()() const { return 2.25L; }
};
template <> struct opt_of<long double> {
    using type = stdx::optional<long double, inner_sentinel>;
};
struct stup_sentinel {
    constexpr auto operator()() const {
        return STup{std::numeric_limits<float>::infinity(),
                    std::numeric_limits<float>::infinity()};
    }
};
template <> struct opt_of<STup> {
    using type = stdx::optional<STup, stup_sentinel>;
};
template <> struct opt_of<I16> {
    using type =
        stdx::optional<I16, stdx::tombstone_value<static_cast<I16>(-7)>>;
};
template <typename T> using opt = typename opt_of<T>::type;
} // namespace opts
