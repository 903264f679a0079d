// Shared by all generated programs: reporting and the value types they use.
#pragma once
#include <array>
#include <compare>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace vb {
inline int cur = 0;
inline long checks = 0;
inline int fails = 0;

inline void fail(int line, char const *msg, char const *detail = "") {
    if (fails++ == 0) {
        std::printf("FAIL %d %s %s(line %d)\n", cur, msg, detail, line);
        std::fflush(stdout);
    }
}

template <typename A, typename B>
void check_eq(A const &a, B const &b, int line, char const *msg) {
    ++checks;
    if (not(a == b)) {
        char buf[160] = "";
        if constexpr (std::is_convertible_v<A, std::string_view> and
                      std::is_convertible_v<B, std::string_view>) {
            std::string_view x = a, y = b;
            std::snprintf(buf, sizeof buf, "got '%.*s', expected '%.*s' ",
                          int(x.size()), x.data(), int(y.size()), y.data());
        } else if constexpr (std::is_arithmetic_v<A> and
                             std::is_arithmetic_v<B>) {
            std::snprintf(buf, sizeof buf, "got %lld, expected %lld ",
                          (long long)a, (long long)b);
        }
        fail(line, msg, buf);
    }
}

inline int main(int argc, char **argv, void (*const cases[])(), int n) {
    int const first = argc > 1 ? std::atoi(argv[1]) : 0;
    int const last = argc > 2 ? std::atoi(argv[2]) : n;
    int any = 0;
    for (int i = first; i < last; ++i) {
        cur = i;
        checks = 0;
        fails = 0;
        std::printf("BEGIN %d\n", i);
        std::fflush(stdout);
        cases[i]();
        any |= fails;
        std::printf("END %d %ld\n", i, checks);
        std::fflush(stdout);
    }
    return any != 0;
}

// A comparable value that shows when it has been moved from.
template <int K> struct V {
    int v{};
    constexpr V() = default;
    constexpr explicit V(int x) : v{x} {}
    constexpr V(V const &o) : v{o.v} {}
    constexpr V(V &&o) noexcept : v{std::exchange(o.v, -1)} {}
    constexpr V &operator=(V const &o) {
        v = o.v;
        return *this;
    }
    constexpr V &operator=(V &&o) noexcept {
        v = std::exchange(o.v, -1);
        return *this;
    }
    friend constexpr bool operator==(V const &a, V const &b) {
        return a.v == b.v;
    }
    friend constexpr auto operator<=>(V const &a, V const &b) {
        return a.v <=> b.v;
    }
};
// The same, under a long name.
template <int K>
struct value_under_a_name_that_differs_from_others_only_at_its_end : V<K> {
    using V<K>::V;
};
template <int K>
using L = value_under_a_name_that_differs_from_others_only_at_its_end<K>;
// The same, but it cannot be copied.
template <int K> struct M {
    int v{};
    constexpr explicit M(int x) : v{x} {}
    constexpr M(M &&o) noexcept : v{std::exchange(o.v, -1)} {}
    constexpr M &operator=(M &&o) noexcept {
        v = std::exchange(o.v, -1);
        return *this;
    }
    friend constexpr bool operator==(M const &a, M const &b) {
        return a.v == b.v;
    }
    friend constexpr auto operator<=>(M const &a, M const &b) {
        return a.v <=> b.v;
    }
};
template <int K> struct E {
    friend constexpr bool operator==(E, E) { return true; }
    friend constexpr auto operator<=>(E, E) {
        return std::strong_ordering::equal;
    }
};
template <int> struct K {};
template <typename...> struct list {};
using ar3 = int[3];
using fun = void(int);
enum struct En : int {};
inline constexpr int pool[200]{};

constexpr long rd(int x) { return x; }
constexpr long rd(long x) { return x; }
constexpr long rd(unsigned x) { return x; }
constexpr long rd(char x) { return x; }
constexpr long rd(short x) { return x; }
constexpr long rd(bool x) { return x; }
constexpr long rd(double x) { return static_cast<long>(x); }
constexpr long rd(En x) { return static_cast<int>(x); }
constexpr long rd(int const *x) { return x - pool; }
template <int K> constexpr long rd(V<K> const &x) { return x.v; }
template <int K> constexpr long rd(M<K> const &x) { return x.v; }
template <int K> constexpr long rd(E<K> const &) { return 0; }

// What a recording function saw: type (with category) and value.
template <typename T> inline constexpr char tag_object{};
struct arg {
    void const *tag;
    long v;
    friend bool operator==(arg const &, arg const &) = default;
};
template <typename T> constexpr arg as(long v) { return {&tag_object<T>, v}; }
using args = std::vector<arg>;
template <typename... Xs> void put(args &log, Xs &&...xs) {
    (log.push_back(as<Xs &&>(rd(xs))), ...);
}
template <typename... Xs> constexpr long sum(Xs const &...xs) {
    return (0L + ... + rd(xs));
}

template <typename T> struct ty {
    using type = T;
};
} // namespace vb

#define CHK(cond, msg)                                                         \
    do {                                                                       \
        ++::vb::checks;                                                        \
        if (not(cond)) {                                                       \
            ::vb::fail(__LINE__, msg);                                         \
        }                                                                      \
    } while (0)
#define CHK_EQ(a, b, msg) ::vb::check_eq(a, b, __LINE__, msg)
#define VB_T(...) ::vb::ty<__VA_ARGS__>
#define CHK_SAME(a, b, msg) CHK((std::is_same_v<a, b>), msg)
