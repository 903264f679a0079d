#include <pbt.hpp>
#include <stdx/rollover.hpp>
#include <type_traits>
using namespace pbt;
namespace {
template <typename T> constexpr u128 mod = u128{1} << (sizeof(T) * 8);
template <typename T> u64 red(u128 v) { return static_cast<u64>(v % mod<T>); }

template <typename T> T value(Ctx &c) {
    constexpr T half = static_cast<T>(T{1} << (sizeof(T) * 8 - 1));
    switch (c.choose(5)) {
    case 0: return static_cast<T>(half + static_cast<T>(c.range(-3, 3)));
    case 1: return static_cast<T>(static_cast<T>(c.range(-3, 3)));
    default: return c.integer<T>();
    }
}
template <typename T> void arithmetic(Ctx &c) {
    using R = stdx::rollover_t<T>;
    constexpr u128 M = mod<T>;
    u128 m = value<T>(c);
    R r{static_cast<T>(m)};
    c.note("start %llu", static_cast<unsigned long long>(m));
    std::size_t n = 0, big = 0;
    auto state = [&](R const &x, u128 want, char const *what) {
        REQ(x.as_underlying() == static_cast<T>(want), "%s: got %llu expected %llu",
            what, static_cast<unsigned long long>(x.as_underlying()),
            static_cast<unsigned long long>(want));
        REQ(static_cast<T>(x) == static_cast<T>(want), "%s: conversion", what);
    };
    while (n < 20 and c.more(8)) {
        ++n;
        T const v = value<T>(c);
        u128 const mv = v;
        R const o{v};
        auto const op = c.choose(12);
        c.note("operation %d with %llu", int(op),
               static_cast<unsigned long long>(v));
        auto both = [&](u128 want, R viaop, auto assign, char const *what) {
            want %= M;
            state(viaop, want, what);
            auto &ret = assign();
            REQ(&ret == &r, "%s= returns the object", what);
            m = want;
        };
        big += m + mv >= M;
        switch (op) {
        case 0: both(m + mv, r + o, [&]() -> R & { return r += o; }, "+"); break;
        case 1: both(m + M - mv, r - o, [&]() -> R & { return r -= o; }, "-"); break;
        case 2: {
            u128 const w = red<T>(m * mv); // both factors below 2^64
            both(w, r * o, [&]() -> R & { return r *= o; }, "*");
            break;
        }
        case 3:
            if (v != 0) {
                both(m / mv, r / o, [&]() -> R & { return r /= o; }, "/");
            }
            break;
        case 4:
            if (v != 0) {
                both(m % mv, r % o, [&]() -> R & { return r %= o; }, "%");
            }
            break;
        case 5: REQ(&++r == &r, "++ returns the object"); m = (m + 1) % M; break;
        case 6: {
            auto const was = r++;
            state(was, m, "post ++");
            m = (m + 1) % M;
            break;
        }
        case 7: REQ(&--r == &r, "-- returns the object"); m = (m + M - 1) % M; break;
        case 8: {
            auto const was = r--;
            state(was, m, "post --");
            m = (m + M - 1) % M;
            break;
        }
        case 9:
            r = -r;
            m = (M - m) % M;
            break;
        case 10:
            r = +r;
            break;
        default: {
            REQ((r == o) == (m == mv) and (r != o) == (m != mv), "equality");
            // b is reached from a in 1 .. half steps forward
            auto const steps = (mv + M - m) % M;
            REQ(cmp_less(r, o) == (steps >= 1 and steps <= M / 2),
                "%llu precedes %llu", static_cast<unsigned long long>(m),
                static_cast<unsigned long long>(mv));
            auto const back = (m + M - mv) % M;
            REQ(cmp_less(o, r) == (back >= 1 and back <= M / 2),
                "%llu precedes %llu", static_cast<unsigned long long>(mv),
                static_cast<unsigned long long>(m));
            auto const copy = r;
            REQ(copy == r and not cmp_less(copy, r), "itself");
        }
        }
        state(r, m, "after a step");
    }
    c.nontrivial(n >= 2 and big >= 1);
}
template <typename A, typename B> void convert(Ctx &c) {
    auto const a = value<A>(c);
    auto const b = value<B>(c);
    c.note("%llu %llu", static_cast<unsigned long long>(a),
           static_cast<unsigned long long>(b));
    stdx::rollover_t<A> const ra{a};
    stdx::rollover_t<B> const rb{ra}; // between widths
    REQ(rb.as_underlying() == static_cast<B>(a), "conversion between widths");
    auto const rs = stdx::rollover_t<A>{static_cast<std::make_signed_t<B>>(b)};
    REQ(rs.as_underlying() == static_cast<A>(static_cast<std::make_signed_t<B>>(b)),
        "construction from a signed value");
    auto const d = stdx::rollover_t{a};
    static_assert(std::is_same_v<decltype(d), stdx::rollover_t<A> const>);
    REQ(d == ra, "deduced");
    if constexpr (std::is_unsigned_v<std::common_type_t<A, B>>) {
        using C = std::common_type_t<stdx::rollover_t<A>, stdx::rollover_t<B>>;
        static_assert(
            std::is_same_v<C, stdx::rollover_t<std::common_type_t<A, B>>>);
        C const s = C{ra} + C{stdx::rollover_t<B>{b}};
        REQ(s.as_underlying() ==
                static_cast<typename C::underlying_t>(
                    static_cast<u128>(a) + static_cast<u128>(b)),
            "sum in the common type");
        static_assert(
            std::is_same_v<std::common_type_t<stdx::rollover_t<A>, B>,
                           stdx::rollover_t<std::common_type_t<A, B>>>);
        static_assert(
            std::is_same_v<
                std::common_type_t<stdx::rollover_t<A>, std::make_signed_t<B>>,
                stdx::rollover_t<std::common_type_t<A, B>>>);
    }
    c.nontrivial(a != 0 and b != 0);
}
// the order follows a counter that keeps stepping forward
template <typename T> void window(Ctx &c) {
    using R = stdx::rollover_t<T>;
    constexpr u128 M = mod<T>;
    auto const a = value<T>(c);
    u128 const step = static_cast<T>(c.flip() ? value<T>(c)
                                              : static_cast<T>(c.choose(2000)));
    auto const b = static_cast<T>(a + static_cast<T>(step));
    c.note("%llu then %llu", static_cast<unsigned long long>(a),
           static_cast<unsigned long long>(b));
    REQ(cmp_less(R{a}, R{b}) == (step >= 1 and step <= M / 2), "forward");
    REQ(cmp_less(R{b}, R{a}) == (step >= M / 2), "backward");
    REQ((R{b} - R{a}).as_underlying() == static_cast<T>(step), "distance");
    c.nontrivial(step != 0 and b < a);
}
static_assert(stdx::rollover_t<u8>{}.as_underlying() == 0);
REG("u8", 3, arithmetic<u8>);
REG("u16", 3, arithmetic<u16>);
REG("u32", 2, arithmetic<u32>);
REG("u64", 2, arithmetic<u64>);
REG("window u8", 1, window<u8>);
REG("window u16", 1, window<u16>);
REG("window u32", 1, window<u32>);
REG("window u64", 1, window<u64>);
REG("convert u8 u16", 1, convert<u8, u16>);
REG("convert u16 u8", 1, convert<u16, u8>);
REG("convert u8 u64", 1, convert<u8, u64>);
REG("convert u64 u32", 1, convert<u64, u32>);
REG("convert u32 u16", 1, convert<u32, u16>);
} // namespace
