#pragma once
#include <pbt.hpp>
#include <stdx/bitset.hpp>
#include <stdx/ct_string.hpp>

#include <array>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace bs {
using namespace pbt;
using model = std::vector<bool>;

inline std::string text(model const &m) {
    std::string s;
    for (auto i = m.size(); i-- > 0;) {
        s += m[i] ? '1' : '0';
    }
    return s;
}

enum struct E5 : std::uint8_t { A, B, C, D, E, MAX };
enum struct E9 : unsigned { A, B, C, D, E, F, G, H, I, MAX };
enum struct E20 : unsigned { ZERO, FIRST, LAST = 19, MAX };

template <auto Size, typename... Elem> struct cfg {
    using type = stdx::bitset<Size, Elem...>;
    constexpr static std::size_t N = static_cast<std::size_t>(Size);
    using size_t_ = decltype(Size);
    constexpr static bool enum_sized = std::is_enum_v<size_t_>;
    // index argument: the enumeration where the size is one
    static auto ix(std::size_t i) {
        if constexpr (enum_sized) {
            return static_cast<size_t_>(i);
        } else {
            return i;
        }
    }
};

template <typename C> void compare_bits(typename C::type const &b, model const &m) {
    for (std::size_t i = 0; i < C::N; ++i) {
        REQ(b[C::ix(i)] == m[i], "bit %zu, expected contents %s", i,
            text(m).c_str());
    }
}

inline std::size_t popcount(model const &m) {
    std::size_t n = 0;
    for (auto b : m) {
        n += b;
    }
    return n;
}

// Observers that must agree with the model in any state.
template <typename C>
void observe(typename C::type const &b, model const &m) {
    auto const n = popcount(m);
    compare_bits<C>(b, m);
    REQ_EQ(b.count(), n, "count");
    REQ_EQ(b.size(), n, "size");
    REQ_EQ(b.empty(), n == 0, "empty");
    REQ_EQ(b.none(), n == 0, "none");
    REQ_EQ(b.any(), n != 0, "any");
    REQ_EQ(b.all(), n == C::N, "all");
}

template <typename C> typename C::type make(model const &m) {
    typename C::type b{};
    for (std::size_t i = 0; i < C::N; ++i) {
        if (m[i]) {
            b.set(C::ix(i));
        }
    }
    return b;
}

template <std::size_t N> model random_model(Ctx &c) {
    model m(N);
    for (std::size_t at = 0; at < N; at += 64) {
        auto const w = std::min<std::size_t>(64, N - at);
        auto const v = c.bits(static_cast<unsigned>(w));
        for (std::size_t i = 0; i < w; ++i) {
            m[at + i] = ((v >> i) & 1u) != 0;
        }
    }
    return m;
}

// one mutating step on (b, m); returns a short name
template <typename C> void step(Ctx &c, typename C::type &b, model &m) {
    using B = typename C::type;
    constexpr auto N = C::N;
    switch (c.weighted({3, 2, 2, 3, 2, 2, 1, 2, 1, 2, 2, 2, 2, 1, 3, 3, 1, 1,
                        2, 2, 1})) {
    case 0: {
        auto const i = c.choose(N);
        c.note("set(%zu)", i);
        b.set(C::ix(i));
        m[i] = true;
        break;
    }
    case 1: {
        auto const i = c.choose(N);
        auto const v = c.flip();
        c.note("set(%zu,%d)", i, v);
        b.set(C::ix(i), v);
        m[i] = v;
        break;
    }
    case 2: {
        auto const i = c.choose(N);
        c.note("reset(%zu)", i);
        if (c.flip()) {
            b.reset(C::ix(i));
        } else {
            b.clear(C::ix(i));
        }
        m[i] = false;
        break;
    }
    case 3: {
        auto const i = c.choose(N);
        c.note("flip(%zu)", i);
        b.flip(C::ix(i));
        m[i] = not m[i];
        break;
    }
    case 4:
    case 5: { // lsb/msb and lsb/length ranges
        auto l = c.choose(N), h = c.choose(N);
        if (l > h) {
            std::swap(l, h);
        }
        auto const mode = c.choose(6);
        c.note("range op %d [%zu,%zu]", int(mode), l, h);
        auto const L = static_cast<stdx::lsb_t>(l);
        auto const M = static_cast<stdx::msb_t>(h);
        auto const K = static_cast<stdx::length_t>(h - l + 1);
        bool v = true;
        switch (mode) {
        case 0:
            b.set(L, M);
            break;
        case 1:
            b.set(L, K);
            break;
        case 2:
            b.reset(L, M);
            v = false;
            break;
        case 3:
            b.reset(L, K);
            v = false;
            break;
        case 4:
            v = c.flip();
            b.set(L, M, v);
            break;
        default:
            v = c.flip();
            b.set(L, K, v);
            break;
        }
        for (auto i = l; i <= h; ++i) {
            m[i] = v;
        }
        LABEL(c, "range update");
        break;
    }
    case 6:
        c.note("set()");
        b.set();
        m.assign(N, true);
        break;
    case 7:
        c.note("flip()");
        b.flip();
        m.flip();
        break;
    case 8:
        c.note("reset()");
        if (c.flip()) {
            b.reset();
        } else {
            b.clear();
        }
        m.assign(N, false);
        break;
    case 9:
    case 10:
    case 11:
    case 12: { // binary ops with a random other, itself in any state
        auto const om = random_model<N>(c);
        auto o = make<C>(om);
        auto const junk = c.choose(3);
        auto rm = om;
        if (junk == 1) { // reach the same value through complement
            o = ~~o;
        } else if (junk == 2) {
            o.flip();
            rm.flip();
        }
        auto const op = c.choose(4);
        auto const compound = c.flip();
        c.note("%s%s %s (how %d)", op == 0   ? "|"
                                   : op == 1 ? "&"
                                   : op == 2 ? "^"
                                             : "-",
               compound ? "=" : "", text(rm).c_str(), int(junk));
        auto const before = rm;
        switch (op) {
        case 0:
            if (compound) {
                auto &r = (b |= o);
                REQ(&r == &b, "compound operator returns its object");
            } else {
                b = b | o;
            }
            break;
        case 1:
            if (compound) {
                b &= o;
            } else {
                b = b & o;
            }
            break;
        case 2:
            if (compound) {
                b ^= o;
            } else {
                b = b ^ o;
            }
            break;
        default:
            b = b - o;
            break;
        }
        for (std::size_t i = 0; i < N; ++i) {
            bool const x = m[i], y = rm[i];
            m[i] = op == 0 ? (x or y) : op == 1 ? (x and y)
                   : op == 2 ? (x != y)
                             : (x and not y);
        }
        compare_bits<C>(o, before);
        LABEL(c, "binary operator");
        break;
    }
    case 13:
        c.note("~");
        b = ~b;
        m.flip();
        LABEL(c, "complement");
        break;
    case 14:
    case 15: {
        auto const left = c.flip();
        std::size_t k{};
        switch (c.choose(5)) {
        case 0:
            k = c.choose(N + 2);
            break;
        case 1:
            k = N + c.choose(70);
            LABEL(c, "shift by capacity or more");
            break;
        case 2:
            k = std::min<std::size_t>(8 * c.choose(9), N);
            break;
        default:
            k = c.choose(N);
            break;
        }
        auto const compound = c.flip();
        c.note("%s%s %zu", left ? "<<" : ">>", compound ? "=" : "", k);
        if (left) {
            if (compound) {
                b <<= k;
            } else {
                b = b << k;
            }
        } else {
            if (compound) {
                b >>= k;
            } else {
                b = b >> k;
            }
        }
        model r(N);
        for (std::size_t i = 0; i < N; ++i) {
            if (left) {
                r[i] = i >= k and m[i - k];
            } else {
                r[i] = k < N and i + k < N and m[i + k];
            }
        }
        m = r;
        LABEL(c, "shift");
        break;
    }
    case 16:
        m = random_model<N>(c);
        c.note("assign %s", text(m).c_str());
        b = make<C>(m);
        break;
    case 17:
        c.note("all_bits");
        b = B{stdx::all_bits};
        m.assign(N, true);
        break;
    case 18: { // value constructor, possibly with bits beyond the capacity
        auto const v = c.bits(64);
        c.note("value 0x%llx", static_cast<unsigned long long>(v));
        b = B{std::uint64_t{v}};
        for (std::size_t i = 0; i < N; ++i) {
            m[i] = i < 64 and ((v >> i) & 1u) != 0;
        }
        break;
    }
    case 19: { // self operations
        auto const op = c.choose(4);
        c.note("self op %d", int(op));
        switch (op) {
        case 0:
            b |= b;
            break;
        case 1:
            b &= b;
            break;
        case 2:
            b ^= b;
            m.assign(N, false);
            break;
        default:
            b = b - b;
            m.assign(N, false);
            break;
        }
        break;
    }
    default: {
        c.note("copy");
        B const k = b;
        b = B{};
        b = k;
        break;
    }
    }
}

#define BS_CONFIGS_0(X)                                                        \
    X(1, std::uint8_t)                                                         \
    X(7, std::uint8_t)                                                         \
    X(8, std::uint8_t) X(9, std::uint8_t) X(16, std::uint8_t)                  \
        X(21, std::uint8_t) X(266, std::uint8_t)
#define BS_CONFIGS_1(X)                                                        \
    X(3, std::uint16_t)                                                        \
    X(16, std::uint16_t)                                                       \
    X(17, std::uint16_t) X(40, std::uint16_t) X(48, std::uint16_t)             \
        X(bs::E5::MAX)
#define BS_CONFIGS_2(X)                                                        \
    X(5, std::uint32_t)                                                        \
    X(32, std::uint32_t) X(33, std::uint32_t) X(64, std::uint32_t)             \
        X(75, std::uint32_t) X(300, std::uint32_t) X(bs::E9::MAX)
#define BS_CONFIGS_3(X)                                                        \
    X(2, std::uint64_t)                                                        \
    X(63, std::uint64_t) X(64, std::uint64_t) X(65, std::uint64_t)             \
        X(130, std::uint64_t) X(bs::E20::MAX, std::uint8_t)
#define BS_CONFIGS_4(X)                                                        \
    X(4)                                                                       \
    X(13) X(31) X(60) X(77) X(128) X(70, unsigned long long)

#if PART == 0
#define BS_CONFIGS BS_CONFIGS_0
#elif PART == 1
#define BS_CONFIGS BS_CONFIGS_1
#elif PART == 2
#define BS_CONFIGS BS_CONFIGS_2
#elif PART == 3
#define BS_CONFIGS BS_CONFIGS_3
#else
#define BS_CONFIGS BS_CONFIGS_4
#endif
} // namespace bs
