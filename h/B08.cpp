#include <pbt.hpp>
#include <array>
#include <numeric>
#include <stdx/bit.hpp>
#include <utility>
using namespace pbt;
namespace {
template <typename T> constexpr std::size_t W = sizeof(T) * 8;
template <typename T> bool bit(T x, std::size_t i) {
    return ((x >> i) & 1u) != 0;
}

#if PART == 0
PROPERTY("pack", 10) {
    auto const k = c.choose(6);
    u8 b[8];
    u16 w[4];
    u32 d[2];
    for (auto &x : b) {
        x = c.integer<u8>();
    }
    for (auto &x : w) {
        x = c.integer<u16>();
    }
    for (auto &x : d) {
        x = c.integer<u32>();
    }
    c.note("form %d", int(k));
    // the first argument is the most significant
    auto fold = [](auto const *p, std::size_t n, unsigned bits) {
        u64 v = 0;
        for (std::size_t i = 0; i < n; ++i) {
            v = (n == 1 ? 0 : v << bits) | p[i];
        }
        return v;
    };
    switch (k) {
    case 0: {
        std::same_as<u16> auto r = stdx::bit_pack<u16>(b[0], b[1]);
        REQ_EQ(r, fold(b, 2, 8), "pack 8,8");
        auto const u = stdx::bit_unpack<u8>(r);
        REQ(u.size() == 2 and u[0] == b[0] and u[1] == b[1], "unpack 16 to 8");
        break;
    }
    case 1: {
        std::same_as<u32> auto r = stdx::bit_pack<u32>(w[0], w[1]);
        REQ_EQ(r, fold(w, 2, 16), "pack 16,16");
        auto const u = stdx::bit_unpack<u16>(r);
        REQ(u.size() == 2 and u[0] == w[0] and u[1] == w[1], "unpack 32 to 16");
        break;
    }
    case 2: {
        std::same_as<u32> auto r = stdx::bit_pack<u32>(b[0], b[1], b[2], b[3]);
        REQ_EQ(r, fold(b, 4, 8), "pack 8 x 4");
        auto const u = stdx::bit_unpack<u8>(r);
        for (std::size_t i = 0; i < 4; ++i) {
            REQ(u[i] == b[i], "unpack 32 to 8 at %zu", i);
        }
        break;
    }
    case 3: {
        std::same_as<u64> auto r = stdx::bit_pack<u64>(d[0], d[1]);
        REQ_EQ(r, fold(d, 2, 32), "pack 32,32");
        auto const u = stdx::bit_unpack<u32>(r);
        REQ(u.size() == 2 and u[0] == d[0] and u[1] == d[1], "unpack 64 to 32");
        break;
    }
    case 4: {
        std::same_as<u64> auto r = stdx::bit_pack<u64>(w[0], w[1], w[2], w[3]);
        REQ_EQ(r, fold(w, 4, 16), "pack 16 x 4");
        auto const u = stdx::bit_unpack<u16>(r);
        for (std::size_t i = 0; i < 4; ++i) {
            REQ(u[i] == w[i], "unpack 64 to 16 at %zu", i);
        }
        break;
    }
    default: {
        std::same_as<u64> auto r = stdx::bit_pack<u64>(
            b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]);
        REQ_EQ(r, fold(b, 8, 8), "pack 8 x 8");
        auto const u = stdx::bit_unpack<u8>(r);
        for (std::size_t i = 0; i < 8; ++i) {
            REQ(u[i] == b[i], "unpack 64 to 8 at %zu", i);
        }
    }
    }
    c.nontrivial(b[0] != b[1] and w[0] != w[1] and d[0] != d[1]);
}
PROPERTY("unpack same width", 1) {
    auto const x = c.integer<u32>();
    auto const u = stdx::bit_unpack<u32>(x);
    REQ(u.size() == 1 and u[0] == x, "unpack to the same width");
    auto const y = c.integer<u8>();
    auto const v = stdx::bit_unpack<u8>(y);
    REQ(v.size() == 1 and v[0] == y, "unpack 8 to 8");
    c.nontrivial(x != 0);
}

template <typename T> void mask_rt(Ctx &c) {
    auto l = c.choose(W<T>), m = c.choose(W<T>);
    if (l > m) {
        std::swap(l, m);
    }
    c.note("mask [%zu,%zu]", l, m);
    std::same_as<T> auto x = stdx::bit_mask<T>(m, l);
    for (std::size_t i = 0; i < W<T>; ++i) {
        REQ(bit(x, i) == (i >= l and i <= m), "mask bit %zu of [%zu,%zu]", i, l,
            m);
    }
    auto y = stdx::bit_mask<T>(m);
    for (std::size_t i = 0; i < W<T>; ++i) {
        REQ(bit(y, i) == (i <= m), "mask bit %zu of [0,%zu]", i, m);
    }
    c.nontrivial(l != 0);
}
REG("mask u8", 2, mask_rt<u8>);
REG("mask u16", 2, mask_rt<u16>);
REG("mask u32", 2, mask_rt<u32>);
REG("mask u64", 3, mask_rt<u64>);

template <typename T, std::size_t N> void mask_array_rt(Ctx &c) {
    constexpr auto total = W<T> * N;
    auto l = c.choose(total), m = c.choose(total);
    if (c.chance(1, 3)) { // around element boundaries
        m = std::min<std::size_t>(total - 1, (c.choose(N) + 1) * W<T> - c.choose(2));
        l = std::min<std::size_t>(total - 1, c.choose(N) * W<T> + c.choose(2));
    }
    if (l > m) {
        std::swap(l, m);
    }
    c.note("mask [%zu,%zu]", l, m);
    auto x = stdx::bit_mask<std::array<T, N>>(m, l);
    for (std::size_t i = 0; i < total; ++i) {
        REQ(bit(x[i / W<T>], i % W<T>) == (i >= l and i <= m),
            "array mask bit %zu of [%zu,%zu]", i, l, m);
    }
    c.nontrivial(l / W<T> != m / W<T>);
    if (l / W<T> != m / W<T>) {
        LABEL(c, "mask across array elements");
    }
}
REG("mask u8[1]", 1, mask_array_rt<u8, 1>);
REG("mask u8[3]", 2, mask_array_rt<u8, 3>);
REG("mask u16[4]", 2, mask_array_rt<u16, 4>);
REG("mask u32[3]", 2, mask_array_rt<u32, 3>);
REG("mask u64[2]", 2, mask_array_rt<u64, 2>);
REG("mask u64[5]", 2, mask_array_rt<u64, 5>);

template <std::size_t... Ns>
constexpr bool smallest(std::index_sequence<Ns...>) {
    return (... and
            std::is_same_v<stdx::smallest_uint_t<Ns>,
                           std::conditional_t<
                               Ns <= 8, u8,
                               std::conditional_t<
                                   Ns <= 16, u16,
                                   std::conditional_t<Ns <= 32, u32, u64>>>>);
}
PROPERTY("smallest_uint", 1) {
    REQ(smallest(std::make_index_sequence<66>{}), "smallest_uint_t<N>");
    REQ((std::is_same_v<decltype(stdx::smallest_uint<9>()), u16>),
        "smallest_uint<9>");
}
#endif

#if PART == 1 || PART == 2
// compile-time masks against their definition
template <typename T, std::size_t I> constexpr bool mask_ok() {
    constexpr std::size_t m = I / W<T>, l = I % W<T>;
    if constexpr (l > m) {
        return true;
    } else {
        constexpr auto x = stdx::bit_mask<T, m, l>();
        static_assert(std::is_same_v<decltype(x), T const>);
        for (std::size_t i = 0; i < W<T>; ++i) {
            if ((((x >> i) & 1u) != 0) != (i >= l and i <= m)) {
                return false;
            }
        }
        return true;
    }
}
template <typename T, std::size_t... Is>
constexpr auto masks(std::index_sequence<Is...>) {
    return std::array<bool, sizeof...(Is)>{mask_ok<T, Is>()...};
}
template <typename T> void mask_ct(Ctx &c) {
    // u8 and u16: every pair; wider: every pair of a lattice of positions
    constexpr auto ok = masks<T>(std::make_index_sequence<W<T> * W<T>>{});
    auto const i = c.choose(ok.size());
    REQ(ok[i], "compile-time mask [%zu,%zu]", i % W<T>, i / W<T>);
    for (std::size_t k = 0; k < ok.size(); ++k) {
        REQ(ok[k], "compile-time mask [%zu,%zu]", k % W<T>, k / W<T>);
    }
    static_assert(stdx::bit_mask<T>() == std::numeric_limits<T>::max());
    c.nontrivial();
}

// split points drawn at compile time from a seed
constexpr u64 step(u64 &s) {
    s += 0x9e3779b97f4a7c15ull;
    u64 x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
template <typename T, u64 Seed> constexpr u64 split_set() {
    if constexpr (W<T> == 8) {
        return Seed & 0x7fu; // all subsets
    } else {
        u64 s = Seed * 977 + W<T>;
        u64 r = 0;
        auto const n = step(s) % 6;
        for (u64 i = 0; i < n; ++i) {
            r |= u64{1} << (step(s) % (W<T> - 1));
        }
        return Seed == 0   ? 0
               : Seed == 1 ? (u64{1} << (W<T> - 1)) - 1
               : Seed == 2 ? 1
               : Seed == 3 ? u64{1} << (W<T> - 2)
                           : r;
    }
}
template <typename T, u64 Seed> struct splits {
    constexpr static u64 set = split_set<T, Seed>();
    constexpr static std::size_t n = [] {
        std::size_t k = 0;
        for (u64 x = set; x; x &= x - 1) {
            ++k;
        }
        return k;
    }();
    constexpr static auto at = [] {
        std::array<std::size_t, n + 1> a{};
        std::size_t k = 0;
        for (std::size_t i = 0; i < W<T>; ++i) {
            if ((set >> i) & 1u) {
                a[k++] = i + 1;
            }
        }
        a[n] = W<T>;
        return a;
    }();
};
template <typename T, u64 Seed> void destructure(Ctx &c) {
    using S = splits<T, Seed>;
    auto const x = c.integer<T>();
    auto const r = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        return stdx::bit_destructure<S::at[Is]...>(x);
    }(std::make_index_sequence<S::n>{});
    static_assert(std::is_same_v<decltype(r), std::array<T, S::n + 1> const>);
    std::size_t lo = 0;
    c.note("value %s, %zu split points", show(x).c_str(), S::n);
    for (std::size_t i = 0; i <= S::n; ++i) {
        auto const w = S::at[i] - lo;
        for (std::size_t k = 0; k < W<T>; ++k) {
            bool const want = k < w and bit(x, lo + k);
            REQ(bit(r[i], k) == want,
                "piece %zu (bits [%zu,%zu)) of %s has bit %zu wrong", i, lo,
                S::at[i], show(x).c_str(), k);
        }
        lo = S::at[i];
    }
    c.nontrivial(S::n != 0 and x != 0);
}
template <typename T, std::size_t... Is>
void dispatch(Ctx &c, std::index_sequence<Is...>) {
    using F = void (*)(Ctx &);
    constexpr F fs[] = {&destructure<T, Is>...};
    fs[c.choose(sizeof...(Is))](c);
}
template <typename T, std::size_t K> void split_any(Ctx &c) {
    dispatch<T>(c, std::make_index_sequence<K>{});
}
#if PART == 1
REG("ct mask u8", 1, mask_ct<u8>);
REG("ct mask u16", 1, mask_ct<u16>);
REG("split u8", 100, split_any<u8, 128>);
REG("split u16", 100, split_any<u16, 40>);
#else
REG("ct mask u32", 1, mask_ct<u32>);
REG("split u32", 100, split_any<u32, 40>);
REG("split u64", 100, split_any<u64, 40>);
#endif
#endif

#if PART == 3
template <std::size_t M, std::size_t L> constexpr u64 m64() {
    if constexpr (L > M) {
        return 0;
    } else {
        return stdx::bit_mask<u64, M, L>();
    }
}
template <std::size_t M, std::size_t L> constexpr auto marr() {
    if constexpr (L > M) {
        return std::array<u16, 3>{};
    } else {
        return stdx::bit_mask<std::array<u16, 3>, M, L>();
    }
}
constexpr std::size_t lat[] = {0, 1, 7, 8, 15, 30, 31, 32, 33, 47, 61, 62, 63};
constexpr std::size_t lat2[] = {0, 1, 7, 14, 15, 16, 17, 24, 31, 32, 33, 40, 46, 47};
template <std::size_t... Is> auto all64(std::index_sequence<Is...>) {
    return std::array<u64, sizeof...(Is)>{m64<lat[Is / 13], lat[Is % 13]>()...};
}
template <std::size_t... Is> auto allarr(std::index_sequence<Is...>) {
    return std::array<std::array<u16, 3>, sizeof...(Is)>{
        marr<lat2[Is / 14], lat2[Is % 14]>()...};
}
PROPERTY("ct mask u64", 1) {
    auto const a = all64(std::make_index_sequence<169>{});
    for (std::size_t k = 0; k < 169; ++k) {
        auto const m = lat[k / 13], l = lat[k % 13];
        if (l > m) {
            continue;
        }
        for (std::size_t i = 0; i < 64; ++i) {
            REQ(bit(a[k], i) == (i >= l and i <= m),
                "compile-time mask [%zu,%zu] bit %zu", l, m, i);
        }
    }
    c.nontrivial();
}
PROPERTY("ct mask u16[3]", 1) {
    auto const a = allarr(std::make_index_sequence<196>{});
    for (std::size_t k = 0; k < 196; ++k) {
        auto const m = lat2[k / 14], l = lat2[k % 14];
        if (l > m) {
            continue;
        }
        for (std::size_t i = 0; i < 48; ++i) {
            REQ(bit(a[k][i / 16], i % 16) == (i >= l and i <= m),
                "compile-time array mask [%zu,%zu] bit %zu", l, m, i);
        }
    }
    c.nontrivial();
}
struct three {
    unsigned char a[3];
};
struct padded {
    u32 a;
    u64 b;
};
union either {
    u8 a;
    u64 b;
};
template <typename... Ts> void sizes(Ctx &c) {
    constexpr std::size_t got[] = {stdx::bit_size<Ts>()...};
    constexpr std::size_t bytes[] = {sizeof(Ts)...};
    auto const k = c.choose(sizeof...(Ts));
    c.note("bit size of type %zu", std::size_t(k));
    REQ_EQ(got[k], bytes[k] * 8, "bit size");
    c.nontrivial();
}
REG("bit size", 5,
    sizes<bool, char, signed char, short, int, long, u8, u16, u32, u64, float,
          double, three, padded, either, void *, std::array<u16, 3>, u8[5],
          std::byte, const int, std::array<three, 7>>);
#endif
} // namespace
