#include <pbt.hpp>
#include <array>
#include <cstddef>
#include <cstring>
#include <memory>
#include <stdx/span.hpp>
#include <utility>
#include <vector>
using namespace pbt;
namespace {
struct tri {
    std::uint8_t b[3];
    friend bool operator==(tri const &, tri const &) = default;
};
template <typename T> T mk(u64 x) {
    if constexpr (std::is_same_v<T, tri>) {
        return tri{{static_cast<u8>(x), static_cast<u8>(x >> 8),
                    static_cast<u8>(x >> 16)}};
    } else {
        return static_cast<T>(x);
    }
}

// everything observable about a span that should view [p, p + n)
template <typename T, std::size_t E>
void views(stdx::span<T, E> const &s, T *p, std::size_t n, char const *what) {
    using S = stdx::span<T, E>;
    static_assert(S::extent == E);
    REQ(s.size() == n, "%s: size %zu, expected %zu", what,
        std::size_t{s.size()}, n);
    REQ(s.size_bytes() == n * sizeof(T), "%s: size in bytes", what);
    REQ(s.empty() == (n == 0), "%s: empty", what);
    if (p != nullptr) {
        REQ(s.data() == p, "%s: starts %td elements from the right place", what,
            s.data() - p);
        REQ(s.begin() == p and s.end() == p + n, "%s: begin and end", what);
        REQ(s.cbegin() == p and s.cend() == p + n, "%s: cbegin and cend", what);
    } else {
        REQ(s.begin() == s.end(), "%s: an empty range", what);
    }
    std::size_t i = 0;
    for (auto &e : s) {
        REQ(i < n and &e == p + i, "%s: traversal at %zu", what, i);
        REQ(&s[i] == p + i, "%s: index %zu", what, i);
        ++i;
    }
    REQ(i == n, "%s: traversal length", what);
    i = n;
    for (auto it = s.rbegin(); it != s.rend(); ++it) {
        REQ(i > 0 and &*it == p + --i, "%s: reverse traversal", what);
    }
    REQ(i == 0, "%s: reverse traversal length", what);
    i = n;
    for (auto it = s.crbegin(); it != s.crend(); ++it) {
        REQ(i > 0 and &*it == p + --i, "%s: crbegin traversal", what);
        static_assert(
            std::is_const_v<std::remove_reference_t<decltype(*it)>>);
    }
    REQ(i == 0, "%s: crbegin traversal length", what);
    if (n > 0) {
        REQ(&s.front() == p, "%s: front", what);
        REQ(&s.back() == p + n - 1, "%s: back", what);
        if constexpr (E != 0) {
            REQ(&stdx::get<0>(s) == p, "%s: get<0>", what);
        }
        if constexpr (E != stdx::dynamic_extent and E > 0) {
            REQ(&stdx::get<E - 1>(s) == p + E - 1, "%s: get<last>", what);
        }
    }
    auto const b = as_bytes(s);
    REQ(b.size() == n * sizeof(T), "%s: byte view size", what);
    if (p) {
        REQ(static_cast<void const *>(b.data()) == p, "%s: byte view place",
            what);
    }
    static_assert(
        std::is_same_v<typename decltype(b)::element_type, std::byte const>);
    if constexpr (not std::is_const_v<T>) {
        auto const wb = as_writable_bytes(s);
        static_assert(
            std::is_same_v<typename decltype(wb)::element_type, std::byte>);
        REQ(wb.size() == n * sizeof(T), "%s: writable byte view size", what);
        if (p) {
            REQ(static_cast<void *>(wb.data()) == p,
                "%s: writable byte view place", what);
        }
    }
    if constexpr (E != stdx::dynamic_extent) {
        static_assert(stdx::ct_capacity_v<S> == E);
        static_assert(decltype(b)::extent == E * sizeof(T));
    }
}

// write through every element of a view and check exactly those changed
template <typename S, typename T>
void writes(Ctx &c, S s, std::vector<T> &buf, std::size_t off, std::size_t n) {
    auto before = buf;
    auto const base = c.choose(256);
    for (std::size_t i = 0; i < n; ++i) {
        s[i] = mk<T>(base + i * 3 + 1);
    }
    for (std::size_t i = 0; i < buf.size(); ++i) {
        auto const want = i >= off and i < off + n
                              ? mk<T>(base + (i - off) * 3 + 1)
                              : before[i];
        REQ(buf[i] == want, "element %zu after writing [%zu,%zu)", i, off,
            off + n);
    }
    if (n > 0) {
        auto const wb = as_writable_bytes(s);
        auto const k = c.choose(n * sizeof(T));
        wb[k] = static_cast<std::byte>(c.choose(256));
        REQ(std::memcmp(reinterpret_cast<char const *>(buf.data()) +
                            off * sizeof(T) + k,
                        &wb[k], 1) == 0,
            "byte %zu written through the byte view", k);
    }
}

template <typename T> void dynamic_chain(Ctx &c) {
    auto const N = c.size(24);
    std::vector<T> buf(N);
    for (std::size_t i = 0; i < N; ++i) {
        buf[i] = mk<T>(i * 7 + 3);
    }
    std::size_t off = 0, len = N;
    auto const P = buf.data();
    stdx::span<T> s;
    views<T>(s, nullptr, 0, "default span");
    switch (c.choose(5)) {
    case 0:
        s = stdx::span<T>{buf};
        break;
    case 1: {
        off = c.choose(N + 1);
        len = c.choose(N - off + 1);
        s = stdx::span<T>{buf.begin() + static_cast<long>(off), len};
        break;
    }
    case 2: {
        off = c.choose(N + 1);
        len = c.choose(N - off + 1);
        s = stdx::span<T>{P + off, P + off + len};
        break;
    }
    case 3: {
        off = c.choose(N + 1);
        len = c.choose(N - off + 1);
        auto d = stdx::span{buf.begin() + static_cast<long>(off),
                            buf.begin() + static_cast<long>(off + len)};
        static_assert(std::is_same_v<decltype(d), stdx::span<T>>);
        s = d;
        break;
    }
    default: {
        auto d = stdx::span{buf};
        static_assert(std::is_same_v<decltype(d), stdx::span<T>>);
        s = d;
    }
    }
    c.note("buffer %zu view [%zu,%zu)", N, off, off + len);
    auto at = [&] { return P ? P + off : P; };
    views<T>(s, at(), len, "constructed");
    std::size_t n = 0;
    while (n < 12 and c.more(6)) {
        ++n;
        auto const k = c.choose(len + 1);
        switch (c.choose(8)) {
        case 0:
            c.note("first(%zu)", k);
            s = s.first(k);
            len = k;
            break;
        case 1:
            c.note("last(%zu)", k);
            s = s.last(k);
            off += len - k;
            len = k;
            break;
        case 2:
            c.note("subspan(%zu)", k);
            s = s.subspan(k);
            off += k;
            len -= k;
            break;
        case 3: {
            // a count beyond the end means "up to the end"
            auto const m = c.choose(len - k + 1) + (c.chance(1, 4) ? c.choose(len + 2) : 0);
            c.note("subspan(%zu,%zu)", k, m);
            s = s.subspan(k, m);
            off += k;
            len = std::min(m, len - k);
            break;
        }
        case 4: // compile-time counts on a dynamic span
            if (len >= 3) {
                auto const f = s.template first<3>();
                static_assert(std::is_same_v<decltype(f), stdx::span<T, 3> const>);
                views<T, 3>(f, at(), 3, "first<3>");
                auto const l = s.template last<3>();
                views<T, 3>(l, at() + len - 3, 3, "last<3>");
                auto const m = s.template subspan<1, 2>();
                static_assert(std::is_same_v<decltype(m), stdx::span<T, 2> const>);
                views<T, 2>(m, at() + 1, 2, "subspan<1,2>");
                auto const r = s.template subspan<2>();
                static_assert(std::is_same_v<decltype(r), stdx::span<T> const>);
                views<T>(r, at() + 2, len - 2, "subspan<2>");
                stdx::span<T, 3> const e{s};
                views<T, 3>(e, at(), 3, "static from dynamic");
                stdx::span<T> const d{f};
                views<T>(d, at(), 3, "dynamic from static");
                stdx::span<T const> const k2 = l;
                views<T const>(k2, at() + len - 3, 3, "const from static");
                LABEL(c, "compile-time counts");
            }
            break;
        case 5: {
            stdx::span<T const> const k2{s};
            views<T const>(k2, at(), len, "const view");
            auto const k3 = k2.first(k);
            views<T const>(k3, at(), k, "first of a const view");
            break;
        }
        case 6: {
            c.note("write through");
            writes(c, s, buf, off, len);
            break;
        }
        default: {
            auto const t = s; // copying views the same elements
            views<T>(t, at(), len, "copy");
        }
        }
        views<T>(s, at(), len, "after a step");
    }
    c.nontrivial(n >= 1 and N >= 2);
}

template <typename T, std::size_t N, std::size_t O, std::size_t K>
void sub(stdx::span<T, N> const &s, T *p) {
    if constexpr (O + K <= N) {
        auto const x = s.template subspan<O, K>();
        static_assert(std::is_same_v<decltype(x), stdx::span<T, K> const>);
        views<T, K>(x, p + O, K, "static subspan<O,K>");
    }
}
template <typename T, std::size_t N, std::size_t O, std::size_t... Ks>
void subs(stdx::span<T, N> const &s, T *p, std::index_sequence<Ks...>) {
    (sub<T, N, O, Ks>(s, p), ...);
    auto const x = s.template subspan<O>();
    static_assert(std::is_same_v<decltype(x), stdx::span<T, N - O> const>);
    views<T, N - O>(x, p + O, N - O, "static subspan<O>");
    auto const f = s.template first<O>();
    static_assert(std::is_same_v<decltype(f), stdx::span<T, O> const>);
    views<T, O>(f, p, O, "static first");
    auto const l = s.template last<O>();
    static_assert(std::is_same_v<decltype(l), stdx::span<T, O> const>);
    views<T, O>(l, p + N - O, O, "static last");
}
template <typename T, std::size_t N> void static_extent(Ctx &c) {
    std::vector<T> buf(N + 4);
    for (std::size_t i = 0; i < buf.size(); ++i) {
        buf[i] = mk<T>(i * 5 + 2);
    }
    auto const off = c.choose(5);
    auto const p = buf.data() + off;
    stdx::span<T, N> const s{p, N};
    c.note("extent %zu at %zu", N, off);
    views<T, N>(s, p, N, "static span");
    [&]<std::size_t... Os>(std::index_sequence<Os...>) {
        (subs<T, N, Os>(s, p, std::make_index_sequence<N + 1>{}), ...);
    }(std::make_index_sequence<N + 1>{});
    auto const k = c.choose(N + 1), m = c.choose(N - k + 1);
    views<T>(s.first(k), p, k, "dynamic first of static");
    views<T>(s.last(k), p + N - k, k, "dynamic last of static");
    views<T>(s.subspan(k), p + k, N - k, "dynamic subspan(k) of static");
    views<T>(s.subspan(k, m), p + k, m, "dynamic subspan(k,m) of static");
    auto const over = N - k + c.choose(N + 2);
    views<T>(s.subspan(k, over), p + k, N - k, "dynamic subspan(k,beyond)");
    if (c.flip()) {
        writes(c, s, buf, off, N);
    }
    stdx::span<T const, N> const cs{s};
    views<T const, N>(cs, p, N, "const static from static");

    if constexpr (N > 0) {
        T carr[N]{};
        auto d = stdx::span{carr};
        static_assert(std::is_same_v<decltype(d), stdx::span<T, N>>);
        views<T, N>(d, carr, N, "from a C array");
        stdx::span<T const> const dc{carr};
        views<T const>(dc, carr, N, "const from a C array");
        std::array<T, N> a{};
        auto e = stdx::span{a};
        static_assert(std::is_same_v<decltype(e), stdx::span<T, N>>);
        views<T, N>(e, a.data(), N, "from an array");
        auto const &ca = a;
        auto f = stdx::span{ca};
        static_assert(std::is_same_v<decltype(f), stdx::span<T const, N>>);
        views<T const, N>(f, a.data(), N, "from a const array");
        stdx::span<T> const dyn = a;
        views<T>(dyn, a.data(), N, "dynamic from an array");
        stdx::span<T, N - 1> const less{a};
        views<T, N - 1>(less, a.data(), N - 1, "a shorter span of an array");
        a[N - 1] = mk<T>(200);
        REQ(e[N - 1] == mk<T>(200), "the span sees the array change");
    }
    c.nontrivial(N > 1);
}
REG("dynamic int", 3, dynamic_chain<int>);
REG("dynamic u8", 1, dynamic_chain<std::uint8_t>);
REG("dynamic tri", 1, dynamic_chain<tri>);
REG("dynamic u64", 1, dynamic_chain<std::uint64_t>);
REG("static int 0", 1, static_extent<int, 0>);
REG("static int 1", 1, static_extent<int, 1>);
REG("static int 4", 2, static_extent<int, 4>);
REG("static u16 6", 2, static_extent<std::uint16_t, 6>);
REG("static tri 3", 1, static_extent<tri, 3>);
} // namespace
