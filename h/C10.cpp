#include <pbt.hpp>
#include <array>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <memory>
#include <stdx/byterator.hpp>
#include <type_traits>
#include <vector>
using namespace pbt;
namespace {
enum struct E16 : std::uint16_t {};
struct tri {
    std::uint8_t b[3];
};
struct pair8 {
    std::uint32_t a;
    std::uint8_t b[4];
};

struct pair16 {
    std::uint16_t a, b;
};
// an exactly sized heap buffer whose base is aligned to 16
template <typename T> struct buffer {
    T *p;
    std::size_t n;
    explicit buffer(std::size_t n_) : n{n_} {
        void *q{};
        if (posix_memalign(&q, 16, n * sizeof(T)) != 0) {
            std::abort();
        }
        p = static_cast<T *>(q);
    }
    ~buffer() { std::free(p); }
    buffer(buffer const &) = delete;
};

template <typename V> V from_bytes(std::vector<u8> const &m, long off) {
    V v;
    std::memcpy(&v, m.data() + off, sizeof(V));
    return v;
}
template <typename V> bool bits_same(V const &a, V const &b) {
    return std::memcmp(&a, &b, sizeof(V)) == 0;
}

template <typename T, bool Const> struct walker {
    using ElemC = std::conditional_t<Const, T const, T>;
    using B = stdx::byterator<ElemC>;
    Ctx &c;
    buffer<T> buf;
    std::vector<u8> m;
    long size;
    B b;
    long off;
    long start;
    B origin;
    std::size_t reads = 0, wr = 0, moves = 0;

    walker(Ctx &c_, std::size_t n, std::size_t at)
        : c{c_}, buf{n}, m(n * sizeof(T)), size{long(n * sizeof(T))},
          b{static_cast<ElemC *>(buf.p) + at}, off{long(at * sizeof(T))},
          start{off}, origin{static_cast<ElemC *>(buf.p)} {
        for (auto &x : m) {
            x = static_cast<u8>(c.choose(256));
        }
        std::memcpy(buf.p, m.data(), m.size());
        c.note("buffer of %zu %zu-byte elements, start at byte %ld", n,
               sizeof(T), off);
    }
    long left() const { return size - off; }

    void state() {
        REQ(b - origin == off, "at byte %td, expected %ld",
            std::ptrdiff_t{b - origin}, off);
        REQ(origin - b == -off, "distance the other way");
        if (left() > 0) {
            REQ(static_cast<u8>(*b) == m[std::size_t(off)],
                "dereference at %ld", off);
            REQ(static_cast<void const *>(&*b) ==
                    reinterpret_cast<u8 const *>(buf.p) + off,
                "address at %ld", off);
            REQ(static_cast<void const *>(b.operator->()) == &*b, "arrow");
        }
        REQ(std::memcmp(buf.p, m.data(), m.size()) == 0,
            "buffer contents after the step");
    }
    template <typename V, typename R = V> void peek_read() {
        if (left() < long(sizeof(V))) {
            return;
        }
        ++reads;
        auto const want = static_cast<R>(from_bytes<V>(m, off));
        auto const pk = b.template peek<V, R>();
        static_assert(std::is_same_v<decltype(pk), R const>);
        REQ(bits_same(pk, want), "peek of %zu bytes at %ld", sizeof(V), off);
        REQ(b - origin == off, "peek moves");
        if (c.flip()) {
            c.note("read %zu bytes", sizeof(V));
            auto const rd = b.template read<V, R>();
            REQ(bits_same(rd, want), "read of %zu bytes at %ld", sizeof(V), off);
            off += long(sizeof(V));
        } else {
            c.note("peek %zu bytes", sizeof(V));
        }
    }
    template <typename V> void put(V v) {
        if (left() < long(sizeof(V))) {
            return;
        }
        ++wr;
        c.note("write %zu bytes", sizeof(V));
        if (c.flip()) {
            b.write(v);
        } else {
            V const cv = v;
            b.write(cv);
        }
        std::memcpy(m.data() + off, &v, sizeof(V));
        off += long(sizeof(V));
    }
    // a built-in array is written as it stands
    template <typename V, std::size_t N> void put_array(u64 x) {
        if (left() < long(N * sizeof(V))) {
            return;
        }
        ++wr;
        c.note("write an array of %zu", N);
        V a[N];
        for (std::size_t i = 0; i < N; ++i) {
            a[i] = V(x >> (16 * i));
        }
        if (c.flip()) {
            b.write(a);
        } else {
            b.write(std::as_const(a));
        }
        std::memcpy(m.data() + off, a, sizeof a);
        off += long(sizeof a);
    }
    template <typename V> void adv() {
        if (left() < long(sizeof(V))) {
            return;
        }
        ++moves;
        c.note("advance over %zu bytes", sizeof(V));
        auto &r = b.template advance<V>();
        REQ(&r == &b, "advance returns the iterator");
        off += long(sizeof(V));
    }
    template <typename V> void align() {
        auto const S = long(sizeof(V));
        auto const up = (off + S - 1) / S * S;
        if (up > size) {
            return;
        }
        auto const lo = -(up / S), hi = (size - up) / S;
        auto const n = c.chance(1, 2) ? 0 : c.range(lo, hi);
        c.note("align to %ld and move %ld units", S, n);
        ++moves;
        if (n == 0 and c.flip()) {
            b.template advance_to_alignment<V>();
        } else {
            auto &r = b.template advance_to_alignment<V>(n);
            REQ(&r == &b, "advance_to_alignment returns the iterator");
        }
        off = up + n * S;
    }
    // n units from the alignment are as n times over the type
    template <typename V> void align_steps() {
        auto const S = long(sizeof(V));
        if (left() < S) {
            return;
        }
        auto once = b;
        once.template advance_to_alignment<V>();
        auto const at = off + (once - b);
        auto const n = c.range(0L, (size - at) / S);
        c.note("align to a pair and move %ld pairs", n);
        ++moves;
        for (long k = 0; k < n; ++k) {
            once.template advance<V>();
        }
        b.template advance_to_alignment<V>(n);
        REQ(b == once, "moving on from an alignment");
        off = at + n * S;
    }
    template <typename U> void named(int width) {
        (void)width;
        if (left() < long(sizeof(U))) {
            return;
        }
        using R = std::conditional_t<(sizeof(U) > 1), E16, std::int64_t>;
        auto const want = from_bytes<U>(m, off);
        auto const what = c.choose(Const ? 4 : 5);
        c.note("named %zu-byte operation %d", sizeof(U), int(what));
        auto go = [&](auto pk, auto pkr, auto rd, auto rdr, auto ad, auto wrt) {
            switch (what) {
            case 0: {
                auto v = pk();
                static_assert(std::is_same_v<decltype(v), U>);
                REQ(v == want, "named peek");
                REQ(pkr() == static_cast<R>(want), "named converting peek");
                break;
            }
            case 1: {
                auto v = rd();
                static_assert(std::is_same_v<decltype(v), U>);
                REQ(v == want, "named read");
                off += long(sizeof(U));
                break;
            }
            case 2: {
                auto v = rdr();
                static_assert(std::is_same_v<decltype(v), R>);
                REQ(v == static_cast<R>(want), "named converting read");
                off += long(sizeof(U));
                break;
            }
            case 3:
                REQ(&ad() == &b, "named advance returns the iterator");
                off += long(sizeof(U));
                break;
            default: {
                auto const x = c.bits(64);
                wrt(x);
                auto const u = static_cast<U>(x);
                std::memcpy(m.data() + off, &u, sizeof(U));
                off += long(sizeof(U));
            }
            }
        };
        ++reads;
#define NAMED(W)                                                               \
    go([&] { return b.peeku##W(); }, [&] { return b.template peeku##W<R>(); }, \
       [&] { return b.readu##W(); }, [&] { return b.template readu##W<R>(); }, \
       [&]() -> B & { return b.advanceu##W(); },                               \
       [&](auto x) {                                                           \
           if constexpr (not Const) {                                          \
               b.writeu##W(x);                                                 \
           }                                                                   \
       })
        if constexpr (sizeof(U) == 1) {
            NAMED(8);
        } else if constexpr (sizeof(U) == 2) {
            NAMED(16);
        } else if constexpr (sizeof(U) == 4) {
            NAMED(32);
        } else {
            NAMED(64);
        }
#undef NAMED
    }
    void jump() {
        auto const to = c.range(long{0}, size);
        auto const d = to - off;
        ++moves;
        switch (c.choose(6)) {
        case 0:
            c.note("+= %ld", d);
            REQ(&(b += d) == &b, "+= returns the iterator");
            break;
        case 1:
            c.note("-= %ld", -d);
            REQ(&(b -= -d) == &b, "-= returns the iterator");
            break;
        case 2:
            c.note("advance(%ld)", d);
            REQ(&b.advance(d) == &b, "advance returns the iterator");
            break;
        case 3:
            c.note("it + %ld", d);
            b = b + d;
            break;
        case 4:
            c.note("%ld + it", d);
            b = d + b;
            break;
        default:
            c.note("it - %ld", -d);
            b = b - (-d);
        }
        off = to;
    }
    void step() {
        auto const was = b;
        switch (c.choose(4)) {
        case 0:
            if (left() > 0) {
                c.note("++it");
                REQ(&++b == &b, "++ returns the iterator");
                ++off;
            }
            break;
        case 1:
            if (left() > 0) {
                c.note("it++");
                REQ(b++ == was, "post ++ returns the old position");
                ++off;
            }
            break;
        case 2:
            if (off > 0) {
                c.note("--it");
                REQ(&--b == &b, "-- returns the iterator");
                --off;
            }
            break;
        default:
            if (off > 0) {
                c.note("it--");
                REQ(b-- == was, "post -- returns the old position");
                --off;
            }
        }
    }
    void index() {
        if (size == 0) {
            return;
        }
        auto const to = c.range(long{0}, size - 1);
        c.note("it[%ld]", to - off);
        REQ(static_cast<u8>(b[to - off]) == m[std::size_t(to)], "index");
        auto const &cb = b;
        REQ(static_cast<u8>(cb[to - off]) == m[std::size_t(to)], "const index");
        if constexpr (not Const) {
            if (c.flip()) {
                auto const x = static_cast<u8>(c.choose(256));
                b[to - off] = static_cast<std::byte>(x);
                m[std::size_t(to)] = x;
            }
        }
    }
    void compare() {
        auto const to = c.range(long{0}, size);
        c.note("compare with byte %ld", to);
        auto const o = origin + to;
        REQ((b == o) == (off == to) and (b != o) == (off != to), "equality");
        REQ((b < o) == (off < to) and (b <= o) == (off <= to) and
                (b > o) == (off > to) and (b >= o) == (off >= to),
            "ordering");
        auto const k = to / long(sizeof(T));
        auto const kb = k * long(sizeof(T));
        ElemC *const q = static_cast<ElemC *>(buf.p) + k;
        REQ((b == q) == (off == kb) and (q == b) == (off == kb) and
                (b != q) == (off != kb),
            "equality with an underlying iterator");
        REQ((b < q) == (off < kb) and (b <= q) == (off <= kb) and
                (b > q) == (off > kb) and (b >= q) == (off >= kb),
            "ordering with an underlying iterator");
        REQ((q < b) == (kb < off) and (q >= b) == (kb >= off),
            "ordering of an underlying iterator");
    }
    void run() {
        state();
        std::size_t n = 0;
        while (n < 25 and c.more(10)) {
            ++n;
            switch (c.weighted({6, Const ? 0u : 5u, 2, 4, 4, 3, 3, 2, 2})) {
            case 0:
                switch (c.choose(9)) {
                case 0: peek_read<u8>(); break;
                case 1: peek_read<u16>(); break;
                case 2: peek_read<u32>(); break;
                case 3: peek_read<u64>(); break;
                case 4: peek_read<tri>(); break;
                case 5: peek_read<pair8>(); break;
                case 6: peek_read<u16, E16>(); break;
                case 7: peek_read<i8, i64>(); break;
                default: peek_read<u64, u16>();
                }
                break;
            case 1:
                if constexpr (not Const) {
                    auto const x = c.bits(64);
                    switch (c.choose(9)) {
                    case 7: put_array<u8, 3>(x); break;
                    case 8: put_array<u16, 2>(x); break;
                    case 0: put<u8>(u8(x)); break;
                    case 1: put<u16>(u16(x)); break;
                    case 2: put<u32>(u32(x)); break;
                    case 3: put<u64>(x); break;
                    case 4: put<tri>({{u8(x), u8(x >> 8), u8(x >> 16)}}); break;
                    case 5: put<E16>(E16(x & 0xffff)); break;
                    default:
                        put<pair8>({u32(x), {u8(x >> 32), u8(x >> 40), u8(x >> 48), 1}});
                    }
                }
                break;
            case 2:
                switch (c.choose(4)) {
                case 0: adv<u8>(); break;
                case 1: adv<tri>(); break;
                case 2: adv<u32>(); break;
                default: adv<pair8>();
                }
                break;
            case 3:
                switch (c.choose(5)) {
                case 0: align<u8>(); break;
                case 1: align<u16>(); break;
                case 2: align<u32>(); break;
                case 3: align_steps<pair16>(); break;
                default: align<u64>();
                }
                break;
            case 4:
                switch (c.choose(4)) {
                case 0: named<u8>(8); break;
                case 1: named<u16>(16); break;
                case 2: named<u32>(32); break;
                default: named<u64>(64);
                }
                break;
            case 5: jump(); break;
            case 6: step(); break;
            case 7: index(); break;
            default: compare();
            }
            state();
        }
        c.nontrivial(n >= 3 and reads + wr >= 1 and off != start);
    }
};
template <typename T, bool Const> void history(Ctx &c) {
    auto const n = c.choose(40 / sizeof(T)) + 1;
    auto const at = c.choose(n + 1);
    walker<T, Const> w{c, n, at};
    w.run();
}

// construction from the iterators of standard containers
template <typename T> void from_containers(Ctx &c) {
    std::vector<T> v(c.choose(6) + 1);
    for (std::size_t i = 0; i < v.size() * sizeof(T); ++i) {
        reinterpret_cast<u8 *>(v.data())[i] = u8(i * 37 + 11);
    }
    auto const k = c.choose(v.size() + 1);
    auto b = stdx::byterator{v.begin() + long(k)};
    auto cb = stdx::byterator{v.cbegin() + long(k)};
    static_assert(std::is_same_v<decltype(b), stdx::byterator<T>>);
    static_assert(std::is_same_v<decltype(cb), stdx::byterator<T const>>);
    c.note("vector of %zu at %zu", v.size(), k);
    REQ(b == v.begin() + long(k) and cb == v.cbegin() + long(k),
        "starts where the iterator is");
    REQ(b - stdx::byterator{v.begin()} == long(k * sizeof(T)), "distance");
    auto const j = c.choose(v.size() + 1);
    REQ((b == v.begin() + long(j)) == (k == j), "equality");
    REQ((b < v.begin() + long(j)) == (k < j), "ordering");
    REQ((cb >= v.cbegin() + long(j)) == (k >= j), "ordering, const");
    std::size_t left = (v.size() - k) * sizeof(T), n = 0;
    for (auto x = b; x != v.end(); ++x, ++n) {
        REQ(n < left, "runs past the end");
        REQ(static_cast<u8>(*x) == u8((k * sizeof(T) + n) * 37 + 11), "byte");
    }
    REQ(n == left, "visits every byte");
    auto const s = std::distance(b, stdx::byterator{v.end()});
    REQ(s == long(left), "std::distance");
    std::array<T, 3> a{};
    auto ab = stdx::byterator{a.begin()};
    REQ(ab + long(sizeof(T)) == std::next(a.begin()), "array iterator");
    c.nontrivial(left > 0 and k > 0);
}
REG("u8", 2, history<u8, false>);
REG("u32", 2, history<u32, false>);
REG("u16 const", 1, history<u16, true>);
REG("pair8", 1, history<pair8, false>);
REG("tri", 1, history<tri, false>);
REG("u64 const", 1, history<u64, true>);
REG("containers u16", 1, from_containers<u16>);
REG("containers pair8", 1, from_containers<pair8>);
} // namespace
