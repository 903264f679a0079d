#include "bitset_common.hpp"
#include <stdx/type_traits.hpp>
#include <utility>
using namespace bs;
namespace {
template <int K> struct tag; // incomplete on purpose
template <int K> struct pick_type {
    using type = tag<K>;
};
#define TY(k, ...)                                                             \
    template <> struct pick_type<k> {                                          \
        using type = __VA_ARGS__;                                              \
    }
TY(1, int);
TY(2, int &);
TY(3, int const);
TY(4, void);
TY(5, std::pair<int, int>);
TY(6, unsigned);
TY(7, tag<100> *);
TY(8, void (*)(int));
TY(9, std::integral_constant<int, 3>);
TY(10, int &&);
template <int K> using ty = typename pick_type<K>::type;

// A list of type numbers; the model gives each distinct one its rank in order
// of first occurrence.
template <int... Ks> struct list {
    using type = stdx::type_bitset<ty<Ks>...>;
    constexpr static auto distinct = [] {
        std::array<int, sizeof...(Ks)> a{};
        std::size_t n = 0;
        for (int k : {Ks...}) {
            bool seen = false;
            for (std::size_t i = 0; i < n; ++i) {
                seen = seen or a[i] == k;
            }
            if (not seen) {
                a[n++] = k;
            }
        }
        return std::pair{a, n};
    }();
    constexpr static std::size_t N = distinct.second;
    constexpr static int at(std::size_t i) { return distinct.first[i % N]; }
};

template <typename L, std::size_t I> using T_at = ty<L::at(I)>;

template <typename L> struct ops {
    using B = typename L::type;
    using fn = void (*)(B &, bool);
    using rd = bool (*)(B const &);
    template <std::size_t I> struct one {
        using T = T_at<L, I>;
        using U = T_at<L, I * 3 + 1>;
        using V = T_at<L, I + L::N / 2>;
        static void set(B &b, bool v) {
            auto &r = b.template set<T>(v);
            REQ(&r == &b, "set returns its object");
        }
        static void set1(B &b, bool) { b.template set<T>(); }
        static void reset(B &b, bool) {
            auto &r = b.template reset<T>();
            REQ(&r == &b, "reset returns its object");
        }
        static void clear(B &b, bool) { b.template clear<T>(); }
        static void flip(B &b, bool) {
            auto &r = b.template flip<T>();
            REQ(&r == &b, "flip returns its object");
        }
        static void set3(B &b, bool v) { b.template set<T, U, V>(v); }
        static void reset3(B &b, bool) { b.template reset<T, U, V>(); }
        static void flip3(B &b, bool) { b.template flip<T, U, V>(); }
        static void from3(B &b, bool) {
            b = B{stdx::type_list<T, U, V>{}};
        }
        static bool get(B const &b) { return b[stdx::type_identity<T>{}]; }
    };
    template <std::size_t... Is>
    static constexpr auto table(std::index_sequence<Is...>) {
        return std::array<std::array<fn, 9>, L::N>{
            {{&one<Is>::set, &one<Is>::set1, &one<Is>::reset, &one<Is>::clear,
              &one<Is>::flip, &one<Is>::set3, &one<Is>::reset3,
              &one<Is>::flip3, &one<Is>::from3}...}};
    }
    template <std::size_t... Is>
    static constexpr auto reads(std::index_sequence<Is...>) {
        return std::array<rd, L::N>{&one<Is>::get...};
    }
    constexpr static auto write = table(std::make_index_sequence<L::N>{});
    constexpr static auto read = reads(std::make_index_sequence<L::N>{});
};

template <typename L> struct visitor {
    std::vector<std::size_t> *out;
    template <typename T, std::size_t I> void operator()() {
        static_assert(std::is_same_v<T, T_at<L, I>>,
                      "type passed is the one at the index passed");
        static_assert(I < L::N);
        REQ(out->size() < L::N, "called more often than there are types");
        out->push_back(I);
    }
};

template <typename L>
void observe_types(typename L::type const &b, model const &m) {
    using B = typename L::type;
    auto const n = popcount(m);
    for (std::size_t i = 0; i < L::N; ++i) {
        REQ(ops<L>::read[i](b) == m[i], "type %zu, expected %s", i,
            text(m).c_str());
    }
    static_assert(B::capacity() == L::N);
    REQ_EQ(b.count(), n, "count");
    REQ_EQ(b.size(), n, "size");
    REQ_EQ(b.empty(), n == 0, "empty");
    REQ_EQ(b.none(), n == 0, "none");
    REQ_EQ(b.any(), n != 0, "any");
    REQ_EQ(b.all(), n == L::N, "all");
    if constexpr (L::N <= 64) {
        u64 v = 0;
        for (std::size_t i = 0; i < L::N; ++i) {
            v |= u64{m[i]} << i;
        }
        REQ_EQ(b.template to<u64>(), v, "to<uint64_t>");
        REQ_EQ(static_cast<u64>(b.to_natural()), v, "to_natural");
    }
}

template <typename L> void history(Ctx &c) {
    using B = typename L::type;
    constexpr auto N = L::N;
    B b{};
    model m(N);
    auto build = [&](model const &x) {
        B r{};
        for (std::size_t i = 0; i < N; ++i) {
            if (x[i]) {
                ops<L>::write[i][1](r, true);
            }
        }
        return r;
    };
    switch (c.choose(4)) {
    case 0:
        break;
    case 1:
        b = B{stdx::all_bits};
        m.assign(N, true);
        c.note("all_bits");
        break;
    case 2: {
        auto const v = c.bits(64);
        b = B{u64{v}};
        for (std::size_t i = 0; i < N; ++i) {
            m[i] = i < 64 and ((v >> i) & 1u) != 0;
        }
        c.note("value 0x%llx", static_cast<unsigned long long>(v));
        break;
    }
    default:
        m = random_model<N>(c);
        b = build(m);
        c.note("start %s", text(m).c_str());
    }
    observe_types<L>(b, m);
    std::size_t n = 0;
    while (n < 40 and c.more(10)) {
        ++n;
        auto const k = c.weighted({10, 2, 2, 1, 4});
        if (k == 0) {
            auto const i = c.choose(N);
            auto const o = c.choose(9);
            auto const v = c.flip();
            c.note("op %d on type %zu value %d", int(o), i, v);
            ops<L>::write[i][o](b, v);
            std::size_t const three[] = {i, i * 3 + 1, i + N / 2};
            switch (o) {
            case 0:
                m[i] = v;
                break;
            case 1:
                m[i] = true;
                break;
            case 2:
            case 3:
                m[i] = false;
                break;
            case 4:
                m[i] = not m[i];
                break;
            case 5:
                for (auto x : three) {
                    m[x % N] = v;
                }
                break;
            case 6:
                for (auto x : three) {
                    m[x % N] = false;
                }
                break;
            case 7:
                for (auto x : three) {
                    m[x % N] = not m[x % N];
                }
                break;
            default:
                m.assign(N, false);
                for (auto x : three) {
                    m[x % N] = true;
                }
            }
        } else if (k == 1) {
            auto const v = c.choose(5);
            c.note("whole %d", int(v));
            switch (v) {
            case 0:
                b.set();
                m.assign(N, true);
                break;
            case 1:
                b.set(false);
                m.assign(N, false);
                break;
            case 2:
                b.reset();
                m.assign(N, false);
                break;
            case 3:
                b.flip();
                m.flip();
                break;
            default:
                b.clear();
                m.assign(N, false);
            }
        } else if (k == 2) {
            c.note("~");
            b = ~b;
            m.flip();
        } else if (k == 3) {
            m = random_model<N>(c);
            b = build(m);
        } else {
            auto om = random_model<N>(c);
            auto o = build(om);
            if (c.flip()) {
                o = ~o;
                om.flip();
            }
            auto const op = c.choose(7);
            c.note("binary %d with %s", int(op), text(om).c_str());
            switch (op) {
            case 0:
                b |= o;
                break;
            case 1:
                b &= o;
                break;
            case 2:
                b ^= o;
                break;
            case 3:
                b = b | o;
                break;
            case 4:
                b = b & o;
                break;
            case 5:
                b = b ^ o;
                break;
            default:
                b = b - o;
            }
            for (std::size_t i = 0; i < N; ++i) {
                bool const x = m[i], y = om[i];
                m[i] = op == 6       ? (x and not y)
                       : op % 3 == 0 ? (x or y)
                       : op % 3 == 1 ? (x and y)
                                     : (x != y);
            }
            observe_types<L>(o, om);
            LABEL(c, "binary operator");
        }
        observe_types<L>(b, m);
    }
    std::vector<std::size_t> on, off, got;
    for (std::size_t i = 0; i < N; ++i) {
        (m[i] ? on : off).push_back(i);
    }
    b.for_each(visitor<L>{&got});
    REQ(got == on, "for_each visits the member types in order");
    got.clear();
    auto r = b.template for_each<stdx::set_bit>(visitor<L>{&got});
    REQ(got == on, "for_each<set_bit> visits the member types in order");
    REQ(r.out == &got, "for_each returns its function");
    got.clear();
    b.template for_each<stdx::unset_bit>(visitor<L>{&got});
    REQ(got == off, "for_each<unset_bit> visits the other types in order");
    auto twin = build(m);
    REQ(b == twin and not(b != twin), "equal contents compare equal");
    auto const i = c.choose(N);
    ops<L>::write[i][4](twin, true);
    REQ(b != twin and not(twin == b), "contents differing at type %zu", i);
    observe_types<L>(b, m);
    c.nontrivial(n >= 1 and not on.empty());
}
} // namespace
#if PART == 0
REG("list 1", 1, history<list<1>>);
REG("list 2", 1, history<list<2, 1>>);
REG("list 3", 2, history<list<4, 2, 8>>);
REG("list 5", 2, history<list<1, 2, 3, 10, 6>>);
REG("list 8", 2, history<list<1, 2, 3, 4, 5, 6, 7, 8>>);
REG("list 9", 2, history<list<9, 8, 7, 6, 5, 4, 3, 2, 1>>);
REG("repeats 2", 2, history<list<1, 1, 2>>);
REG("repeats 3", 2, history<list<1, 2, 1, 3, 2>>);
REG("repeats 8", 3, history<list<20, 21, 20, 22, 23, 21, 24, 25, 26, 27, 20>>);
#elif PART == 1
REG("list 17", 2,
    history<list<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17>>);
REG("list 33", 2,
    history<list<33, 32, 31, 30, 29, 28, 27, 26, 25, 24, 23, 22, 21, 20, 19, 18,
                 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>);
REG("repeats 16", 2,
    history<list<1, 2, 3, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 12, 13, 14, 15,
                 16, 1>>);
#else
template <std::size_t... Is> auto seq(std::index_sequence<Is...>)
    -> list<static_cast<int>((Is * 29) % sizeof...(Is) + 1)...>;
REG("list 64", 1, history<decltype(seq(std::make_index_sequence<64>{}))>);
REG("list 70", 1, history<decltype(seq(std::make_index_sequence<70>{}))>);
#endif
