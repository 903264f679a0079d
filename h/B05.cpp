#if PART == 2
#define WIDE_ELEMENTS
#define stdx stdx_wide
#endif
#include "atomic_common.hpp"
#include <stdx/atomic_bitset.hpp>
#include <string>
using namespace at;
namespace {
enum struct E6 : std::uint8_t { A, B, C, D, E, F, MAX };
template <auto Size, typename... El> struct cfg {
    using type = stdx::atomic_bitset<Size, El...>;
    constexpr static std::size_t N = static_cast<std::size_t>(Size);
    constexpr static u64 mask = N >= 64 ? ~u64{} : (u64{1} << N) - 1;
    static auto ix(std::size_t i) {
        if constexpr (std::is_enum_v<decltype(Size)>) {
            return static_cast<decltype(Size)>(i);
        } else {
            return i;
        }
    }
};

template <typename C, typename B> u64 value_of(B const &b) {
    static_assert(B::capacity() == C::N);
    u64 v = 0;
    for (std::size_t i = 0; i < C::N; ++i) {
        v |= u64{b[C::ix(i)]} << i;
    }
    u64 n = 0;
    for (auto x = v; x; x &= x - 1) {
        ++n;
    }
    REQ_EQ(b.count(), n, "count of a returned bitset");
    return v;
}

template <typename C> u64 another(Ctx &c, u64 v) {
    return (v ^ (u64{1} << c.choose(C::N)) ^ (c.flip() ? c.bits(C::N) : 0)) &
           C::mask;
}

template <typename C> void construct(Ctx &c) {
    using A = typename C::type;
    constexpr auto N = C::N;
    u64 want = 0;
    auto check = [&](A const &a) {
        REQ_EQ(value_of<C>(a.load()), want, "constructed value");
        REQ_EQ(a.template to<u64>(), want, "to<uint64_t>");
        REQ_EQ(static_cast<u64>(a.to_natural()), want, "to_natural");
    };
    switch (c.choose(5)) {
    case 0: {
        A a{};
        check(a);
        break;
    }
    case 1: {
        auto const v = c.bits(64);
        c.note("value 0x%llx", static_cast<unsigned long long>(v));
        want = v & C::mask;
        A a{u64{v}};
        check(a);
        break;
    }
    case 2: {
        auto const i = c.choose(N), j = c.choose(N), k = c.choose(N);
        c.note("places %zu %zu %zu", i, j, k);
        want = (u64{1} << i) | (u64{1} << j) | (u64{1} << k);
        A a{stdx::place_bits, C::ix(i), C::ix(j), C::ix(k)};
        check(a);
        break;
    }
    case 3: {
        want = C::mask;
        A a{stdx::all_bits};
        check(a);
        break;
    }
    default: {
        std::string s;
        auto const len = c.size(N + 6);
        auto const one = c.pick({'1', 'X', '0'});
        for (std::size_t i = 0; i < len; ++i) {
            s += c.pick({'0', '1', 'X'});
        }
        auto const form = c.choose(4);
        auto const pos = form >= 1 ? c.size(len) : 0;
        auto const n = form >= 2 ? c.size(N + 8) : std::string_view::npos;
        auto const o = form >= 3 ? one : '1';
        c.note("text \"%s\" form %d pos %zu n %zu one %c", s.c_str(), int(form),
               pos, n, o);
        auto const used = std::min({n, len - pos, N});
        for (std::size_t i = 0; i < used; ++i) {
            want |= u64{s[pos + used - 1 - i] == o} << i;
        }
        std::string_view const sv{s};
        if (form == 0) {
            A a{sv};
            check(a);
        } else if (form == 1) {
            A a{sv, pos};
            check(a);
        } else if (form == 2) {
            A a{sv, pos, n};
            check(a);
        } else {
            A a{sv, pos, n, o};
            check(a);
        }
    }
    }
    c.nontrivial(want != 0);
}

template <typename C> void history(Ctx &c) {
    using A = typename C::type;
    constexpr auto N = C::N;
    auto const start = c.bits(N);
    A a{u64{start}};
    static_assert(A::size() == N);
    u64 cur = start & C::mask;
    std::size_t steps = 0;
    unsigned inter = 0;
    c.note("start 0x%llx", static_cast<unsigned long long>(cur));
    while (steps < 30 and c.more(8)) {
        ++steps;
        auto l = c.choose(N), h = c.choose(N);
        if (l > h) {
            std::swap(l, h);
        }
        u64 const one = u64{1} << l;
        u64 range = 0;
        for (auto i = l; i <= h; ++i) {
            range |= u64{1} << i;
        }
        auto const L = static_cast<stdx::lsb_t>(l);
        auto const M = static_cast<stdx::msb_t>(h);
        auto const K = static_cast<stdx::length_t>(h - l + 1);
        auto const op = c.choose(26);
        auto const v = c.flip();
        auto mo = order::seq_cst;
        auto const kind = op <= 15   ? 0
                          : op <= 18 ? 1
                                     : 2; // update / store / query
        bool const given = c.chance(3, 4);
        if (given) {
            mo = kind == 0   ? any_order(c)
                 : kind == 1 ? store_order(c)
                             : load_order(c);
        }
        if (op == 15 or op == 24 or op == 25) {
            mo = order::seq_cst; // forms without an order argument
        }
        c.note("op %d [%zu,%zu] value %d order %d%s", int(op), l, h, v, int(mo),
               given ? "" : " (default)");
        watcher w{c, another<C>, C::mask};
        u64 ret = 0, arg = 0;
        bool has_ret = true;
        u64 (*f)(u64, u64) = nullptr;
        auto const OR = +[](u64 x, u64 y) { return x | y; };
        auto const ANDN = +[](u64 x, u64 y) { return x & ~y; };
        auto const XOR = +[](u64 x, u64 y) { return x ^ y; };
        auto const PUT = +[](u64, u64 y) { return y; };
        auto I = C::ix(l);
        auto take = [&](auto const &b) { ret = value_of<C>(b); };
        switch (op) {
        case 0:
        case 1: // set(idx, value)
            given ? take(a.set(I, v, mo)) : take(a.set(I, v));
            arg = one;
            f = v ? OR : ANDN;
            break;
        case 2: // set(idx)
            take(a.set(I));
            mo = order::seq_cst;
            arg = one;
            f = OR;
            break;
        case 3:
        case 4:
            given ? take(a.set(L, M, v, mo)) : take(a.set(L, M, v));
            arg = range;
            f = v ? OR : ANDN;
            break;
        case 5:
            given ? take(a.set(L, K, v, mo)) : take(a.set(L, K, v));
            arg = range;
            f = v ? OR : ANDN;
            break;
        case 6:
            v ? take(a.set(L, M)) : take(a.set(L, K));
            mo = order::seq_cst;
            arg = range;
            f = OR;
            break;
        case 7:
        case 8:
            given ? take(a.reset(I, mo)) : take(a.reset(I));
            arg = one;
            f = ANDN;
            break;
        case 9:
            given ? take(a.reset(L, M, mo)) : take(a.reset(L, M));
            arg = range;
            f = ANDN;
            break;
        case 10:
            given ? take(a.reset(L, K, mo)) : take(a.reset(L, K));
            arg = range;
            f = ANDN;
            break;
        case 11:
            given ? take(a.flip(I, mo)) : take(a.flip(I));
            arg = one;
            f = XOR;
            break;
        case 12:
            given ? take(a.flip(L, M, mo)) : take(a.flip(L, M));
            arg = range;
            f = XOR;
            break;
        case 13:
            given ? take(a.flip(L, K, mo)) : take(a.flip(L, K));
            arg = range;
            f = XOR;
            break;
        case 14:
            given ? take(a.flip(mo)) : take(a.flip());
            arg = C::mask;
            f = XOR;
            break;
        case 15: // a bitset assigned through store with default order
            arg = c.bits(N) & C::mask;
            a.store(decltype(a.load()){u64{arg}});
            has_ret = false;
            f = PUT;
            break;
        case 16: {
            auto &r = given ? a.set(mo) : a.set();
            REQ(&r == &a, "set() returns its object");
            arg = C::mask;
            has_ret = false;
            f = PUT;
            break;
        }
        case 17: {
            auto &r = given ? a.reset(mo) : a.reset();
            REQ(&r == &a, "reset() returns its object");
            arg = 0;
            has_ret = false;
            f = PUT;
            break;
        }
        case 18:
            arg = c.bits(N) & C::mask;
            {
                // the stored bitset may itself come from a complement
                using bst = std::remove_cvref_t<decltype(a.load())>;
                auto const b = v ? bst{u64{arg}} : ~bst{u64{~arg & C::mask}};
                w.seen.clear();
                w.orders.clear();
                w.addr = nullptr;
                w.writes = 0;
                given ? a.store(b, mo) : a.store(b);
            }
            has_ret = false;
            f = PUT;
            break;
        default: { // queries
            u64 got = 0;
            auto const view = [&](u64 x) -> u64 {
                x &= C::mask;
                switch (op) {
                case 20:
                    return x == C::mask;
                case 21:
                    return x != 0;
                case 22:
                    return x == 0;
                case 23: {
                    u64 n = 0;
                    for (; x; x &= x - 1) {
                        ++n;
                    }
                    return n;
                }
                case 24:
                    return (x >> l) & 1u;
                default:
                    return x;
                }
            };
            switch (op) {
            case 19:
                got = v ? (given ? value_of<C>(a.load(mo))
                                 : value_of<C>(a.load()))
                        : (given ? a.template to<u64>(mo)
                                 : a.template to<u64>());
                break;
            case 20:
                got = given ? a.all(mo) : a.all();
                break;
            case 21:
                got = given ? a.any(mo) : a.any();
                break;
            case 22:
                got = given ? a.none(mo) : a.none();
                break;
            case 23:
                got = given ? a.count(mo) : a.count();
                break;
            case 24:
                got = a[I];
                break;
            default: {
                if (v) {
                    decltype(a.load()) b = a;
                    got = value_of<C>(b);
                } else {
                    got = static_cast<u64>(a.to_natural());
                }
            }
            }
            w.only_order(mo, "query");
            REQ_EQ(w.writes, 0, "writes made by a query");
            bool ok = false;
            for (auto s : w.seen) {
                ok = ok or view(s) == got;
            }
            REQ(ok, "query result %llu is the answer for no value held during "
                    "the call",
                static_cast<unsigned long long>(got));
            LABEL(c, "query");
        }
        }
        if (f) {
            w.only_order(mo, "update");
            REQ_EQ(w.writes, 1, "writes made by one update");
            if (has_ret) {
                REQ_EQ(ret, w.before_write & C::mask, "value returned");
            }
            u64 const now = w.raw();
            REQ_EQ(now, f(w.before_write, arg) & C::mask,
                   "value after the update, given the one just before it");
            LABEL(c, "update");
        }
        cur = w.raw() & C::mask;
        inter += w.interferences;
    }
    REQ_EQ(value_of<C>(a.load()), cur, "final value");
    REQ_EQ(a.all(), cur == C::mask, "all");
    REQ_EQ(a.none(), cur == 0, "none");
    c.nontrivial(steps >= 1 and inter >= 1);
}
} // namespace
#define X(...)                                                                 \
    REG("construct<" #__VA_ARGS__ ">", 1, construct<cfg<__VA_ARGS__>>);        \
    REG("history<" #__VA_ARGS__ ">", 4, history<cfg<__VA_ARGS__>>);
#if PART == 0
X(1)
X(5)
X(8)
X(13)
X(16)
X(E6::MAX)
#elif PART == 1
X(27)
X(32)
X(33)
X(63)
X(64)
X(3, std::uint32_t)
X(12, std::uint64_t)
#else
X(1)
X(7)
X(8)
X(11)
X(16)
X(5, std::uint16_t)
X(E6::MAX)
#endif
