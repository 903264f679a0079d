#if PART == 1
#define WIDE_ELEMENTS
#define stdx stdx_wide
#endif
#include "atomic_common.hpp"
#include <stdx/atomic.hpp>
using namespace at;
namespace {
template <typename T> struct cfg {
    using A = stdx::atomic<T>;
    using value = T;
    constexpr static bool narrow =
        std::is_unsigned_v<T> or sizeof(T) < sizeof(int);
    using E = ::atomic::atomic_type_t<T>;
    static u64 raw(T t) { // the element that holds t
        auto const e = static_cast<E>(t);
        u64 v = 0;
        std::memcpy(&v, &e, sizeof e);
        return v;
    }
    static T val(u64 r) {
        E e;
        std::memcpy(&e, &r, sizeof e);
        return static_cast<T>(e);
    }
};
template <typename C> u64 another(Ctx &c, u64) {
    using T = typename C::value;
    if constexpr (std::is_same_v<T, bool>) {
        return C::raw(c.flip());
    } else {
        return C::raw(c.integer<T>());
    }
}
// wrapping arithmetic of T, defined for all arguments
template <typename T> T add(T a, T b) {
    return static_cast<T>(static_cast<u64>(a) + static_cast<u64>(b));
}
template <typename T> T sub(T a, T b) {
    return static_cast<T>(static_cast<u64>(a) - static_cast<u64>(b));
}

template <typename C> void history(Ctx &c) {
    using T = typename C::value;
    using A = typename C::A;
    auto draw = [&]() -> T {
        if constexpr (std::is_same_v<T, bool>) {
            return c.flip();
        } else {
            return c.integer<T>();
        }
    };
    auto const start = draw();
    bool const dflt = c.chance(1, 8);
    A a1{start};
    A a0{};
    A &a = dflt ? a0 : a1;
    REQ_EQ(a.load(), dflt ? T{} : start, "initial value");
    std::size_t steps = 0;
    unsigned inter = 0;
    T cur = dflt ? T{} : start;
    while (steps < 30 and c.more(8)) {
        ++steps;
        constexpr bool arith = not std::is_same_v<T, bool>;
        auto op = c.choose(arith ? 20 : 10);
        bool const given = c.chance(3, 4);
        auto mo = order::seq_cst;
        auto t = draw();
        // compound forms compute in T: keep signed int and wider in range by
        // making the other thread quiet and choosing a small operand
        bool quiet = false;
        if constexpr (arith and not C::narrow) {
            if (op >= 12) {
                quiet = true;
                if (op == 12 or op == 14 or op == 15) {
                    T r{};
                    if (__builtin_add_overflow(cur, op == 12 ? t : T{1}, &r)) {
                        t = cur < 0 ? T{1} : T{-1};
                        op = 12;
                    }
                } else if (op == 13 or op == 16 or op == 17) {
                    T r{};
                    if (__builtin_sub_overflow(cur, op == 13 ? t : T{1}, &r)) {
                        t = cur < 0 ? T{-1} : T{1};
                        op = 13;
                    }
                }
            }
        }
        c.note("op %d argument %s default-order %d", int(op), show(t).c_str(),
               not given);
        watcher w{c,
                  quiet ? +[](Ctx &, u64 v) { return v; } : &another<C>, ~u64{}};
        // what the update must store and return, given the value just before it
        T ret{}, stored{};
        bool query = false, has_ret = true;
        auto finish = [&](T got, auto store_f, auto ret_f, order m) {
            ret = got;
            w.only_order(m, "update");
            REQ_EQ(w.writes, 1, "writes made by one update");
            auto const old = C::val(w.before_write);
            stored = store_f(old);
            REQ(ret == ret_f(old), "op %d on %s with %s returned %s, expected %s",
                int(op), show(old).c_str(), show(t).c_str(), show(ret).c_str(),
                show(ret_f(old)).c_str());
            auto const now = C::val(w.raw());
            REQ(now == stored, "op %d on %s with %s stored %s, expected %s",
                int(op), show(old).c_str(), show(t).c_str(), show(now).c_str(),
                show(stored).c_str());
            conc_hook::current = nullptr;
            REQ_EQ(a.load(), stored, "value read back");
        };
        auto same = [](T o) { return o; };
        auto put = [&](T) { return t; };
        (void)query;
        (void)has_ret;
        switch (op) {
        case 0:
        case 1: {
            mo = given ? load_order(c) : mo;
            T const got = op == 1 ? static_cast<T>(a)
                          : given ? a.load(mo)
                                  : a.load();
            w.only_order(op == 1 ? order::seq_cst : mo, "load");
            REQ_EQ(w.writes, 0, "writes made by a load");
            bool ok = false;
            for (auto s : w.seen) {
                ok = ok or C::val(s) == got;
            }
            REQ(ok, "loaded %s, which was never held", show(got).c_str());
            break;
        }
        case 2:
            mo = given ? store_order(c) : mo;
            if (given) {
                a.store(t, mo);
            } else {
                a.store(t);
            }
            finish(t, put, put, mo);
            break;
        case 3:
            finish(a = t, put, put, order::seq_cst);
            break;
        case 4:
            mo = given ? any_order(c) : mo;
            finish(given ? a.exchange(t, mo) : a.exchange(t), put, same, mo);
            break;
        case 5:
        case 6:
        case 7: {
            auto const bit = [&](T o) {
                return static_cast<T>(op == 5 ? o & t : op == 6 ? o | t : o ^ t);
            };
            mo = given ? any_order(c) : mo;
            T got{};
            switch (op) {
            case 5:
                got = given ? a.fetch_and(t, mo) : a.fetch_and(t);
                break;
            case 6:
                got = given ? a.fetch_or(t, mo) : a.fetch_or(t);
                break;
            default:
                got = given ? a.fetch_xor(t, mo) : a.fetch_xor(t);
            }
            finish(got, bit, same, mo);
            break;
        }
        case 8:
        case 9: {
            auto const k = c.choose(3);
            auto const bit = [&](T o) {
                return static_cast<T>(k == 0 ? o & t : k == 1 ? o | t : o ^ t);
            };
            T const got = k == 0 ? (a &= t) : k == 1 ? (a |= t) : (a ^= t);
            c.note("  compound %d", int(k));
            finish(got, bit, bit, order::seq_cst);
            break;
        }
        default:
            if constexpr (arith) {
                auto const plus = [&](T o) { return add(o, t); };
                auto const minus = [&](T o) { return sub(o, t); };
                auto const inc = [&](T o) { return add(o, T{1}); };
                auto const dec = [&](T o) { return sub(o, T{1}); };
                switch (op) {
                case 10:
                case 18:
                    mo = given ? any_order(c) : mo;
                    finish(given ? a.fetch_add(t, mo) : a.fetch_add(t), plus,
                           same, mo);
                    break;
                case 11:
                case 19:
                    mo = given ? any_order(c) : mo;
                    finish(given ? a.fetch_sub(t, mo) : a.fetch_sub(t), minus,
                           same, mo);
                    break;
                case 12:
                    finish(a += t, plus, plus, mo);
                    break;
                case 13:
                    finish(a -= t, minus, minus, mo);
                    break;
                case 14:
                    finish(++a, inc, inc, mo);
                    break;
                case 15:
                    finish(a++, inc, same, mo);
                    break;
                case 16:
                    finish(--a, dec, dec, mo);
                    break;
                default:
                    finish(a--, dec, same, mo);
                }
                LABEL(c, "arithmetic");
            }
        }
        cur = C::val(w.raw());
        inter += w.interferences;
    }
    c.nontrivial(steps >= 1 and inter >= 1);
}

// any trivially copyable value: load, store, exchange
struct P {
    short x;
    short y;
    bool operator==(P const &) const = default;
};
enum struct En : int { a = -3, b = 0, c = 7 };
template <typename T> void plain(Ctx &c, T const (&vals)[4]) {
    T cur = c.of(std::vector<T>(vals, vals + 4));
    stdx::atomic<T> a{cur};
    std::size_t n = 0;
    while (n < 12 and c.more(5)) {
        ++n;
        T const t = vals[c.choose(4)];
        switch (c.choose(4)) {
        case 0:
            REQ(a.load() == cur, "load");
            break;
        case 1:
            a.store(t);
            cur = t;
            break;
        case 2:
            REQ((a = t) == t, "assignment returns the value assigned");
            cur = t;
            break;
        default:
            REQ(a.exchange(t) == cur, "exchange returns the old value");
            cur = t;
        }
        REQ(static_cast<T>(a) == cur, "value after an operation");
    }
    c.nontrivial(n >= 2);
}
int gi[4];
PROPERTY("plain pointer", 1) {
    plain<int *>(c, {&gi[0], nullptr, &gi[2], &gi[3]});
}
PROPERTY("plain enum", 1) { plain<En>(c, {En::a, En::b, En::c, En{12}}); }
PROPERTY("plain struct", 1) {
    plain<P>(c, {P{1, 2}, P{-1, -2}, P{0, 0}, P{300, -300}});
}
PROPERTY("plain float", 1) { plain<float>(c, {1.5f, -2.f, 0.f, 1e30f}); }
} // namespace
#define X(T) REG("history<" #T ">", 3, history<cfg<T>>);
X(std::uint8_t)
X(std::int8_t)
X(std::uint16_t)
X(std::int16_t)
X(bool)
X(std::uint32_t)
X(std::int32_t)
X(std::uint64_t)
X(std::int64_t)
