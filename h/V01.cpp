#include "optionals.hpp"
using namespace opts;
namespace {
template <typename T> using model = std::optional<T>;

template <typename T> void same(opt<T> &o, model<T> const &m, char const *what) {
    auto const &co = o;
    REQ(co.has_value() == m.has_value(), "%s: has_value", what);
    REQ(static_cast<bool>(co) == m.has_value(), "%s: bool", what);
    auto const want = m ? *m : sentinel<T>();
    REQ(o.value() == want and co.value() == want, "%s: value", what);
    REQ(*o == want and *co == want, "%s: dereference", what);
    REQ(*o.operator->() == want and *co.operator->() == want, "%s: arrow", what);
    REQ(&*o == &o.value() and o.operator->() == &o.value(), "%s: one object",
        what);
    for (int k = 0; k < 2; ++k) {
        auto const d = at<T>(k * 4);
        REQ(co.value_or(d) == m.value_or(d), "%s: value_or", what);
    }
}
template <typename T>
void compare(opt<T> const &a, opt<T> const &b, model<T> const &ma,
             model<T> const &mb) {
    REQ((a == b) == (ma == mb), "==");
    REQ((a != b) == (ma != mb), "!=");
    REQ((a < b) == (ma < mb), "<");
    REQ((a <= b) == (ma <= mb), "<=");
    REQ((a > b) == (ma > mb), ">");
    REQ((a >= b) == (ma >= mb), ">=");
}
template <typename T> void history_(Ctx &c) {
    using O = opt<T>;
    constexpr int S = 3;
    std::optional<O> slot[S];
    std::optional<model<T>> ms[S];
    std::size_t n = 0, engaged = 0;
    auto make = [&](std::size_t i) {
        auto const k = c.range(0, 7);
        switch (c.choose(6)) {
        case 0:
            c.note("s%zu default", i);
            slot[i].emplace();
            ms[i].emplace();
            break;
        case 1:
            c.note("s%zu nullopt", i);
            slot[i].emplace(std::nullopt);
            ms[i].emplace();
            break;
        case 2: {
            c.note("s%zu from value %d", i, k);
            auto const v = at<T>(k);
            slot[i].emplace(v);
            ms[i].emplace(v);
            break;
        }
        case 3:
            c.note("s%zu in place %d", i, k);
            if constexpr (std::is_same_v<T, Obj>) {
                slot[i].emplace(std::in_place, k, 4);
                ms[i].emplace(std::in_place, k, 4);
            } else {
                slot[i].emplace(std::in_place, at<T>(k));
                ms[i].emplace(at<T>(k));
            }
            break;
        case 4:
            c.note("s%zu from sentinel", i);
            slot[i].emplace(sentinel<T>());
            ms[i].emplace();
            break;
        default:
            c.note("s%zu from rvalue %d", i, k);
            slot[i].emplace(at<T>(k));
            ms[i].emplace(at<T>(k));
        }
    };
    for (std::size_t i = 0; i < S; ++i) {
        make(i);
    }
    while (n < 30 and c.more(10)) {
        ++n;
        auto const i = c.choose(S), j = c.choose(S);
        auto &o = *slot[i];
        auto &m = *ms[i];
        auto const k = c.range(0, 7);
        switch (c.choose(13)) {
        case 0:
            make(i);
            break;
        case 1:
            c.note("s%zu = nullopt", i);
            {
                auto &r = (o = std::nullopt);
                REQ(&r == &o, "assignment returns the object");
            }
            m = std::nullopt;
            break;
        case 2:
            c.note("s%zu reset", i);
            o.reset();
            m.reset();
            break;
        case 3:
            c.note("s%zu emplace %d", i, k);
            if constexpr (std::is_same_v<T, Obj>) {
                auto &r = o.emplace(k, 5);
                REQ(&r == &*o, "emplace returns the value");
                m.emplace(k, 5);
            } else {
                auto &r = o.emplace(at<T>(k));
                REQ(&r == &*o, "emplace returns the value");
                m.emplace(at<T>(k));
            }
            break;
        case 4: // assignment from a value
            c.note("s%zu = value %d", i, k);
            if constexpr (std::is_scalar_v<T>) {
                auto const v = at<T>(k);
                o = v;
                m = v;
            } else if constexpr (std::is_same_v<T, Obj>) {
                o = k;
                m = Obj{k};
            } else if constexpr (std::is_same_v<T, Pair>) {
                o = std::pair<double, int *>{k, cells + k};
                m = Pair{static_cast<float>(k), cells + k};
            }
            break;
        case 5:
            c.note("s%zu = sentinel", i);
            if constexpr (std::is_scalar_v<T>) {
                o = sentinel<T>();
                m.reset();
            } else {
                *o = sentinel<T>();
                m.reset();
            }
            break;
        case 6: // through a reference
            c.note("*s%zu = %d", i, k);
            switch (c.choose(3)) {
            case 0:
                *o = at<T>(k);
                break;
            case 1:
                o.value() = at<T>(k);
                break;
            default:
                *o.operator->() = at<T>(k);
            }
            m = at<T>(k);
            break;
        case 7: {
            c.note("s%zu = s%zu", i, j);
            auto const &from = *slot[j];
            o = from;
            auto const mm = *ms[j];
            m = mm;
            break;
        }
        case 8:
            if (i != j) {
                c.note("s%zu = move(s%zu), then s%zu is made again", i, j, j);
                o = std::move(*slot[j]);
                m = *ms[j];
                make(j);
            }
            break;
        case 9: {
            c.note("s%zu copied and moved on", i);
            O copy{o};
            same<T>(copy, m, "copy");
            same<T>(o, m, "copied from");
            O moved{std::move(copy)};
            same<T>(moved, m, "moved");
            slot[j].emplace(std::move(moved));
            auto const mm = m;
            *ms[j] = mm;
            break;
        }
        case 10: {
            c.note("value_or on a temporary of s%zu", i);
            auto const d = at<T>(k);
            REQ(O{o}.value_or(d) == m.value_or(d), "value_or, temporary");
            REQ(O{o}.value() == (m ? *m : sentinel<T>()), "value, temporary");
            REQ(*O{o} == (m ? *m : sentinel<T>()), "dereference, temporary");
            O const co{o};
            {
                auto &&r = *std::move(o);
                auto &&rv = std::move(o).value();
                auto &&rc = *std::move(std::as_const(o));
                REQ(&r == &*o and &rv == &*o and &rc == &*o,
                    "the value of a temporary optional is the one it holds");
            }
            REQ(std::move(co).value() == (m ? *m : sentinel<T>()),
                "value, const temporary");
            static_assert(std::is_same_v<decltype(O{o}.value()), T &&>);
            static_assert(std::is_same_v<decltype(*O{o}), T &&>);
            static_assert(std::is_same_v<decltype(o.value()), T &>);
            static_assert(std::is_same_v<decltype(co.value()), T const &>);
            if constexpr (std::is_same_v<T, Obj>) {
                { // a temporary given to an optional is moved, not copied
                    auto a = at<T>(k), b = at<T>(k), d2 = at<T>(k);
                    auto const *pa = a.p.get(), *pb = b.p.get(),
                               *pd = d2.p.get();
                    O ta{std::move(a)}, tb{std::in_place, std::move(b)}, td{};
                    auto &e = td.emplace(std::move(d2));
                    REQ(ta->p.get() == pa and ta.has_value() and
                            tb->p.get() == pb and tb.has_value() and
                            td->p.get() == pd and e.p.get() == pd,
                        "an optional made from a temporary");
                }
                auto spare = at<T>(k);
                auto const *sp = spare.p.get();
                auto const used = O{o}.value_or(std::move(spare));
                REQ(used == m.value_or(d), "value_or with a temporary default");
                REQ((used.p.get() == sp) == not m.has_value() and
                        (spare.p.get() == sp) == m.has_value(),
                    "the default is moved from only when it is used");
                if (m) { // a value taken from a temporary is moved, not copied
                    O t{o};
                    auto const *q = t->p.get();
                    auto const got = std::move(t).value_or(d);
                    REQ(got.p.get() == q, "value_or of a temporary moves");
                    O t2{o};
                    q = t2->p.get();
                    auto const got2 = *std::move(t2);
                    REQ(got2.p.get() == q, "dereferencing a temporary moves");
                }
            }
            break;
        }
        case 11:
            c.note("swap s%zu s%zu", i, j);
            std::swap(*slot[i], *slot[j]);
            std::swap(*ms[i], *ms[j]);
            break;
        default:
            c.note("compare s%zu s%zu", i, j);
            compare<T>(o, *slot[j], m, *ms[j]);
        }
        for (std::size_t x = 0; x < S; ++x) {
            same<T>(*slot[x], *ms[x], "after a step");
        }
        engaged += m.has_value();
    }
    for (int x = 0; x < S; ++x) {
        for (int y = 0; y < S; ++y) {
            compare<T>(*slot[x], *slot[y], *ms[x], *ms[y]);
        }
    }
    c.nontrivial(n >= 3 and engaged >= 1);
}
template <typename T> void history(Ctx &c) {
    live = 0;
    history_<T>(c);
    REQ(live == 0, "%ld objects left alive", live);
    static_assert(sizeof(opt<T>) == sizeof(T));
    static_assert(std::is_same_v<typename opt<T>::value_type, T>);
}
REG("float", 2, history<float>);
REG("double", 1, history<double>);
REG("long double with inner sentinel", 1, history<long double>);
REG("pointer", 1, history<int *>);
REG("enum", 2, history<E>);
REG("enum with value sentinel", 1, history<I16>);
REG("int with value sentinel", 1, history<int>);
REG("u64 with value sentinel", 1, history<std::uint64_t>);
REG("object", 3, history<Obj>);
REG("pair", 2, history<Pair>);
REG("tuple", 1, history<Tup>);
REG("stdx tuple", 1, history<STup>);

// a value type that can be neither copied nor moved
struct fixed {
    fixed() = default;
    explicit fixed(int x) : i{x} {}
    fixed(int x, int y) : i{x * 10 + y} {}
    fixed(fixed &&) = delete;
    fixed &operator=(int x) {
        i = x;
        return *this;
    }
    friend bool operator==(fixed const &, fixed const &) = default;
    friend bool operator<(fixed const &a, fixed const &b) { return a.i < b.i; }
    int i{};
};
struct fixed_sentinel {
    auto operator()() const -> fixed { return fixed{-7}; }
};
void immovable(Ctx &c) {
    using O = stdx::optional<fixed, fixed_sentinel>;
    O o, other{std::in_place, 3, 4};
    std::optional<int> m;
    REQ(other.has_value() and other->i == 34, "made in place");
    std::size_t n = 0;
    while (n < 20 and c.more(6)) {
        ++n;
        auto const k = c.range(0, 40);
        switch (c.choose(6)) {
        case 0:
            o.reset();
            m.reset();
            break;
        case 1:
            o = std::nullopt;
            m.reset();
            break;
        case 2: {
            auto &r = o.emplace(k);
            REQ(&r == &*o, "emplace returns the value");
            m = k;
            break;
        }
        case 3:
            o.emplace(k, 2);
            m = k * 10 + 2;
            break;
        case 4:
            o.emplace();
            m = 0;
            break;
        default:
            o = k;
            m = k;
        }
        c.note("%d", m.value_or(-7));
        REQ(o.has_value() == m.has_value() and
                static_cast<bool>(o) == m.has_value(),
            "has_value of a fixed object");
        REQ(o->i == m.value_or(-7) and (*o).i == m.value_or(-7), "its value");
        REQ((o == other) == (m == std::optional{34}) and
                (o < other) == (m < std::optional{34}) and
                (other < o) == (std::optional{34} < m),
            "its comparison");
    }
    c.nontrivial(n >= 2);
}
REG("immovable", 1, immovable);

// values that do not order with the sentinel are values all the same
template <typename T> void unordered(Ctx &c) {
    using L = std::numeric_limits<T>;
    auto const v = c.pick({L::quiet_NaN(), -L::quiet_NaN(), -L::infinity(),
                           L::max(), L::lowest(), L::denorm_min(), T(-0.0)});
    auto const same = [&](T x) {
        return std::isnan(v) ? std::isnan(x)
                             : x == v and std::signbit(x) == std::signbit(v);
    };
    opt<T> o;
    REQ(not o.has_value() and not o, "empty to begin with");
    switch (c.choose(4)) {
    case 0:
        o = v;
        break;
    case 1:
        o.emplace(v);
        break;
    case 2:
        o = opt<T>{v};
        break;
    default:
        *o = v;
    }
    c.note("value %Lg", static_cast<long double>(v));
    REQ(o.has_value() and o, "a value differing from the sentinel is a value");
    REQ(same(*o) and same(o.value()) and same(o.value_or(T(3))), "its value");
    REQ(o != opt<T>{} and not(o == opt<T>{}) and opt<T>{} < o and
            not(o < opt<T>{}),
        "comparison with none");
    opt<T> const copy{o};
    REQ(copy.has_value() and same(*copy), "a copy");
    // equality and strict order are those of the values
    auto const w = c.pick({L::quiet_NaN(), T(1), v});
    opt<T> const other{w};
    REQ((copy == other) == (v == w) and (copy != other) == (v != w),
        "equality with a value of %Lg", static_cast<long double>(w));
    REQ((copy < other) == (v < w) and (copy > other) == (v > w),
        "order with a value of %Lg", static_cast<long double>(w));
    o.reset();
    REQ(not o.has_value() and not o, "empty again");
    c.nontrivial();
}
REG("unordered float", 1, unordered<float>);
REG("unordered double", 1, unordered<double>);
REG("unordered long double", 1, unordered<long double>);
} // namespace
