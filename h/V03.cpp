#include <pbt.hpp>
#include <memory>
#include <optional>
#include <stdx/cached.hpp>
#include <stdx/latched.hpp>
#include <utility>
using namespace pbt;
namespace {
long live = 0;
struct Val {
    std::unique_ptr<int> p;
    explicit Val(int v) : p{std::make_unique<int>(v)} { ++live; }
    Val(Val const &o) : p{o.p ? std::make_unique<int>(*o.p) : nullptr} { ++live; }
    Val(Val &&o) noexcept : p{std::move(o.p)} { ++live; }
    Val &operator=(Val const &o) {
        p = o.p ? std::make_unique<int>(*o.p) : nullptr;
        return *this;
    }
    Val &operator=(Val &&) = default;
    ~Val() { --live; }
    int get() const { return p ? *p : -1; }
};
int calls;
struct by_value {
    int k = 0;
    auto operator()() const { return Val{++calls * 100 + k}; }
};
int store;
struct by_reference {
    int k = 0;
    auto operator()() const -> int const & {
        store = ++calls * 100 + k;
        return store;
    }
};
struct as_int {
    int k = 0;
    auto operator()() const { return ++calls * 100 + k; }
};
int read(Val const &v) { return v.get(); }
int read(int v) { return v; }

template <typename W> constexpr bool is_cached = requires(W w) { w.refresh(); };

struct model {
    int k;
    std::optional<int> v;
};
template <typename W, typename F> void history_(Ctx &c) {
    constexpr std::size_t S = 3;
    std::optional<W> ws[S];
    std::optional<model> ms[S];
    calls = 0;
    int expect_calls = 0;
    std::size_t n = 0, accesses = 0;
    auto fresh = [&](std::size_t i) {
        int const k = c.range(0, 9);
        c.note("s%zu made with %d", i, k);
        if (c.flip()) {
            F const f{k};
            ws[i].emplace(f);
        } else {
            ws[i].emplace(F{k});
        }
        ms[i] = model{k, {}};
    };
    for (std::size_t i = 0; i < S; ++i) {
        fresh(i);
    }
    REQ(calls == 0, "construction called the function");
    while (n < 25 and c.more(9)) {
        ++n;
        auto const i = c.choose(S), j = c.choose(S);
        auto &w = *ws[i];
        auto const &cw = w;
        auto &m = *ms[i];
        auto want = [&] {
            if (not m.v) {
                m.v = ++expect_calls * 100 + m.k;
            }
            return *m.v;
        };
        switch (c.weighted({1, 5, 4, 4, 3, 2, 2})) {
        case 0:
            fresh(i);
            break;
        case 1: {
            auto const form = c.choose(6);
            c.note("s%zu access form %d", i, int(form));
            ++accesses;
            auto const x = want();
            int got{};
            switch (form) {
            case 0: got = read(w.value()); break;
            case 1: got = read(cw.value()); break;
            case 2: got = read(*w); break;
            case 3: got = read(*cw); break;
            case 4: got = read(*w.operator->()); break;
            default: got = read(*cw.operator->());
            }
            REQ(calls == expect_calls, "function called %d times, expected %d",
                calls, expect_calls);
            REQ(got == x, "got %d, expected %d", got, x);
            REQ(&w.value() == &*w and &w.value() == w.operator->(),
                "every access form names one object");
            break;
        }
        case 2:
            c.note("s%zu asked for presence", i);
            break;
        case 3:
            if constexpr (is_cached<W>) {
                c.note("s%zu reset", i);
                w.reset();
                m.v.reset();
            }
            break;
        case 4:
            if constexpr (is_cached<W>) {
                c.note("s%zu refresh", i);
                m.v.reset();
                auto const x = want();
                auto &r = w.refresh();
                REQ(calls == expect_calls, "refresh: called %d times", calls);
                REQ(read(r) == x, "refresh returns %d, expected %d", read(r), x);
                REQ(&r == &w.value(), "refresh returns the stored object");
                ++accesses;
            }
            break;
        case 5: {
            c.note("s%zu = copy of s%zu", i, j);
            if (i != j) {
                W const &from = *ws[j];
                ws[i].emplace(from);
                ms[i] = ms[j];
            }
            break;
        }
        default: // take the value out of a temporary
            if (c.flip()) {
                c.note("s%zu value from a temporary copy", i);
                W t{w};
                auto const had = m.v;
                auto const x = had ? *had : ++expect_calls * 100 + m.k;
                auto const got = read(std::move(t).value());
                REQ(got == x, "temporary gives %d, expected %d", got, x);
            } else {
                c.note("s%zu moved to s%zu, remade", i, j);
                if (i != j) {
                    ws[j].emplace(std::move(w));
                    ms[j] = m;
                    fresh(i);
                }
            }
        }
        REQ(calls == expect_calls, "function called %d times, expected %d",
            calls, expect_calls);
        for (std::size_t x = 0; x < S; ++x) {
            auto const &a = *ws[x];
            REQ(a.has_value() == ms[x]->v.has_value(), "presence of s%zu", x);
            REQ(static_cast<bool>(a) == ms[x]->v.has_value(), "bool of s%zu", x);
            if (ms[x]->v) {
                REQ(read(a.value()) == *ms[x]->v, "stored value of s%zu", x);
            }
        }
        REQ(calls == expect_calls, "asking for presence called the function");
    }
    c.nontrivial(n >= 3 and accesses >= 1);
}
template <typename W, typename F> void history(Ctx &c) {
    live = 0;
    history_<W, F>(c);
    REQ(live == 0, "%ld values left alive", live);
    static_assert(
        std::is_same_v<stdx::cached_value_t<W>,
                       std::remove_cvref_t<std::invoke_result_t<F>>>);
    static_assert(std::is_same_v<decltype(std::declval<W const &>().value()),
                                 typename W::value_type const &>);
    static_assert(std::is_same_v<decltype(std::declval<W>().value()),
                                 typename W::value_type const &&>);
    static_assert(std::is_same_v<decltype(*std::declval<W const &>()),
                                 typename W::value_type const &>);
}
// a result that can be neither copied nor moved
struct pinned {
    int v;
    pinned *self;
    explicit pinned(int x) : v{x}, self{this} {}
    pinned(pinned const &) = delete;
};
template <template <typename> typename W> void immovable(Ctx &c) {
    calls = 0;
    // the function can be moved but not copied
    auto f = [own = std::make_unique<int>(0)] {
        ++calls;
        return pinned{++*own};
    };
    W<decltype(f)> w{std::move(f)};
    int want = 0;
    bool have = false;
    std::size_t n = 0;
    while (n < 12 and c.more(6)) {
        ++n;
        REQ(w.has_value() == have, "presence");
        if (c.choose(3) == 0) {
            if constexpr (requires { w.refresh(); }) {
                if (c.flip()) {
                    c.note("refresh");
                    ++want;
                    have = true;
                    REQ(w.refresh().v == want, "refreshed value");
                } else {
                    c.note("reset");
                    w.reset();
                    have = false;
                }
            }
        } else {
            c.note("access");
            want += not have;
            have = true;
            REQ(w->v == want and (*w).v == want and w.value().v == want,
                "value, expected %d", want);
            REQ(w->self == &*w, "the value is built in place");
        }
        REQ(calls == want, "called %d times, expected %d", calls, want);
    }
    c.nontrivial(n >= 2 and want >= 1);
}
template <typename F> using C = stdx::cached<F>;
template <typename F> using L = stdx::latched<F>;
REG("cached value", 3, history<C<by_value>, by_value>);
REG("latched value", 3, history<L<by_value>, by_value>);
REG("cached reference", 1, history<C<by_reference>, by_reference>);
REG("latched reference", 1, history<L<by_reference>, by_reference>);
REG("cached int", 1, history<C<as_int>, as_int>);
REG("latched int", 1, history<L<as_int>, as_int>);
REG("cached immovable", 1, immovable<stdx::cached>);
REG("latched immovable", 1, immovable<stdx::latched>);
} // namespace
