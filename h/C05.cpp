#include "containers.hpp"
#include <deque>
#include <stdx/cx_queue.hpp>
#include <stdx/iterator.hpp>
#include <string_view>

namespace {
struct reported {
    std::string what;
};
struct handler {
    template <typename... A> static void panic(A &&...) {
        throw reported{"?"};
    }
    template <stdx::ct_string S, typename... A> static void panic(A &&...) {
        throw reported{std::string{std::string_view{S}}};
    }
};
} // namespace
template <> inline auto stdx::panic_handler<> = handler{};

using namespace cont;
namespace {
int violations_push, violations_pop, checks_push, checks_pop;
struct custom {
    static void check_push(std::size_t size, std::size_t cap) {
        ++checks_push;
        if (size >= cap) {
            ++violations_push;
            throw reported{"push"};
        }
    }
    static void check_pop(std::size_t size) {
        ++checks_pop;
        if (size == 0) {
            ++violations_pop;
            throw reported{"pop"};
        }
    }
};
struct mo { // move-only
    std::unique_ptr<int> p{};
    mo() = default;
    explicit mo(int i) : p{std::make_unique<int>(i)} {}
    friend bool operator==(mo const &m, int i) { return m.p and *m.p == i; }
};

template <typename T> struct model_of {
    using type = T;
    static T const &see(T const &t) { return t; }
    static T mk(T const &t) { return t; }
};
template <> struct model_of<mo> {
    using type = int;
    static mo mk(int i) { return mo{i}; }
};

template <typename Q, typename D> void same(Q &q, D const &d) {
    constexpr auto N = Q::capacity();
    static_assert(stdx::ct_capacity_v<Q> == N);
    auto const &cq = q;
    REQ_EQ(q.size(), d.size(), "size");
    REQ_EQ(q.empty(), d.empty(), "empty");
    REQ_EQ(q.full(), d.size() == N, "full");
    if (not d.empty()) {
        REQ(q.front() == d.front() and cq.front() == d.front(), "front");
        REQ(q.back() == d.back() and cq.back() == d.back(), "back");
        if (d.size() == 1) {
            REQ(&q.front() == &q.back(), "a single element is front and back");
        }
    }
}

template <typename T, std::size_t N, typename P> void history(Ctx &c) {
    using Q = stdx::cx_queue<T, N, P>;
    using MT = typename model_of<T>::type;
    constexpr bool copyable = std::is_copy_constructible_v<T>;
    constexpr bool policed = not std::is_same_v<P, stdx::unsafe_overflow_policy>;
    auto q = std::make_unique<Q>(); // ASan sees accesses outside the storage
    std::deque<MT> d;
    std::size_t n = 0, pushes = 0, pops = 0, caught = 0;
    auto expect = [&](char const *what, char const *word, auto f) {
        bool hit = false;
        try {
            f();
        } catch (reported const &r) {
            hit = true;
            if constexpr (std::is_same_v<P, stdx::safe_overflow_policy>) {
                REQ(r.what.find(word) != std::string::npos,
                    "%s reported as \"%s\"", what, r.what.c_str());
            }
        }
        REQ(hit, "%s is reported", what);
        ++caught;
        LABEL(c, "reported overflow or underflow");
    };
    while (n < 80 and c.more(22)) {
        ++n;
        switch (c.weighted({9, 7, 2, 1, 1, 2})) {
        case 0: {
            MT x = val<MT>(c);
            c.note("push %s", str(x).c_str());
            if (d.size() == N) {
                if constexpr (policed) {
                    expect("push when full", "overflow",
                           [&] { q->push(model_of<T>::mk(x)); });
                }
                break;
            }
            auto const how = c.choose(2);
            if constexpr (copyable) {
                auto &r = how ? q->push(T(x)) : q->push(x);
                REQ(r == x, "push returns the element");
                REQ(&r == &q->back(), "push returns the back");
            } else {
                auto &r = q->push(model_of<T>::mk(x));
                REQ(r == x and &r == &q->back(), "push returns the element");
            }
            d.push_back(x);
            ++pushes;
            break;
        }
        case 1: {
            c.note("pop");
            if (d.empty()) {
                if constexpr (policed) {
                    expect("pop when empty", "underflow",
                           [&] { (void)q->pop(); });
                }
                break;
            }
            auto const x = q->pop();
            REQ(x == d.front(), "pop returns the oldest element, expected %s",
                str(d.front()).c_str());
            d.pop_front();
            ++pops;
            break;
        }
        case 2: {
            if (d.empty()) {
                if constexpr (policed) {
                    c.note("front/back of an empty queue");
                    expect("front when empty", "underflow",
                           [&] { (void)q->front(); });
                    expect("back when empty", "underflow",
                           [&] { (void)q->back(); });
                    auto const &cq = *q;
                    expect("const front when empty", "underflow",
                           [&] { (void)cq.front(); });
                    expect("const back when empty", "underflow",
                           [&] { (void)cq.back(); });
                }
                break;
            }
            MT const x = val<MT>(c);
            auto const f = c.flip();
            c.note("%s = %s", f ? "front" : "back", str(x).c_str());
            (f ? q->front() : q->back()) = model_of<T>::mk(x);
            (f ? d.front() : d.back()) = x;
            break;
        }
        case 3:
            c.note("clear");
            q->clear();
            d.clear();
            break;
        case 4:
            if constexpr (copyable) {
                c.note("copy");
                auto k = std::make_unique<Q>(*q);
                same(*k, d);
                while (not k->empty()) { // draining a copy leaves the original
                    (void)k->pop();
                }
                *k = *q;
                q = std::move(k);
            } else {
                c.note("move");
                q = std::make_unique<Q>(std::move(*q));
            }
            break;
        default: { // a burst, to travel around the buffer
            auto const k = c.choose(N + 1);
            c.note("burst %zu", k);
            for (std::size_t i = 0; i < k and not d.empty(); ++i) {
                auto const x = q->pop();
                REQ(x == d.front(), "pop in a burst, expected %s",
                    str(d.front()).c_str());
                d.pop_front();
                ++pops;
            }
            for (std::size_t i = 0; i < k and d.size() < N; ++i) {
                MT const x = val<MT>(c);
                q->push(model_of<T>::mk(x));
                d.push_back(x);
                ++pushes;
            }
        }
        }
        same(*q, d);
    }
    if (pushes > N) {
        LABEL(c, "wrapped around");
    }
    c.nontrivial(pushes >= 2 and (pops >= 1 or caught >= 1));
    while (not d.empty()) {
        auto const x = q->pop();
        REQ(x == d.front(), "draining, expected %s", str(d.front()).c_str());
        d.pop_front();
        same(*q, d);
    }
}

// the policy sees the true size and capacity, before anything changes
PROPERTY("policy arguments", 1) {
    stdx::cx_queue<int, 3, custom> q;
    std::size_t sz = 0;
    std::size_t n = 0;
    while (n < 20 and c.more(8)) {
        ++n;
        auto const cp = checks_push, cq = checks_pop;
        auto const vp = violations_push, vq = violations_pop;
        if (c.flip()) {
            bool hit = false;
            try {
                q.push(1);
            } catch (reported const &) {
                hit = true;
            }
            REQ(hit == (sz == 3), "push with %zu elements", sz);
            REQ(checks_push == cp + 1 and checks_pop == cq,
                "a push consults the policy");
            REQ(violations_push == vp + hit, "violations counted");
            sz += not hit;
        } else {
            bool hit = false;
            try {
                (void)q.pop();
            } catch (reported const &) {
                hit = true;
            }
            REQ(hit == (sz == 0), "pop with %zu elements", sz);
            REQ(checks_pop > cq and checks_push == cp,
                "a pop consults the policy");
            REQ((violations_pop > vq) == hit, "violations counted");
            sz -= not hit;
        }
        REQ_EQ(q.size(), sz, "size");
    }
    c.nontrivial(n >= 3);
}
REG("int 300 safe", 1,
    rarely<history<int, 300, stdx::safe_overflow_policy>,
            history<int, 9, stdx::safe_overflow_policy>>);
REG("int 1 safe", 1, history<int, 1, stdx::safe_overflow_policy>);
REG("int 2 safe", 1, history<int, 2, stdx::safe_overflow_policy>);
REG("int 4 unsafe", 1, history<int, 4, stdx::unsafe_overflow_policy>);
REG("int 5 safe", 2, history<int, 5, stdx::safe_overflow_policy>);
REG("string 3 safe", 1, history<std::string, 3, stdx::safe_overflow_policy>);
REG("string 4 custom", 1, history<std::string, 4, custom>);
REG("Big 7 unsafe", 1, history<Big, 7, stdx::unsafe_overflow_policy>);
REG("move-only 3 safe", 2, history<mo, 3, stdx::safe_overflow_policy>);

// capacities at the limits of narrow integers, filled to the last element and
// going round
template <std::size_t N> void brim(Ctx &c) {
    auto q = std::make_unique<
        stdx::cx_queue<std::uint32_t, N, stdx::safe_overflow_policy>>();
    auto const start = static_cast<std::uint32_t>(c.choose(N));
    c.note("%zu elements from position %u", N, start);
    for (std::uint32_t i = 0; i < start; ++i) {
        q->push(i);
        REQ_EQ(q->pop(), i, "popped");
    }
    REQ(q->empty(), "empty");
    for (std::uint32_t i = 0; i < N; ++i) {
        REQ_EQ(q->size(), std::size_t{i}, "size while filling");
        REQ(not q->full(), "not full while filling");
        q->push(i);
        REQ_EQ(q->back(), i, "back");
        REQ_EQ(q->front(), 0u, "front");
    }
    REQ(q->full() and not q->empty(), "full");
    bool hit = false;
    try {
        q->push(0u);
    } catch (reported const &) {
        hit = true;
    }
    REQ(hit, "a push to a full queue is reported");
    for (std::uint32_t i = 0; i < N; ++i) {
        REQ_EQ(q->size(), N - i, "size while emptying");
        REQ_EQ(q->pop(), i, "popped");
    }
    REQ(q->empty() and not q->full(), "empty again");
    c.nontrivial();
}
REG("brim 127 255", 1, rarely<brim<127>, brim<255>>);
REG("brim 128 256", 1, rarely<brim<128>, brim<256>>);
REG("brim 65536 257", 1, rarely<brim<65536>, brim<257>>);
} // namespace
