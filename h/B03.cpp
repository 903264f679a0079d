#include "bitset_common.hpp"
#include <memory>
using namespace bs;
namespace {
struct counter { // can be moved but not copied
    counter() = default;
    counter(counter &&) = default;
    std::size_t n{};
    void operator()(auto) { ++n; }
};
template <typename C> std::size_t num(auto i) {
    static_assert(
        std::is_same_v<decltype(i),
                       std::conditional_t<C::enum_sized, typename C::size_t_,
                                          std::size_t>>,
        "iteration passes the index type");
    return static_cast<std::size_t>(i);
}

template <typename C>
void check_iteration(Ctx &c, typename C::type const &b, model const &m) {
    constexpr auto N = C::N;
    std::vector<std::size_t> on, off;
    for (std::size_t i = 0; i < N; ++i) {
        (m[i] ? on : off).push_back(i);
    }
    auto show_list = [](auto const &v) {
        std::string s;
        for (auto x : v) {
            s += std::to_string(x) + " ";
        }
        return s;
    };
    std::vector<std::size_t> got;
    auto limit = [&] {
        REQ(got.size() <= N, "more calls than bits; contents %s",
            text(m).c_str());
    };
    stdx::for_each(
        [&](auto i) {
            got.push_back(num<C>(i));
            limit();
        },
        b);
    REQ(got == on, "for_each visited %s, expected %s", show_list(got).c_str(),
        show_list(on).c_str());
    got.clear();
    stdx::for_each<stdx::set_bit>(
        [&](auto i) {
            got.push_back(num<C>(i));
            limit();
        },
        b);
    REQ(got == on, "for_each<set_bit> visited %s, expected %s",
        show_list(got).c_str(), show_list(on).c_str());
    got.clear();
    stdx::for_each<stdx::unset_bit>(
        [&](auto i) {
            got.push_back(num<C>(i));
            limit();
        },
        b);
    REQ(got == off, "for_each<unset_bit> visited %s, expected %s",
        show_list(got).c_str(), show_list(off).c_str());
    got.clear();
    stdx::for_each<stdx::bit>(
        [&](auto i, bool v) {
            auto const k = num<C>(i);
            REQ(k < N, "visited position %zu", k);
            REQ(v == m[k], "for_each<bit> value at %zu", k);
            got.push_back(k);
            limit();
        },
        b);
    REQ_EQ(got.size(), N, "for_each<bit> visits every position");
    for (std::size_t i = 0; i < N; ++i) {
        REQ(got[i] == i, "for_each<bit> order at %zu", i);
    }

    // the function object comes back with its state
    auto const r = stdx::for_each(counter{}, b);
    REQ_EQ(r.n, on.size(), "returned function object");
    counter lv{};
    auto &lr = stdx::for_each(lv, b);
    REQ(&lr == &lv and lv.n == on.size(), "lvalue function object");

    // order-sensitive, non-commutative fold
    auto const init = c.bits(8);
    auto const tr = stdx::transform_reduce(
        [](auto i) { return std::to_string(num<C>(i)) + ","; },
        [](std::string a, std::string const &x) { return a + x; },
        std::to_string(init) + ":", b);
    std::string want = std::to_string(init) + ":";
    for (auto i : on) {
        want += std::to_string(i) + ",";
    }
    REQ_EQ(tr, want, "transform_reduce");

    // functions and a running value that can be moved but not copied
    auto const total = stdx::transform_reduce(
        [one = std::make_unique<std::size_t>(1)](auto i) {
            return num<C>(i) + *one;
        },
        [own = std::make_unique<std::size_t>(3)](std::unique_ptr<std::size_t> a,
                                                 std::size_t x) {
            *a = *a * *own + x;
            return a;
        },
        std::make_unique<std::size_t>(init), b);
    std::size_t sum = init;
    for (auto i : on) {
        sum = sum * 3 + i + 1;
    }
    REQ_EQ(*total, sum, "transform_reduce of a moved value");

    auto const lu = static_cast<std::size_t>(b.lowest_unset());
    REQ_EQ(lu, off.empty() ? N : off.front(), "lowest_unset");
    if (off.empty()) {
        LABEL(c, "no unset bit");
    } else if (off.front() != 0) {
        LABEL(c, "lowest unset bit above zero");
    }
}

template <typename C> void iteration(Ctx &c) {
    typename C::type b{};
    model m(C::N);
    switch (c.choose(4)) {
    case 0:
        break;
    case 1: { // long prefix of ones
        auto const k = c.choose(C::N + 1);
        for (std::size_t i = 0; i < k; ++i) {
            m[i] = true;
        }
        b = make<C>(m);
        c.note("prefix %zu", k);
        break;
    }
    default:
        m = random_model<C::N>(c);
        b = make<C>(m);
        c.note("start %s", text(m).c_str());
        break;
    }
    std::size_t n = 0;
    while (n < 20 and c.more(6)) {
        step<C>(c, b, m);
        ++n;
    }
    auto const copy = b;
    check_iteration<C>(c, b, m);
    REQ(copy == b, "iteration leaves the bitset unchanged");
    compare_bits<C>(b, m);
    auto const k = popcount(m);
    c.nontrivial(k != 0 and k != C::N);
}
} // namespace
#if PART == 0
namespace {
// more words than a byte can count
void many(Ctx &c) {
    if (c.choose(64) == 63) {
        iteration<cfg<2061, std::uint8_t>>(c);
    } else {
        iteration<cfg<22, std::uint8_t>>(c);
    }
}
} // namespace
REG("many words", 1, many);
#endif
#define X(...) REG("iter<" #__VA_ARGS__ ">", 1, iteration<cfg<__VA_ARGS__>>);
BS_CONFIGS(X)
#if PART == 4
namespace {
void zero(Ctx &) {
    stdx::bitset<0> b{};
    int n = 0;
    stdx::for_each([&](auto) { ++n; }, b);
    stdx::for_each<stdx::unset_bit>([&](auto) { ++n; }, b);
    stdx::for_each<stdx::bit>([&](auto, bool) { ++n; }, b);
    REQ_EQ(n, 0, "empty bitset iteration");
    REQ_EQ(b.lowest_unset(), std::size_t{}, "empty bitset lowest_unset");
    REQ(b.all() and b.none() and not b.any() and b.empty() and b.count() == 0,
        "empty bitset observers");
}
} // namespace
REG("zero", 1, zero);
#endif
