#include <pbt.hpp>
#include <algorithm>
#include <iterator>
#include <limits>
#include <numeric>
#include <stdx/iterator.hpp>
#include <vector>
using namespace pbt;
namespace {
template <typename T> struct range_of {
    // values and differences stay representable in T and in the difference type
    static constexpr i128 lo = std::numeric_limits<T>::min();
    static constexpr i128 hi = std::numeric_limits<T>::max();
    using D = typename stdx::counting_iterator<T>::difference_type;
    static constexpr i128 dhi = std::numeric_limits<D>::max();
    static constexpr i128 dlo = std::numeric_limits<D>::min();
};
template <typename T> T value(Ctx &c) { return c.integer<T>(); }

template <typename T> void laws(Ctx &c) {
    using R = range_of<T>;
    using It = stdx::counting_iterator<T>;
    using D = typename R::D;
    i128 cur = value<T>(c);
    It it{static_cast<T>(cur)};
    c.note("start %s", show(cur).c_str());
    std::size_t n = 0;
    auto state = [&] {
        auto const &ci = it;
        REQ(i128{*it} == cur, "dereference gives %s, expected %s",
            show(i128{*it}).c_str(), show(cur).c_str());
        REQ(i128{*ci} == cur, "const dereference");
    };
    state();
    while (n < 20 and c.more(8)) {
        ++n;
        auto const was = it;
        switch (c.choose(7)) {
        case 0:
            if (cur < R::hi) {
                c.note("++");
                if (c.flip()) {
                    REQ(&++it == &it, "++ returns the iterator");
                } else {
                    REQ(it++ == was, "post ++ returns the old value");
                }
                ++cur;
            }
            break;
        case 1:
            if (cur > R::lo) {
                c.note("--");
                if (c.flip()) {
                    REQ(&--it == &it, "-- returns the iterator");
                } else {
                    REQ(it-- == was, "post -- returns the old value");
                }
                --cur;
            }
            break;
        case 2:
        case 3: { // jump to another value, when the difference is representable
            i128 to = value<T>(c);
            if (c.flip()) {
                to = std::clamp<i128>(cur + c.range(-300, 300), R::lo, R::hi);
            }
            auto const d = to - cur;
            if (d < R::dlo or d > R::dhi or -d < R::dlo or -d > R::dhi) {
                // unsigned difference types only count forwards
                if (d > 0 and d <= R::dhi) {
                    c.note("forward to %s", show(to).c_str());
                    if (c.flip()) {
                        it += static_cast<D>(d);
                    } else {
                        it = it + static_cast<D>(d);
                    }
                    cur = to;
                } else if (d < 0 and -d <= R::dhi) {
                    c.note("back to %s", show(to).c_str());
                    if (c.flip()) {
                        it -= static_cast<D>(-d);
                    } else {
                        it = it - static_cast<D>(-d);
                    }
                    cur = to;
                }
                break;
            }
            auto const k = c.choose(6);
            c.note("jump %d to %s", int(k), show(to).c_str());
            switch (k) {
            case 0: REQ(&(it += static_cast<D>(d)) == &it, "+="); break;
            case 1: REQ(&(it -= static_cast<D>(-d)) == &it, "-="); break;
            case 2: REQ(&it.advance(static_cast<D>(d)) == &it, "advance"); break;
            case 3: it = it + static_cast<D>(d); break;
            case 4: it = static_cast<D>(d) + it; break;
            default: it = it - static_cast<D>(-d);
            }
            cur = to;
            break;
        }
        case 4: {
            i128 o = value<T>(c);
            if (c.chance(1, 3)) {
                o = std::clamp<i128>(cur + c.range(-2, 2), R::lo, R::hi);
            }
            It const y{static_cast<T>(o)};
            c.note("compare with %s", show(o).c_str());
            REQ((it == y) == (cur == o) and (it != y) == (cur != o), "equality");
            REQ((it < y) == (cur < o) and (it <= y) == (cur <= o) and
                    (it > y) == (cur > o) and (it >= y) == (cur >= o),
                "ordering");
            if (cur - o <= R::dhi and cur - o >= R::dlo) {
                REQ(i128{it - y} == cur - o, "distance");
            }
            break;
        }
        case 5: {
            auto const copy = it;
            REQ(copy == it and *copy == *it, "copy");
            break;
        }
        default: { // a half-open range through standard algorithms
            auto const len = c.range(0, 40);
            if (cur + len > R::hi) {
                break;
            }
            c.note("algorithms over %d", len);
            It const last{static_cast<T>(cur + len)};
            std::vector<T> want;
            for (int i = 0; i < len; ++i) {
                want.push_back(static_cast<T>(cur + i));
            }
            std::vector<T> got;
            std::for_each(it, last, [&](T x) { got.push_back(x); });
            REQ(got == want, "for_each over %d", len);
            got.clear();
            std::copy(it, last, std::back_inserter(got));
            REQ(got == want, "copy over %d", len);
            got.clear();
            std::transform(it, last, std::back_inserter(got),
                           [](T x) { return x; });
            REQ(got == want, "transform over %d", len);
            REQ(i128{std::distance(it, last)} == len, "std::distance");
            auto const pick = cur + c.range(0, len);
            auto const f = std::find(it, last, static_cast<T>(pick));
            REQ(i128{*f} == pick, "find");
            REQ(i128{std::accumulate(it, last, i128{0},
                                     [](i128 a, T b) { return a + b; })} ==
                    std::accumulate(want.begin(), want.end(), i128{0},
                                    [](i128 a, T b) { return a + b; }),
                "accumulate");
            if (len > 1) {
                LABEL(c, "algorithms over several");
            }
        }
        }
        state();
    }
    c.nontrivial(n >= 3);
}
template <typename T> void by_type(Ctx &c) {
    auto const x = value<T>(c);
    auto const it = stdx::counting_iterator{x};
    static_assert(
        std::is_same_v<decltype(it), stdx::counting_iterator<T> const>);
    REQ(*it == x, "deduced");
    laws<T>(c);
}
REG("int", 2, by_type<int>);
REG("u8", 1, by_type<u8>);
REG("i8", 1, by_type<i8>);
REG("i16", 1, by_type<i16>);
REG("u16", 1, by_type<u16>);
REG("u32", 1, by_type<u32>);
REG("i64", 1, by_type<i64>);
REG("u64", 1, by_type<u64>);
REG("char", 1, by_type<char>);
static_assert(std::is_same_v<stdx::counting_iterator<>,
                             stdx::counting_iterator<int>>);
} // namespace
