#include "containers.hpp"
#include <stdx/cx_vector.hpp>
#include <stdx/iterator.hpp>
#include <array>
using namespace cont;
namespace {
template <typename T, std::size_t N>
void same(stdx::cx_vector<T, N> &v, std::vector<T> const &m) {
    using V = stdx::cx_vector<T, N>;
    auto const &cv = v;
    static_assert(V::capacity() == N);
    static_assert(stdx::ct_capacity_v<V> == N);
    REQ_EQ(v.size(), m.size(), "size");
    REQ_EQ(v.empty(), m.empty(), "empty");
    REQ_EQ(v.full(), m.size() == N, "full");
    for (std::size_t i = 0; i < m.size(); ++i) {
        REQ(v[i] == m[i] and cv[i] == m[i], "element %zu of %s", i,
            str_all(m).c_str());
        REQ(&v[i] == &cv[i], "element %zu has one address", i);
    }
    if (not m.empty()) {
        REQ(v.front() == m.front() and cv.front() == m.front() and
                &v.front() == &v[0],
            "front");
        REQ(v.back() == m.back() and cv.back() == m.back() and
                &v.back() == &v[m.size() - 1],
            "back");
        if constexpr (N > 0) {
            REQ(&v.template get<0>() == &v[0] and
                    &stdx::get<0>(cv) == &cv[0] and &stdx::get<0>(v) == &v[0],
                "get<0>");
        }
    }
    if (m.size() == N and N > 0) {
        REQ(&stdx::get<(N > 0 ? N - 1 : 0)>(v) == &v[N - 1] and
                &cv.template get<(N > 0 ? N - 1 : 0)>() == &v[N - 1],
            "get<N-1>");
    }
    auto seq = [&](auto f, auto l, auto const &want, char const *what) {
        std::size_t i = 0;
        for (; f != l; ++f) {
            REQ(i < want.size(), "%s goes on too long", what);
            REQ(*f == want[i], "%s at %zu of %s", what, i,
                str_all(want).c_str());
            ++i;
        }
        REQ(i == want.size(), "%s stops early", what);
    };
    auto const rm = std::vector<T>(m.rbegin(), m.rend());
    seq(v.begin(), v.end(), m, "traversal");
    seq(cv.begin(), cv.end(), m, "const traversal");
    seq(v.cbegin(), v.cend(), m, "cbegin traversal");
    seq(v.rbegin(), v.rend(), rm, "reverse traversal");
    seq(cv.rbegin(), cv.rend(), rm, "const reverse traversal");
    seq(v.crbegin(), v.crend(), rm, "crbegin traversal");
}

template <typename T, std::size_t N>
stdx::cx_vector<T, N> build(std::vector<T> const &x) {
    auto const at = [&](std::size_t i) { return x[i]; };
    using V = stdx::cx_vector<T, N>;
    if constexpr (N >= 1) {
        if (x.size() == 1) {
            return V{at(0)};
        }
    }
    if constexpr (N >= 2) {
        if (x.size() == 2) {
            return V{at(0), at(1)};
        }
    }
    if constexpr (N >= 3) {
        if (x.size() == 3) {
            return V{at(0), at(1), at(2)};
        }
    }
    if constexpr (N >= 5) {
        if (x.size() == 5) {
            return V{at(0), at(1), at(2), at(3), at(4)};
        }
    }
    V v{};
    for (auto const &e : x) {
        v.push_back(e);
    }
    return v;
}

template <typename T, std::size_t N> void history(Ctx &c) {
    using V = stdx::cx_vector<T, N>;
    V vs[2]{};
    std::vector<T> ms[2];
    std::size_t n = 0;
    bool popped = false;
    if constexpr (N > 64) {
        for (auto w : {0, 1}) {
            auto const k = c.size(N);
            c.note("v%d starts with %zu elements", w, k);
            for (std::size_t i = 0; i < k; ++i) {
                ms[w].push_back(make<T>(static_cast<int>(i % 100)));
                vs[w].push_back(ms[w].back());
            }
        }
    }
    while (n < max_steps<N> and c.more(16)) {
        ++n;
        auto const w = c.choose(2);
        auto &v = vs[w];
        auto &m = ms[w];
        switch (c.weighted({8, 4, 1, 3, 2, 2, 2, 2, 2})) {
        case 0: {
            if (m.size() == N) {
                c.note("v%d full", int(w));
                break;
            }
            auto x = val<T>(c);
            auto const how = c.choose(3);
            c.note("v%d push_back %s (%d)", int(w), str(x).c_str(), int(how));
            if (how == 2 and not m.empty()) { // an element of itself
                auto const i = c.choose(m.size());
                auto const e = m[i];
                auto &r = v.push_back(v[i]);
                m.push_back(e);
                REQ(&r == &v[m.size() - 1], "push_back returns the element");
            } else {
                m.push_back(x);
                auto &r = how == 0 ? v.push_back(x) : v.push_back(std::move(x));
                REQ(&r == &v[m.size() - 1], "push_back returns the element");
                REQ(r == m.back(), "push_back stores the value");
            }
            break;
        }
        case 1: {
            if (m.empty()) {
                break;
            }
            c.note("v%d pop_back", int(w));
            auto x = v.pop_back();
            REQ(x == m.back(), "pop_back returns the last element");
            m.pop_back();
            popped = true;
            break;
        }
        case 2:
            c.note("v%d clear", int(w));
            v.clear();
            m.clear();
            popped = true;
            break;
        case 3: {
            if (m.empty()) {
                break;
            }
            auto const i = c.choose(m.size());
            auto const x = val<T>(c);
            c.note("v%d [%zu] = %s", int(w), i, str(x).c_str());
            switch (c.choose(4)) {
            case 0:
                v[i] = x;
                break;
            case 1:
                *(v.begin() + static_cast<long>(i)) = x;
                break;
            case 2:
                *(v.rbegin() + static_cast<long>(m.size() - 1 - i)) = x;
                break;
            default:
                if (i == 0) {
                    v.front() = x;
                } else if (i == m.size() - 1) {
                    v.back() = x;
                } else {
                    v[i] = x;
                }
            }
            m[i] = x;
            break;
        }
        case 4: {
            std::vector<T> x;
            auto const k = c.size(N);
            for (std::size_t i = 0; i < k; ++i) {
                x.push_back(val<T>(c));
            }
            c.note("v%d construct %s", int(w), str_all(x).c_str());
            v = build<T, N>(x);
            m = x;
            break;
        }
        case 5: {
            auto const keep = c.size(m.size());
            auto const add = c.size(N - keep);
            std::vector<T> x(m.begin(), m.begin() + static_cast<long>(keep));
            for (std::size_t i = 0; i < add; ++i) {
                x.push_back(val<T>(c));
            }
            c.note("v%d resize_and_overwrite keep %zu add %zu", int(w), keep,
                   add);
            resize_and_overwrite(v, [&](T *p, std::size_t cap) {
                REQ(cap == N, "overwrite sees the capacity");
                for (std::size_t i = 0; i < keep; ++i) {
                    REQ(p[i] == m[i], "overwrite sees the elements");
                }
                for (std::size_t i = keep; i < x.size(); ++i) {
                    p[i] = x[i];
                }
                return x.size();
            });
            m = x;
            LABEL(c, "resize and overwrite");
            break;
        }
        case 6:
            c.note("v%d = v%d", int(w), int(1 - w));
            v = vs[1 - w];
            m = ms[1 - w];
            break;
        case 7: {
            c.note("copy v%d", int(w));
            V k{v};
            same(k, m);
            if (not m.empty()) { // the copy is independent
                k[0] = make<T>(77);
                REQ(v[0] == m[0], "writing a copy leaves the original");
            }
            break;
        }
        default: {
            c.note("swap");
            std::swap(vs[0], vs[1]);
            std::swap(ms[0], ms[1]);
        }
        }
        same(vs[0], ms[0]);
        same(vs[1], ms[1]);
        REQ((vs[0] == vs[1]) == (ms[0] == ms[1]), "equality of %s and %s",
            str_all(ms[0]).c_str(), str_all(ms[1]).c_str());
        REQ((vs[0] != vs[1]) == (ms[0] != ms[1]), "inequality");
        auto const fresh = build<T, N>(ms[1]);
        REQ(vs[1] == fresh and fresh == vs[1], "equal to a fresh copy of %s",
            str_all(ms[1]).c_str());
        if (ms[0] == ms[1] and popped) {
            LABEL(c, "equal vectors after a removal");
        }
    }
    c.nontrivial(n >= 3 and not(ms[0].empty() and ms[1].empty()));
}
REG("int 1", 1, history<int, 1>);
REG("int 4", 2, history<int, 4>);
REG("u8 17", 1, history<std::uint8_t, 17>);
REG("string 3", 2, history<std::string, 3>);
REG("Big 6", 2, history<Big, 6>);
REG("bool 5", 1, history<bool, 5>);
REG("int 300", 1, rarely<history<int, 300>, history<int, 9>>);

PROPERTY("capacity zero", 1) {
    stdx::cx_vector<int, 0> v{};
    REQ(v.size() == 0 and v.empty() and v.full() and v.begin() == v.end(),
        "an empty vector of capacity 0");
    v.clear();
    REQ(v == v, "equal to itself");
}
PROPERTY("deduction", 1) {
    auto const a = c.integer<int>(), b = c.integer<int>(), d = c.integer<int>();
    stdx::cx_vector v{a, b, d};
    static_assert(std::is_same_v<decltype(v), stdx::cx_vector<int, 3>>);
    REQ(v[0] == a and v[1] == b and v[2] == d and v.size() == 3, "deduced");
    stdx::cx_vector<long, 4> w{a, b};
    REQ(w.size() == 2 and w[0] == a and w[1] == b, "converted");
    static_assert(stdx::ct_capacity(w) == 4 or true);
    c.nontrivial(a != b);
}

// capacities at the limits of narrow integers, filled to the last element
template <std::size_t N> void brim(Ctx &c) {
    auto v = std::make_unique<stdx::cx_vector<std::uint32_t, N>>();
    auto const x = c.integer<std::uint32_t>();
    auto const short_by = c.choose(3);
    c.note("%zu elements of %zu, from %u", N - short_by, N, x);
    for (std::size_t i = 0; i < N - short_by; ++i) {
        REQ_EQ(v->size(), i, "size while filling");
        REQ(not v->full(), "not full while filling");
        v->push_back(x + static_cast<std::uint32_t>(i));
    }
    REQ_EQ(v->size(), N - short_by, "size");
    REQ_EQ(v->full(), short_by == 0, "full");
    REQ_EQ(v->empty(), false, "empty");
    REQ_EQ(static_cast<std::size_t>(v->end() - v->begin()), N - short_by,
           "distance between the ends");
    auto const copy = std::make_unique<stdx::cx_vector<std::uint32_t, N>>(*v);
    REQ(*copy == *v, "a copy is equal");
    for (std::size_t i = N - short_by; i-- > 0;) {
        REQ_EQ(v->pop_back(), x + static_cast<std::uint32_t>(i), "popped");
        REQ_EQ(v->size(), i, "size while emptying");
    }
    REQ(v->empty() and v->begin() == v->end(), "empty again");
    REQ(not(*copy == *v), "a full vector is not equal to an empty one");
    c.nontrivial();
}
REG("brim 127 255", 1, rarely<brim<127>, brim<255>>);
REG("brim 128 256", 1, rarely<brim<128>, brim<256>>);
REG("brim 65536 257", 1, rarely<brim<65536>, brim<257>>);
} // namespace
