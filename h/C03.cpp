#include "containers.hpp"
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/iterator.hpp>
#include <array>
using namespace cont;
namespace {
template <typename K, std::size_t N>
void same(stdx::cx_set<K, N> &s, std::set<K> const &r, int dom) {
    using S = stdx::cx_set<K, N>;
    auto const &cs = s;
    static_assert(S::capacity() == N and stdx::ct_capacity_v<S> == N);
    REQ_EQ(s.size(), r.size(), "size");
    REQ_EQ(s.empty(), r.empty(), "empty");
    for (int i = 0; i < dom; ++i) {
        auto const k = make<K>(i);
        REQ(cs.contains(k) == r.contains(k), "contains %s", str(k).c_str());
    }
    auto visit = [&](auto f, auto l, char const *what) {
        std::set<K> seen;
        std::size_t n = 0;
        for (; f != l; ++f) {
            ++n;
            REQ(n <= r.size(), "%s visits too many elements", what);
            REQ(r.contains(*f), "%s visits the absent %s", what,
                str(*f).c_str());
            REQ(seen.insert(*f).second, "%s visits %s twice", what,
                str(*f).c_str());
        }
        REQ(n == r.size(), "%s visits too few elements", what);
    };
    visit(s.begin(), s.end(), "iteration");
    visit(cs.begin(), cs.end(), "const iteration");
    visit(s.cbegin(), s.cend(), "cbegin iteration");
}

template <typename K, std::size_t N> void history(Ctx &c) {
    using S = stdx::cx_set<K, N>;
    int const dom = static_cast<int>(N) + 3;
    S s{};
    std::set<K> r;
    auto key = [&] { return val<K>(c, dom); };
    if (c.chance(1, 3)) {
        std::vector<K> x;
        auto const k = c.choose(std::min<std::size_t>(N, 4) + 1);
        for (std::size_t i = 0; i < k; ++i) {
            x.push_back(key());
            r.insert(x.back());
        }
        c.note("construct %s", str_all(x).c_str());
        if (r.size() < x.size()) {
            LABEL(c, "constructed from repeated values");
        }
        if (k == 1) {
            s = S{x[0]};
        }
        if constexpr (N >= 2) {
            if (k == 2) {
                s = S{x[0], x[1]};
            }
        }
        if constexpr (N >= 3) {
            if (k == 3) {
                s = S{x[0], x[1], x[2]};
            }
        }
        if constexpr (N >= 4) {
            if (k == 4) {
                s = S{x[0], x[1], x[2], x[3]};
            }
        }
        same(s, r, dom);
    }
    std::size_t n = 0;
    if constexpr (N > 64) {
        auto const k = static_cast<int>(c.size(N));
        c.note("with %d values", k);
        for (int i = 0; i < k; ++i) {
            if (auto const e = make<K>(i); r.contains(e) or r.size() < N) {
                REQ_EQ(s.insert(e), r.insert(e).second, "insertion result");
            }
        }
    }
    while (n < max_steps<N> and c.more(16)) {
        ++n;
        switch (c.weighted({9, 5, 2, 1, 4, 1, 2})) {
        case 0: {
            auto k = key();
            if (r.size() == N and not r.contains(k)) {
                break;
            }
            auto const how = c.choose(3);
            c.note("insert %s (%d)", str(k).c_str(), int(how));
            bool const fresh = r.insert(k).second;
            bool added = false;
            if (how == 0) {
                added = s.insert(k);
            } else if (how == 1) {
                added = s.insert(std::move(k));
            } else if (not fresh) { // a reference to its own element
                for (auto const &e : s) {
                    if (e == k) {
                        added = s.insert(e);
                        break;
                    }
                }
            } else {
                added = s.insert(k);
            }
            REQ_EQ(added, fresh, "insertion result");
            break;
        }
        case 1: {
            auto const k = key();
            c.note("erase %s", str(k).c_str());
            REQ_EQ(s.erase(k), r.erase(k), "erasure result");
            break;
        }
        case 2: {
            if (r.empty()) {
                break;
            }
            c.note("pop_back");
            auto const k = s.pop_back();
            REQ(r.erase(k) == 1, "popped %s was a member", str(k).c_str());
            break;
        }
        case 3:
            c.note("clear");
            s.clear();
            r.clear();
            break;
        case 4: { // merge whatever still fits, from several kinds of range
            auto const how = c.choose(4);
            std::vector<K> x;
            std::set<K> u = r;
            auto const k = c.size(4);
            for (std::size_t i = 0; i < k; ++i) {
                auto const e = key();
                auto t = u;
                t.insert(e);
                if (t.size() <= N) {
                    u = t;
                    x.push_back(e);
                }
            }
            c.note("merge %s (%d)", str_all(x).c_str(), int(how));
            if (how == 0) {
                stdx::cx_set<K, 4> o{};
                for (auto const &e : x) {
                    o.insert(e);
                }
                s.merge(o);
                REQ_EQ(o.size(), std::set<K>(x.begin(), x.end()).size(),
                       "the merged set keeps its elements");
            } else if (how == 1) {
                s.merge(x);
            } else if (how == 2) {
                stdx::cx_vector<K, 4> o{};
                for (auto const &e : x) {
                    o.push_back(e);
                }
                s.merge(o);
            } else {
                s.merge(s);
                x.clear();
                u = r;
            }
            r = u;
            LABEL(c, "merge");
            break;
        }
        case 5: {
            c.note("copy and replace");
            S k{s};
            s.clear();
            s = k;
            break;
        }
        default: {
            if (r.empty()) {
                break;
            }
            auto const i = static_cast<long>(c.choose(r.size()));
            auto const k = *(s.begin() + i);
            c.note("erase own element %s", str(k).c_str());
            REQ_EQ(s.erase(*(s.begin() + i)), 1u, "erasure result");
            r.erase(k);
        }
        }
        same(s, r, dom);
    }
    c.nontrivial(n >= 3 and not r.empty());
}
REG("int 270", 1, rarely<history<int, 270>, history<int, 7>>);
REG("int 1", 1, history<int, 1>);
REG("int 5", 2, history<int, 5>);
REG("u8 12", 1, history<std::uint8_t, 12>);
REG("string 4", 1, history<std::string, 4>);
REG("Big 3", 1, history<Big, 3>);
REG("Color 6", 1, history<Color, 6>);
PROPERTY("deduction", 1) {
    auto const a = c.range(0, 3), b = c.range(0, 3), d = c.range(0, 3);
    stdx::cx_set s{a, b, d};
    static_assert(std::is_same_v<decltype(s), stdx::cx_set<int, 3>>);
    std::set<int> r{a, b, d};
    same(s, r, 5);
    c.nontrivial();
}

// keys that can be moved but not copied
struct own {
    std::unique_ptr<int> p{};
    friend bool operator==(own const &a, own const &b) {
        return (a.p ? *a.p : -1) == (b.p ? *b.p : -1);
    }
};
void moved(Ctx &c) {
    stdx::cx_set<own, 6> s;
    std::set<int> r;
    for (int n = c.range(0, 12); n > 0 and r.size() < 6; --n) {
        auto const k = c.range(0, 9);
        auto key = own{std::make_unique<int>(k)};
        auto const *at = key.p.get();
        c.note("insert %d", k);
        auto const added = s.insert(std::move(key));
        REQ_EQ(added, r.insert(k).second, "inserted a moved key");
        REQ_EQ(s.size(), r.size(), "size");
        std::set<int> seen;
        bool here = false;
        for (auto const &x : s) {
            REQ(x.p != nullptr and seen.insert(*x.p).second, "keys differ");
            here = here or x.p.get() == at;
        }
        REQ(seen == r, "keys");
        REQ(here == added, "the key itself is in the set");
    }
    for (int k = 0; k < 10; ++k) {
        REQ(s.contains(own{std::make_unique<int>(k)}) == r.contains(k),
            "contains %d", k);
    }
    c.nontrivial(r.size() >= 2);
}
REG("move only", 1, moved);

// capacities at the limits of narrow integers, filled to the last element
template <std::size_t N> void brim(Ctx &c) {
    auto s = std::make_unique<stdx::cx_set<int, N>>();
    auto const step = c.pick({1, -1, 7, 1001});
    c.note("%zu elements in steps of %d", N, step);
    auto const key = [&](std::size_t i) { return static_cast<int>(i) * step; };
    for (std::size_t i = 0; i < N; ++i) {
        REQ_EQ(s->size(), i, "size while filling");
        REQ(not s->contains(key(i)), "not there yet");
        REQ_EQ(s->insert(key(i)), true, "added");
    }
    REQ_EQ(s->size(), N, "size");
    for (std::size_t i = 0; i < N; ++i) {
        REQ(s->contains(key(i)), "element %zu", i);
        REQ_EQ(s->insert(key(i)), false, "added again");
    }
    auto const back = c.flip();
    for (std::size_t k = 0; k < N; ++k) {
        auto const i = back ? N - 1 - k : k;
        REQ_EQ(s->erase(key(i)), 1u, "erased");
        REQ_EQ(s->size(), N - 1 - k, "size while emptying");
    }
    REQ(s->empty(), "empty again");
    c.nontrivial();
}
REG("brim 255", 1, rarely<brim<255>, history<int, 3>>);
REG("brim 256", 1, rarely<brim<256>, history<int, 4>>);
} // namespace
