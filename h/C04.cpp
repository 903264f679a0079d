#include "containers.hpp"
#include <stdx/cx_multimap.hpp>
#include <stdx/iterator.hpp>
using namespace cont;
namespace {
template <typename K, typename V, std::size_t N, std::size_t M>
void same(stdx::cx_multimap<K, V, N, M> &m,
          std::map<K, std::set<V>> const &r, int kd, int vd) {
    using X = stdx::cx_multimap<K, V, N, M>;
    auto const &cm = m;
    static_assert(X::capacity() == N and stdx::ct_capacity_v<X> == N);
    REQ_EQ(m.size(), r.size(), "number of keys");
    REQ_EQ(m.empty(), r.empty(), "empty");
    for (int i = 0; i < kd; ++i) {
        auto const k = make<K>(i);
        auto const it = r.find(k);
        REQ(cm.contains(k) == (it != r.end()), "contains key %s",
            str(k).c_str());
        for (int j = 0; j < vd; ++j) {
            auto const v = make<V>(j);
            REQ(cm.contains(k, v) == (it != r.end() and it->second.contains(v)),
                "contains pair %s %s", str(k).c_str(), str(v).c_str());
        }
        if (it != r.end()) {
            REQ(cm.get(k).size() == it->second.size() and
                    m.get(k).size() == it->second.size(),
                "number of values of %s", str(k).c_str());
            for (auto const &v : cm.get(k)) {
                REQ(it->second.contains(v), "value %s of %s", str(v).c_str(),
                    str(k).c_str());
            }
        }
    }
    auto visit = [&](auto f, auto l, char const *what) {
        std::set<K> seen;
        for (; f != l; ++f) {
            auto const it = r.find(f->key);
            REQ(it != r.end(), "%s visits the absent key %s", what,
                str(f->key).c_str());
            REQ(seen.insert(f->key).second, "%s visits %s twice", what,
                str(f->key).c_str());
            REQ(f->value.size() == it->second.size(), "%s values of %s", what,
                str(f->key).c_str());
        }
        REQ(seen.size() == r.size(), "%s visits too few keys", what);
    };
    visit(m.begin(), m.end(), "iteration");
    visit(cm.begin(), cm.end(), "const iteration");
    visit(m.cbegin(), m.cend(), "cbegin iteration");
}

template <typename K, typename V, std::size_t N, std::size_t M>
void history(Ctx &c) {
    using X = stdx::cx_multimap<K, V, N, M>;
    int const kd = static_cast<int>(N) + 2, vd = static_cast<int>(M) + 2;
    X m{};
    std::map<K, std::set<V>> r;
    std::size_t n = 0;
    if constexpr (N > 64 or M > 64) {
        auto const ks = static_cast<int>(c.size(N)),
                   vs = static_cast<int>(c.size(M - 1)) + 1;
        c.note("with %d keys of %d values", ks, vs);
        for (int i = 0; i < ks; ++i) {
            for (int j = 0; j < vs; ++j) {
                m.insert(make<K>(i), make<V>(j));
                r[make<K>(i)].insert(make<V>(j));
            }
        }
    }
    while (n < (N > 64 or M > 64 ? 5u : 60u) and c.more(18)) {
        ++n;
        auto const k = val<K>(c, kd);
        auto const v = val<V>(c, vd);
        bool const has = r.contains(k);
        bool const room = has or r.size() < N;
        switch (c.weighted({10, 3, 3, 6, 1, 1, 2})) {
        case 0: {
            if (not room or (has and r[k].size() == M and not r[k].contains(v))) {
                break;
            }
            auto const put = c.flip();
            c.note("%s %s %s", put ? "put" : "insert", str(k).c_str(),
                   str(v).c_str());
            if (put) {
                m.put(k, v);
            } else {
                m.insert(k, v);
            }
            r[k].insert(v);
            break;
        }
        case 1: {
            if (not room) {
                break;
            }
            auto const put = c.flip();
            c.note("%s key %s", put ? "put" : "insert", str(k).c_str());
            if (put) {
                m.put(k);
            } else {
                m.insert(k);
            }
            r[k];
            if (has) {
                LABEL(c, "key inserted again");
            }
            break;
        }
        case 2:
            c.note("erase key %s", str(k).c_str());
            REQ_EQ(m.erase(k), r.erase(k), "key erasure result");
            break;
        case 3: {
            // erasing an absent value from a key without values is not
            // specified; every other case is
            if (has and r[k].empty()) {
                break;
            }
            c.note("erase %s %s", str(k).c_str(), str(v).c_str());
            std::size_t want = 0;
            if (has) {
                want = r[k].erase(v);
                if (r[k].empty()) {
                    r.erase(k);
                    LABEL(c, "last value of a key erased");
                }
            }
            REQ_EQ(m.erase(k, v), want, "pair erasure result");
            break;
        }
        case 4:
            c.note("clear");
            m.clear();
            r.clear();
            break;
        case 5: {
            c.note("copy and replace");
            X x{m};
            m.clear();
            m = x;
            break;
        }
        default: { // change a value set in place
            if (not has or (r[k].size() == M and not r[k].contains(v))) {
                break;
            }
            c.note("get(%s).insert %s", str(k).c_str(), str(v).c_str());
            REQ_EQ(m.get(k).insert(v), r[k].insert(v).second,
                   "insertion into a value set");
        }
        }
        same(m, r, kd, vd);
    }
    c.nontrivial(n >= 3 and not r.empty());
}
REG("int int 270 2", 1,
    rarely<history<int, int, 270, 2>, history<int, int, 6, 2>>);
REG("int int 2 270", 1,
    rarely<history<int, int, 2, 270>, history<int, int, 2, 6>>);
REG("int int 3", 2, history<int, int, 3, 3>);
REG("int int 1 4", 1, history<int, int, 1, 4>);
REG("string int 4 2", 1, history<std::string, int, 4, 2>);
REG("Color Big 3 3", 1, history<Color, Big, 3, 3>);
REG("int string 5 1", 1, history<int, std::string, 5, 1>);

// capacities at the limits of narrow integers, filled to the last entry
template <std::size_t N, std::size_t M> void brim(Ctx &c) {
    auto m = std::make_unique<stdx::cx_multimap<int, int, N, M>>();
    auto const step = c.pick({1, -1, 7, 1001});
    c.note("%zu keys of %zu values in steps of %d", N, M, step);
    for (std::size_t i = 0; i < N; ++i) {
        REQ_EQ(m->size(), i, "size while filling");
        for (std::size_t j = 0; j < M; ++j) {
            m->insert(static_cast<int>(i) * step, static_cast<int>(j) * step);
        }
    }
    REQ(not m->empty(), "not empty");
    REQ_EQ(m->size(), N, "size");
    for (std::size_t i = 0; i < N; ++i) {
        auto const k = static_cast<int>(i) * step;
        REQ_EQ(m->get(k).size(), M, "values of a key");
        for (std::size_t j = 0; j < M; ++j) {
            REQ(m->contains(k, static_cast<int>(j) * step), "pair");
        }
    }
    for (std::size_t i = 0; i < N; ++i) {
        REQ_EQ(m->erase(static_cast<int>(i) * step), 1u, "erased");
        REQ_EQ(m->size(), N - 1 - i, "size while emptying");
    }
    REQ(m->empty(), "empty again");
    c.nontrivial();
}
REG("brim 256 1", 1, rarely<brim<256, 1>, history<int, int, 2, 2>>);
REG("brim 2 256", 1, rarely<brim<2, 256>, history<int, int, 3, 2>>);
} // namespace
