#include "containers.hpp"
#include <stdx/cx_map.hpp>
#include <stdx/iterator.hpp>
using namespace cont;
namespace {
template <typename K, typename V, std::size_t N>
void same(stdx::cx_map<K, V, N> &m, std::map<K, V> const &r, int dom) {
    using M = stdx::cx_map<K, V, N>;
    auto const &cm = m;
    static_assert(M::capacity() == N and stdx::ct_capacity_v<M> == N);
    REQ_EQ(m.size(), r.size(), "size");
    REQ_EQ(m.empty(), r.empty(), "empty");
    REQ_EQ(m.full(), r.size() == N, "full");
    for (int i = 0; i < dom; ++i) {
        auto const k = make<K>(i);
        auto const it = r.find(k);
        REQ(cm.contains(k) == (it != r.end()), "contains %s", str(k).c_str());
        if (it != r.end()) {
            REQ(m.get(k) == it->second and cm.get(k) == it->second,
                "value for %s is %s, expected %s", str(k).c_str(),
                str(cm.get(k)).c_str(), str(it->second).c_str());
            REQ(&m.get(k) == &cm.get(k), "one address per value");
        }
    }
    auto visit = [&](auto f, auto l, char const *what) {
        std::set<K> seen;
        std::size_t n = 0;
        for (; f != l; ++f) {
            ++n;
            REQ(n <= r.size(), "%s visits too many entries", what);
            auto const it = r.find(f->key);
            REQ(it != r.end(), "%s visits the absent key %s", what,
                str(f->key).c_str());
            REQ(it->second == f->value, "%s value for %s", what,
                str(f->key).c_str());
            REQ(seen.insert(f->key).second, "%s visits %s twice", what,
                str(f->key).c_str());
        }
        REQ(n == r.size(), "%s visits too few entries", what);
    };
    visit(m.begin(), m.end(), "iteration");
    visit(cm.begin(), cm.end(), "const iteration");
    visit(m.cbegin(), m.cend(), "cbegin iteration");
}

template <typename K, typename V, std::size_t N> void history(Ctx &c) {
    using M = stdx::cx_map<K, V, N>;
    using E = typename M::value_type;
    int const dom = static_cast<int>(N) + 3;
    M m{};
    std::map<K, V> r;
    auto key = [&] { return val<K>(c, dom); };
    if (c.chance(1, 3)) { // constructed, possibly with repeated keys
        std::vector<E> es;
        auto const k = c.choose(std::min<std::size_t>(N, 4) + 1);
        for (std::size_t i = 0; i < k; ++i) {
            es.push_back(E{key(), val<V>(c)});
            c.note("with %s -> %s", str(es.back().key).c_str(),
                   str(es.back().value).c_str());
            r.insert({es.back().key, es.back().value});
        }
        if (r.size() < es.size()) {
            LABEL(c, "constructed from repeated keys");
        }
        if (k == 1) {
            m = M{es[0]};
        }
        if constexpr (N >= 2) {
            if (k == 2) {
                m = M{es[0], es[1]};
            }
        }
        if constexpr (N >= 3) {
            if (k == 3) {
                m = M{es[0], es[1], es[2]};
            }
        }
        if constexpr (N >= 4) {
            if (k == 4) {
                m = M{es[0], es[1], es[2], es[3]};
            }
        }
        same(m, r, dom);
    }
    std::size_t n = 0;
    bool erased = false;
    if constexpr (N > 64) {
        auto const k = c.size(N);
        c.note("with the first %zu keys", k);
        for (std::size_t i = 0; i < k; ++i) {
            auto const e = make<K>(static_cast<int>(i));
            if (r.contains(e) or r.size() < N) {
                r[e] = make<V>(static_cast<int>(i % 100));
                m.put(e, r[e]);
            }
        }
    }
    while (n < max_steps<N> and c.more(16)) {
        ++n;
        switch (c.weighted({9, 5, 2, 1, 3, 1, 2, 1})) {
        case 0: {
            auto const k = key();
            auto const v = val<V>(c);
            if (r.size() == N and not r.contains(k)) {
                break;
            }
            auto const put = c.flip();
            c.note("%s %s -> %s", put ? "put" : "insert_or_assign",
                   str(k).c_str(), str(v).c_str());
            bool const added = put ? m.put(k, v) : m.insert_or_assign(k, v);
            REQ_EQ(added, not r.contains(k), "insertion result");
            r[k] = v;
            if (erased) {
                LABEL(c, "insertion after an erasure");
            }
            break;
        }
        case 1: {
            auto const k = key();
            c.note("erase %s", str(k).c_str());
            auto const got = m.erase(k);
            REQ_EQ(got, r.erase(k), "erasure result");
            erased = true;
            break;
        }
        case 2: {
            if (r.empty()) {
                break;
            }
            c.note("pop_back");
            auto const e = m.pop_back();
            REQ(r.contains(e.key) and r[e.key] == e.value,
                "popped entry %s was present", str(e.key).c_str());
            r.erase(e.key);
            break;
        }
        case 3:
            c.note("clear");
            m.clear();
            r.clear();
            break;
        case 4: {
            if (r.empty()) {
                break;
            }
            auto it = r.begin();
            std::advance(it, static_cast<long>(c.choose(r.size())));
            auto const v = val<V>(c);
            c.note("get(%s) = %s", str(it->first).c_str(), str(v).c_str());
            m.get(it->first) = v;
            it->second = v;
            break;
        }
        case 5: {
            c.note("copy and replace");
            M k{m};
            m.clear();
            m = k;
            break;
        }
        case 6: { // erase an entry named by a reference into the map
            if (r.empty()) {
                break;
            }
            auto const i = static_cast<long>(c.choose(r.size()));
            auto const k = (m.begin() + i)->key;
            c.note("erase by own key %s", str(k).c_str());
            REQ_EQ(m.erase((m.begin() + i)->key), 1u, "erasure result");
            r.erase(k);
            erased = true;
            break;
        }
        default: { // reassign with its own value
            if (r.empty()) {
                break;
            }
            auto const k = r.begin()->first;
            c.note("reassign %s to itself", str(k).c_str());
            REQ_EQ(m.insert_or_assign(k, m.get(k)), false, "insertion result");
        }
        }
        same(m, r, dom);
    }
    c.nontrivial(n >= 3 and not r.empty());
}
REG("int int 270", 1,
    rarely<history<int, int, 270>, history<int, int, 6>>);
REG("int int 1", 1, history<int, int, 1>);
REG("int int 4", 2, history<int, int, 4>);
REG("u8 string 7", 1, history<std::uint8_t, std::string, 7>);
REG("string int 3", 1, history<std::string, int, 3>);
REG("Color Big 5", 1, history<Color, Big, 5>);
REG("Big int 2", 1, history<Big, int, 2>);

// capacities at the limits of narrow integers, filled to the last entry
template <std::size_t N> void brim(Ctx &c) {
    auto m = std::make_unique<stdx::cx_map<int, std::size_t, N>>();
    auto const step = c.pick({1, -1, 7, 1001});
    c.note("%zu keys in steps of %d", N, step);
    auto const key = [&](std::size_t i) { return static_cast<int>(i) * step; };
    for (std::size_t i = 0; i < N; ++i) {
        REQ_EQ(m->size(), i, "size while filling");
        REQ(not m->full() and not m->contains(key(i)), "not full yet");
        REQ_EQ(m->insert_or_assign(key(i), i), true, "added");
    }
    REQ(m->full() and not m->empty(), "full");
    REQ_EQ(m->size(), N, "size");
    for (std::size_t i = 0; i < N; ++i) {
        REQ_EQ(m->get(key(i)), i, "value");
    }
    auto const back = c.flip();
    for (std::size_t k = 0; k < N; ++k) {
        auto const i = back ? N - 1 - k : k;
        REQ_EQ(m->erase(key(i)), 1u, "erased");
        REQ_EQ(m->size(), N - 1 - k, "size while emptying");
    }
    REQ(m->empty(), "empty again");
    c.nontrivial();
}
REG("brim 255", 1, rarely<brim<255>, history<int, int, 3>>);
REG("brim 256", 1, rarely<brim<256>, history<int, int, 5>>);
} // namespace
