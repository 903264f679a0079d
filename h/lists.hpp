#pragma once
#include "panic_throws.hpp"
#include <array>
#include <memory>
#include <pbt.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <vector>

namespace lists {
using namespace pbt;
struct dnode {
    dnode *prev{};
    dnode *next{};
    int id{};
};
struct fat { // links not at the front, other members around them
    int a{};
    fat *next{};
    int id{};
    fat *prev{};
    int z{};
};
struct snode {
    snode *next{};
    int id{};
};
template <typename N>
concept doubly = requires(N n) { n.prev; };

// every node separately on the heap, so that stray accesses are seen
template <typename N> struct pool {
    std::vector<std::unique_ptr<N>> v;
    explicit pool(int n) {
        for (int i = 0; i < n; ++i) {
            v.push_back(std::make_unique<N>());
            v.back()->id = i;
        }
    }
    N *operator[](int i) { return v[static_cast<std::size_t>(i)].get(); }
    int size() const { return static_cast<int>(v.size()); }
};
inline std::string ids(std::vector<int> const &v) {
    std::string s = "[";
    for (auto i : v) {
        s += std::to_string(i) + " ";
    }
    return s + "]";
}
template <typename L, typename N>
void same(L &l, std::vector<int> const &m, pool<N> &p) {
    auto const &cl = l;
    REQ_EQ(l.empty(), m.empty(), "empty");
    auto walk = [&](auto f, auto e, char const *what) {
        std::size_t k = 0;
        for (; f != e; ++f, ++k) {
            REQ(k < m.size(), "%s goes past the end of %s", what,
                ids(m).c_str());
            REQ(&*f == p[m[k]], "%s: position %zu is node %d, expected %s", what,
                k, f->id, ids(m).c_str());
        }
        REQ(k == m.size(), "%s stops after %zu of %s", what, k, ids(m).c_str());
    };
    walk(l.begin(), l.end(), "traversal");
    walk(cl.begin(), cl.end(), "const traversal");
    walk(l.cbegin(), l.cend(), "cbegin traversal");
    if (not m.empty()) {
        auto it = l.begin();
        auto const was = it++;
        REQ(&*was == p[m[0]], "post-increment returns the old position");
        REQ((it == l.end()) == (m.size() == 1), "post-increment moves on");
        REQ(&l.front() == p[m.front()] and &cl.front() == p[m.front()],
            "front, expected node %d", m.front());
        REQ(&l.back() == p[m.back()] and &cl.back() == p[m.back()],
            "back, expected node %d", m.back());
        if constexpr (requires { l.remove(p[0]); }) {
            auto *n = &l.back();
            for (auto k = m.size(); k-- > 0;) {
                REQ(n == p[m[k]], "backward traversal at %zu of %s", k,
                    ids(m).c_str());
                n = n->prev;
            }
            REQ(n == nullptr, "backward traversal ends");
        }
    }
}
template <typename N> bool clear_links(N *n) {
    if constexpr (doubly<N>) {
        return n->prev == nullptr and n->next == nullptr;
    } else {
        return n->next == nullptr;
    }
}
} // namespace lists
