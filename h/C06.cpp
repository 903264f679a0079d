#include "lists.hpp"
using namespace lists;
namespace {
template <typename N, template <typename> typename P> void history(Ctx &c) {
    using L = stdx::intrusive_list<N, P>;
    constexpr bool checked =
        std::is_same_v<P<N>, stdx::node_policy::checked<N>>;
    int const K = 7;
    pool<N> p{K};
    L ls[2];
    std::vector<int> ms[2];
    std::vector<int> home(K, -1);
    std::size_t n = 0, inserts = 0, removes = 0;
    auto free_node = [&](int &out) {
        std::vector<int> f;
        for (int i = 0; i < K; ++i) {
            if (home[static_cast<std::size_t>(i)] < 0) {
                f.push_back(i);
            }
        }
        if (f.empty()) {
            return false;
        }
        out = c.of(f);
        return true;
    };
    while (n < 70 and c.more(20)) {
        ++n;
        auto const w = c.choose(2);
        auto &l = ls[w];
        auto &m = ms[w];
        int x{};
        auto take_home = [&](int i, int h) {
            home[static_cast<std::size_t>(i)] = h;
        };
        switch (c.weighted({4, 4, 5, 3, 3, 5, 1, 1})) {
        case 0:
            if (free_node(x)) {
                c.note("l%d push_front %d", int(w), x);
                l.push_front(p[x]);
                m.insert(m.begin(), x);
                take_home(x, int(w));
            }
            break;
        case 1:
            if (free_node(x)) {
                c.note("l%d push_back %d", int(w), x);
                l.push_back(p[x]);
                m.push_back(x);
                take_home(x, int(w));
            }
            break;
        case 2:
            if (free_node(x)) {
                auto const k = c.choose(m.size() + 1);
                c.note("l%d insert %d before position %zu of %zu", int(w), x, k,
                       m.size());
                auto it = l.begin();
                for (std::size_t i = 0; i < k; ++i) {
                    ++it;
                }
                l.insert(it, p[x]);
                m.insert(m.begin() + static_cast<long>(k), x);
                take_home(x, int(w));
                ++inserts;
                if (k == m.size() - 1) {
                    LABEL(c, "insertion at end");
                }
            }
            break;
        case 3:
            if (not m.empty()) {
                c.note("l%d pop_front", int(w));
                REQ(l.pop_front() == p[m.front()], "pop_front, expected %d",
                    m.front());
                take_home(m.front(), -1);
                m.erase(m.begin());
            }
            break;
        case 4:
            if (not m.empty()) {
                c.note("l%d pop_back", int(w));
                REQ(l.pop_back() == p[m.back()], "pop_back, expected %d",
                    m.back());
                take_home(m.back(), -1);
                m.pop_back();
            }
            break;
        case 5:
            if (not m.empty()) {
                auto const k = c.choose(m.size());
                c.note("l%d remove %d", int(w), m[k]);
                l.remove(p[m[k]]);
                take_home(m[k], -1);
                m.erase(m.begin() + static_cast<long>(k));
                ++removes;
            }
            break;
        case 6:
            c.note("l%d clear", int(w));
            l.clear();
            for (auto i : m) {
                take_home(i, -1);
            }
            m.clear();
            break;
        default: // move the handle: the list object itself is just two ends
            c.note("exchange lists");
            std::swap(ls[0], ls[1]);
            std::swap(ms[0], ms[1]);
            for (auto &h : home) {
                h = h < 0 ? h : 1 - h;
            }
        }
        same(ls[0], ms[0], p);
        same(ls[1], ms[1], p);
        if (checked) {
            for (int i = 0; i < K; ++i) {
                if (home[static_cast<std::size_t>(i)] < 0) {
                    REQ(clear_links(p[i]), "node %d is out but still linked", i);
                }
            }
        }
    }
    c.nontrivial(n >= 4 and (inserts + removes) >= 1 and
                 ms[0].size() + ms[1].size() >= 2);
}
REG("checked", 2, history<dnode, stdx::node_policy::checked>);
REG("unchecked", 2, history<dnode, stdx::node_policy::unchecked>);
REG("checked fat", 1, history<fat, stdx::node_policy::checked>);
REG("unchecked fat", 1, history<fat, stdx::node_policy::unchecked>);
} // namespace
