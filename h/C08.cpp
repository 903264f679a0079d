#include "lists.hpp"
using namespace lists;
using verif_panic::panicked;
namespace {
// A history over two lists in which a push may offer any node: clear, linked
// in this list, linked in the other list, or with a stale link field. The
// checked policy must panic exactly when a link field is not clear. The history
// ends at the first panic.
template <typename N, template <typename, template <typename> typename> typename L_,
          template <typename> typename P>
void history(Ctx &c) {
    using L = L_<N, P>;
    constexpr bool checked =
        std::is_same_v<P<N>, stdx::node_policy::checked<N>>;
    constexpr bool two_way = requires(L l, N *p) { l.remove(p); };
    int const K = 6;
    pool<N> p{K};
    pool<N> stale{2};
    L ls[2];
    std::vector<int> ms[2];
    std::vector<int> home(K, -1);
    auto H = [&](int i) -> int & { return home[static_cast<std::size_t>(i)]; };
    std::size_t n = 0, pushes = 0;
    bool hit = false;
    while (n < 50 and not hit and c.more(16)) {
        ++n;
        auto const w = c.choose(2);
        auto &l = ls[w];
        auto &m = ms[w];
        auto const op = c.weighted({6, 6, two_way ? 5u : 0u, 4,
                                    two_way ? 3u : 0u, two_way ? 4u : 0u, 1, 2});
        if (op <= 2) {
            int x = c.range(0, K - 1);
            if (H(x) >= 0) {
                // offering a linked node is only detectable by its links, and
                // only the checked policy is defined for it
                if (not checked or clear_links(p[x])) {
                    continue;
                }
            }
            bool const must = not clear_links(p[x]);
            auto const k = op == 2 ? c.choose(m.size() + 1) : 0;
            c.note("l%d %s %d (%s)", int(w),
                   op == 0   ? "push_front"
                   : op == 1 ? "push_back"
                             : "insert",
                   x, must ? "links not clear" : "clear");
            try {
                if (op == 0) {
                    l.push_front(p[x]);
                } else if (op == 1) {
                    l.push_back(p[x]);
                } else if constexpr (two_way) {
                    auto it = l.begin();
                    for (std::size_t i = 0; i < k; ++i) {
                        ++it;
                    }
                    l.insert(it, p[x]);
                }
            } catch (panicked const &) {
                hit = true;
            }
            if (checked) {
                REQ(hit == must, "panic %s for a node whose links are %s",
                    hit ? "raised" : "missing", must ? "set" : "clear");
            } else {
                REQ(not hit, "the unchecked form panicked");
            }
            if (hit) {
                LABEL(c, "panicked");
                break;
            }
            if (H(x) < 0) {
                H(x) = int(w);
            }
            if (op == 0) {
                m.insert(m.begin(), x);
            } else if (op == 1) {
                m.push_back(x);
            } else {
                m.insert(m.begin() + static_cast<long>(k), x);
            }
            ++pushes;
        } else if (op == 3 and not m.empty()) {
            c.note("l%d pop_front", int(w));
            auto *q = l.pop_front();
            H(m.front()) = -1;
            m.erase(m.begin());
            if (checked) {
                REQ(clear_links(q), "popped node %d keeps links", q->id);
            }
        } else if (op == 4 and not m.empty()) {
            if constexpr (two_way) {
                c.note("l%d pop_back", int(w));
                auto *q = l.pop_back();
                H(m.back()) = -1;
                m.pop_back();
                if (checked) {
                    REQ(clear_links(q), "popped node %d keeps links", q->id);
                }
            }
        } else if (op == 5 and not m.empty()) {
            if constexpr (two_way) {
                auto const k = c.choose(m.size());
                auto const x = m[k];
                c.note("l%d remove %d", int(w), x);
                l.remove(p[x]);
                H(x) = -1;
                m.erase(m.begin() + static_cast<long>(k));
                if (checked) {
                    REQ(clear_links(p[x]), "removed node %d keeps links", x);
                }
            }
        } else if (op == 6) {
            c.note("l%d clear", int(w));
            l.clear();
            for (auto x : m) {
                H(x) = -1;
                if (checked) {
                    REQ(clear_links(p[x]), "cleared node %d keeps links", x);
                }
            }
            m.clear();
        } else if (op == 7) { // a free node with stale link fields
            int const x = c.range(0, K - 1);
            if (H(x) < 0) {
                auto const which = c.range(1, doubly<N> ? 3 : 1);
                c.note("node %d gets stale links %d", x, which);
                if (which & 1) {
                    p[x]->next = stale[0];
                }
                if constexpr (doubly<N>) {
                    if (which & 2) {
                        p[x]->prev = stale[1];
                    }
                }
            }
        }
        same(ls[0], ms[0], p);
        same(ls[1], ms[1], p);
    }
    for (int i = 0; i < 2; ++i) {
        REQ(clear_links(stale[i]), "a stale neighbour was written to");
    }
    c.nontrivial(pushes >= 2 and n >= 3);
}
template <typename N, template <typename> typename P>
using dl = stdx::intrusive_list<N, P>;
template <typename N, template <typename> typename P>
using sl = stdx::intrusive_forward_list<N, P>;
REG("list checked", 3, history<dnode, dl, stdx::node_policy::checked>);
REG("list unchecked", 1, history<dnode, dl, stdx::node_policy::unchecked>);
REG("list checked fat", 1, history<fat, dl, stdx::node_policy::checked>);
REG("forward checked", 3, history<snode, sl, stdx::node_policy::checked>);
REG("forward unchecked", 1, history<snode, sl, stdx::node_policy::unchecked>);
REG("forward checked double", 1, history<dnode, sl, stdx::node_policy::checked>);

// the default policy is the checked one
static_assert(std::is_same_v<stdx::intrusive_list<dnode>,
                             dl<dnode, stdx::node_policy::checked>>);
static_assert(std::is_same_v<stdx::intrusive_forward_list<snode>,
                             sl<snode, stdx::node_policy::checked>>);
} // namespace
