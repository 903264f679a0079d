#include "lists.hpp"
using namespace lists;
namespace {
template <typename N, template <typename> typename P> void history(Ctx &c) {
    using L = stdx::intrusive_forward_list<N, P>;
    constexpr bool checked =
        std::is_same_v<P<N>, stdx::node_policy::checked<N>>;
    int const K = 6;
    pool<N> p{K};
    L ls[2];
    std::vector<int> ms[2];
    std::vector<int> free_;
    for (int i = 0; i < K; ++i) {
        free_.push_back(i);
    }
    std::size_t n = 0, pops = 0;
    while (n < 60 and c.more(18)) {
        ++n;
        auto const w = c.choose(2);
        auto &l = ls[w];
        auto &m = ms[w];
        switch (c.weighted({5, 5, 5, 1, 1})) {
        case 0:
        case 1: {
            if (free_.empty()) {
                break;
            }
            auto const at = c.choose(free_.size());
            auto const x = free_[at];
            free_.erase(free_.begin() + static_cast<long>(at));
            if (c.flip()) {
                c.note("l%d push_front %d", int(w), x);
                l.push_front(p[x]);
                m.insert(m.begin(), x);
            } else {
                c.note("l%d push_back %d", int(w), x);
                l.push_back(p[x]);
                m.push_back(x);
            }
            break;
        }
        case 2:
            if (not m.empty()) {
                c.note("l%d pop_front", int(w));
                REQ(l.pop_front() == p[m.front()], "pop_front, expected %d",
                    m.front());
                free_.push_back(m.front());
                m.erase(m.begin());
                ++pops;
            }
            break;
        case 3:
            c.note("l%d clear", int(w));
            l.clear();
            free_.insert(free_.end(), m.begin(), m.end());
            m.clear();
            break;
        default:
            c.note("exchange lists");
            std::swap(ls[0], ls[1]);
            std::swap(ms[0], ms[1]);
        }
        same(ls[0], ms[0], p);
        same(ls[1], ms[1], p);
        if (checked) {
            for (auto i : free_) {
                REQ(clear_links(p[i]), "node %d is out but still linked", i);
            }
        }
    }
    c.nontrivial(n >= 4 and pops >= 1 and ms[0].size() + ms[1].size() >= 1);
}
REG("checked", 2, history<snode, stdx::node_policy::checked>);
REG("unchecked", 2, history<snode, stdx::node_policy::unchecked>);
// doubly linkable nodes work in a forward list too
REG("unchecked double", 1, history<dnode, stdx::node_policy::unchecked>);
REG("checked double", 1, history<dnode, stdx::node_policy::checked>);
} // namespace
