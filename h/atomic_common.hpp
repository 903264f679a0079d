#pragma once
#include <conc/atomic.hpp>
#include <pbt.hpp>

#include <cstring>
#include <vector>

namespace at {
using namespace pbt;
using order = std::memory_order;

// Watches the accesses one operation makes. Before each of them another
// thread may have changed the value: whether and how is drawn from the tape.
struct watcher : conc_hook::listener {
    Ctx &c;
    u64 (*interfere)(Ctx &, u64);
    void *addr{};
    std::size_t size{};
    u64 value_mask;
    std::vector<u64> seen;
    std::vector<order> orders;
    int writes{};
    u64 before_write{};
    unsigned interferences{};

    watcher(Ctx &ctx, u64 (*f)(Ctx &, u64), u64 mask)
        : c{ctx}, interfere{f}, value_mask{mask} {
        conc_hook::current = this;
    }
    watcher(watcher const &) = delete;
    ~watcher() override { conc_hook::current = nullptr; }

    u64 raw() const {
        u64 v = 0;
        std::memcpy(&v, addr, size);
        return v;
    }
    void before(conc_hook::kind k, order mo, void *p, std::size_t n) override {
        if (addr) {
            REQ(addr == p and size == n, "an operation accesses one object");
        }
        addr = p;
        size = n;
        seen.push_back(raw());
        if (c.chance(2, 3)) {
            ++interferences;
            auto const v = interfere(c, raw());
            std::memcpy(p, &v, n);
            c.note("  another thread makes it 0x%llx",
                   static_cast<unsigned long long>(v));
            seen.push_back(v);
        }
        orders.push_back(mo);
        if (k != conc_hook::kind::load) {
            ++writes;
            before_write = raw();
        }
    }
    void after(conc_hook::kind, void *) override {}

    void only_order(order mo, char const *what) const {
        REQ(not orders.empty(), "%s makes no access", what);
        for (auto o : orders) {
            REQ(o == mo, "%s: access with memory order %d, asked for %d", what,
                int(o), int(mo));
        }
    }
};

inline order any_order(Ctx &c) {
    return c.pick({order::seq_cst, order::relaxed, order::acquire,
                   order::release, order::acq_rel});
}
inline order load_order(Ctx &c) {
    return c.pick({order::seq_cst, order::relaxed, order::acquire});
}
inline order store_order(Ctx &c) {
    return c.pick({order::seq_cst, order::relaxed, order::release});
}
} // namespace at
