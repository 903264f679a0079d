#include "bitset_common.hpp"
using namespace bs;
namespace {
template <auto... A> void dummy();
template <typename C> void history(Ctx &c) {
    using B = typename C::type;
    B b{};
    model m(C::N);
    static_assert(B::capacity() == C::N);
    if (c.chance(2, 3)) {
        m = random_model<C::N>(c);
        b = make<C>(m);
        c.note("start %s", text(m).c_str());
    }
    std::size_t n = 0;
    observe<C>(b, m);
    while (n < 60 and c.more(14)) {
        step<C>(c, b, m);
        observe<C>(b, m);
        ++n;
    }
    // equality in both directions, against an independently built twin and
    // against a neighbour one bit away
    auto twin = make<C>(m);
    REQ(b == twin and twin == b, "equal contents compare equal: %s",
        text(m).c_str());
    REQ(not(b != twin), "inequality of equal contents");
    auto const i = c.choose(C::N);
    auto other = twin;
    other.flip(C::ix(i));
    REQ(not(b == other) and b != other and other != b,
        "contents differing at bit %zu compare unequal", i);
    observe<C>(b, m);
    auto const k = popcount(m);
    c.nontrivial(n >= 2 and (k != 0 or n > 4));
}
} // namespace
#if PART == 0
namespace {
// more words than a byte can count
void many(Ctx &c) {
    if (c.choose(64) == 63) {
        history<cfg<2061, std::uint8_t>>(c);
    } else {
        history<cfg<22, std::uint8_t>>(c);
    }
}
} // namespace
REG("many words", 1, many);
#endif
#define X(...) REG("history<" #__VA_ARGS__ ">", 1, history<cfg<__VA_ARGS__>>);
BS_CONFIGS(X)
