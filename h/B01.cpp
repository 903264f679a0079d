#include "bitset_common.hpp"
using namespace bs;
namespace {
enum struct R8 : std::uint8_t {};
enum struct R64 : std::uint64_t {};

template <typename C> void conversions(Ctx &c, typename C::type const &b,
                                       model const &m) {
    constexpr auto N = C::N;
    if constexpr (N <= 64) {
        std::uint64_t v = 0;
        for (std::size_t i = 0; i < N; ++i) {
            if (m[i]) {
                v |= std::uint64_t{1} << i;
            }
        }
        REQ_EQ(b.template to<std::uint64_t>(), v, "to<uint64_t>");
        REQ_EQ(b.template to<unsigned long long>(), v, "to<ull>");
        REQ_EQ(static_cast<std::uint64_t>(b.template to<R64>()), v, "to enum");
        REQ_EQ(static_cast<std::uint64_t>(b.to_natural()), v, "to_natural");
        using nat = decltype(b.to_natural());
        static_assert(std::is_same_v<nat, stdx::smallest_uint_t<N>>);
        if constexpr (N <= 32) {
            REQ_EQ(b.template to<std::uint32_t>(), v, "to<uint32_t>");
        }
        if constexpr (N <= 16) {
            REQ_EQ(b.template to<std::uint16_t>(), v, "to<uint16_t>");
        }
        if constexpr (N <= 8) {
            REQ_EQ(b.template to<std::uint8_t>(), v, "to<uint8_t>");
            REQ_EQ(static_cast<std::uint64_t>(b.template to<R8>()), v,
                   "to 8-bit enum");
        }
        typename C::type back{v};
        REQ(back == b, "value round trip of 0x%llx",
            static_cast<unsigned long long>(v));
        LABEL(c, "integer round trip");
    }
}

template <typename C> void from_value(Ctx &c) {
    using B = typename C::type;
    auto const v = c.bits(64);
    c.note("value 0x%llx", static_cast<unsigned long long>(v));
    B b{std::uint64_t{v}};
    model m(C::N);
    for (std::size_t i = 0; i < C::N; ++i) {
        m[i] = i < 64 and ((v >> i) & 1u) != 0;
    }
    observe<C>(b, m);
    conversions<C>(c, b, m);
    REQ(b == make<C>(m), "value-built equals bit-by-bit-built %s",
        text(m).c_str());
    c.nontrivial(v != 0);
}

template <typename C> void from_text(Ctx &c) {
    using B = typename C::type;
    // free text over a small alphabet, with any offset, length and one-char
    std::string s;
    auto const len = c.size(C::N + 12);
    auto const one = c.pick({'1', 'X', '0', 'o'});
    for (std::size_t i = 0; i < len; ++i) {
        s += c.pick({'0', one, '1', 'X'});
    }
    auto const form = c.choose(4);
    std::size_t pos = 0, n = std::string_view::npos;
    char o = '1';
    if (form >= 1) {
        pos = c.size(len);
    }
    if (form >= 2) {
        n = c.chance(1, 8) ? std::string_view::npos : c.size(C::N + 14);
    }
    if (form >= 3) {
        o = one;
    }
    c.note("text \"%s\" form %d pos %zu n %zu one '%c'", s.c_str(), int(form),
           pos, n, o);
    B b = form == 0   ? B{std::string_view{s}}
          : form == 1 ? B{std::string_view{s}, pos}
          : form == 2 ? B{std::string_view{s}, pos, n}
                      : B{std::string_view{s}, pos, n, o};
    // definition: the first min(n, rest, N) characters from pos; the rightmost
    // of them is bit 0
    auto const used = std::min({n, len - pos, C::N});
    model m(C::N);
    for (std::size_t i = 0; i < used; ++i) {
        m[i] = s[pos + used - 1 - i] == o;
    }
    observe<C>(b, m);
    conversions<C>(c, b, m);
    REQ(b == make<C>(m), "text-built equals bit-by-bit-built");
    c.nontrivial(used >= 1 and popcount(m) != 0);
    if (used < len) {
        LABEL(c, "text partly used");
    }
}

template <typename C> void from_places(Ctx &c) {
    using B = typename C::type;
    std::size_t p[6];
    for (auto &x : p) {
        x = c.choose(C::N);
    }
    auto const k = c.choose(7);
    c.note("%d places %zu %zu %zu %zu %zu %zu", int(k), p[0], p[1], p[2], p[3],
           p[4], p[5]);
    auto const I = [&](int i) { return C::ix(p[i]); };
    auto const pb = stdx::place_bits;
    B b = k == 0   ? B{pb}
          : k == 1 ? B{pb, I(0)}
          : k == 2 ? B{pb, I(0), I(1)}
          : k == 3 ? B{pb, I(0), I(1), I(2)}
          : k == 4 ? B{pb, I(0), I(1), I(2), I(3)}
          : k == 5 ? B{pb, I(0), I(1), I(2), I(3), I(4)}
                   : B{pb, I(0), I(1), I(2), I(3), I(4), I(5)};
    model m(C::N);
    for (std::size_t i = 0; i < k; ++i) {
        m[p[i]] = true;
    }
    observe<C>(b, m);
    conversions<C>(c, b, m);
    REQ(b == make<C>(m), "place-built equals bit-by-bit-built");
    c.nontrivial(k >= 1);
}

template <typename C> void from_all(Ctx &c) {
    using B = typename C::type;
    B b{stdx::all_bits};
    model m(C::N, true);
    observe<C>(b, m);
    conversions<C>(c, b, m);
    REQ(b == make<C>(m), "all_bits equals bit-by-bit-built");
    B d{};
    model z(C::N);
    observe<C>(d, z);
    conversions<C>(c, d, z);
}

// conversion after an arbitrary history
template <typename C> void after_history(Ctx &c) {
    typename C::type b{};
    model m(C::N);
    std::size_t n = 0;
    while (n < 12 and c.more(5)) {
        step<C>(c, b, m);
        ++n;
    }
    conversions<C>(c, b, m);
    observe<C>(b, m);
    REQ(b == make<C>(m), "equal contents compare equal");
    c.nontrivial(n >= 1 and popcount(m) != 0);
}

#if PART == 4
// compile-time text, with deduced size; checked against run-time construction
template <stdx::ct_string S> void ct_text(Ctx &) {
    constexpr auto b = stdx::bitset{S};
    constexpr auto N = S.size();
    static_assert(b.capacity() == N);
    stdx::bitset<N> r{std::string_view{S.begin(), S.size()}};
    REQ(r == b, "compile-time text equals run-time text");
    for (std::size_t i = 0; i < N; ++i) {
        REQ(b[i] == (S.value[N - 1 - i] == '1'), "bit %zu", i);
    }
}
REG("ct_text a", 1, ct_text<"1">);
REG("ct_text b", 1, ct_text<"01100111">);
REG("ct_text c", 1, ct_text<"100000000">);
REG("ct_text d", 1,
    ct_text<"1011100010000000000000000000000100000000000000000000000000000"
            "0001100101">);
#endif
} // namespace
#define X(...)                                                                 \
    REG("value<" #__VA_ARGS__ ">", 6, from_value<cfg<__VA_ARGS__>>);           \
    REG("text<" #__VA_ARGS__ ">", 8, from_text<cfg<__VA_ARGS__>>);             \
    REG("places<" #__VA_ARGS__ ">", 4, from_places<cfg<__VA_ARGS__>>);         \
    REG("all<" #__VA_ARGS__ ">", 1, from_all<cfg<__VA_ARGS__>>);               \
    REG("history<" #__VA_ARGS__ ">", 4, after_history<cfg<__VA_ARGS__>>);
BS_CONFIGS(X)
