// PART 0: what the language mode provides. PART 1: every polyfill.
#include <pbt.hpp>
#include <array>
#include <bit>
#include <cstring>
#include <limits>
#include <utility>
#if PART == 1
#undef __cpp_lib_endian
#undef __cpp_lib_bit_cast
#undef __cpp_lib_byteswap
#undef __cpp_lib_bitops
#undef __cpp_lib_int_pow2
#define stdx stdx_poly
#elif PART == 2
#undef __cpp_lib_byteswap
#define stdx stdx_swap
#endif
#include <stdx/bit.hpp>
using namespace pbt;
namespace {
template <typename T> struct ref {
    constexpr static int W = std::numeric_limits<T>::digits;
    static bool bit(T x, int i) { return ((x >> i) & 1u) != 0; }
    static int clz(T x) {
        int n = 0;
        for (int i = W - 1; i >= 0 and not bit(x, i); --i) {
            ++n;
        }
        return n;
    }
    static int ctz(T x) {
        int n = 0;
        for (int i = 0; i < W and not bit(x, i); ++i) {
            ++n;
        }
        return n;
    }
    static int pop(T x) {
        int n = 0;
        for (int i = 0; i < W; ++i) {
            n += bit(x, i);
        }
        return n;
    }
    static T rotl(T x, long s) {
        T r{};
        for (int i = 0; i < W; ++i) {
            if (bit(x, i)) {
                auto const to = (((i + s) % W) + W) % W;
                r = static_cast<T>(r | (T{1} << to));
            }
        }
        return r;
    }
    static T swap(T x) {
        T r{};
        for (int i = 0; i < W; i += 8) {
            r = static_cast<T>(r | (static_cast<T>((x >> i) & 0xffu)
                                    << (W - 8 - i)));
        }
        return r;
    }
};

template <typename T> void check(T x, int s) {
    using R = ref<T>;
    constexpr int W = R::W;
    REQ_EQ(stdx::countl_zero(x), R::clz(x), "countl_zero " + show(x));
    REQ_EQ(stdx::countr_zero(x), R::ctz(x), "countr_zero " + show(x));
    REQ_EQ(stdx::countl_one(x), R::clz(static_cast<T>(~x)),
           "countl_one " + show(x));
    REQ_EQ(stdx::countr_one(x), R::ctz(static_cast<T>(~x)),
           "countr_one " + show(x));
    REQ_EQ(stdx::popcount(x), R::pop(x), "popcount " + show(x));
    static_assert(std::is_same_v<decltype(stdx::rotl(x, s)), T>);
    REQ_EQ(stdx::rotl(x, s), R::rotl(x, s), "rotl " + show(x) + " " + show(s));
    REQ_EQ(stdx::rotr(x, s), R::rotl(x, -static_cast<long>(s)),
           "rotr " + show(x) + " " + show(s));
    REQ_EQ(stdx::has_single_bit(x), R::pop(x) == 1, "has_single_bit " + show(x));
    auto const width = W - R::clz(x);
    REQ_EQ(static_cast<int>(stdx::bit_width(x)), width, "bit_width " + show(x));
    T const fl = x == 0 ? T{} : static_cast<T>(T{1} << (width - 1));
    REQ_EQ(stdx::bit_floor(x), fl, "bit_floor " + show(x));
    if (x <= static_cast<T>(T{1} << (W - 1))) { // representable
        T const ce = x == 0 ? T{1} : x == fl ? fl : static_cast<T>(fl << 1);
        REQ_EQ(stdx::bit_ceil(x), ce, "bit_ceil " + show(x));
    }
    static_assert(std::is_same_v<decltype(stdx::byteswap(x)), T>);
    REQ_EQ(stdx::byteswap(x), R::swap(x), "byteswap " + show(x));
    REQ_EQ(stdx::byteswap(stdx::byteswap(x)), x, "byteswap twice " + show(x));

    static_assert(std::is_same_v<decltype(stdx::to_be(x)), T> and
                  std::is_same_v<decltype(stdx::from_le(x)), T>);
    unsigned char b[sizeof(T)];
    auto image = [&](T v) { std::memcpy(b, &v, sizeof v); };
    image(stdx::to_be(x));
    for (std::size_t i = 0; i < sizeof(T); ++i) {
        REQ(b[i] == static_cast<unsigned char>(x >> (W - 8 - 8 * i)),
            "big-endian image of %s, byte %zu", show(x).c_str(), i);
    }
    image(stdx::to_le(x));
    for (std::size_t i = 0; i < sizeof(T); ++i) {
        REQ(b[i] == static_cast<unsigned char>(x >> (8 * i)),
            "little-endian image of %s, byte %zu", show(x).c_str(), i);
    }
    REQ_EQ(stdx::from_be(stdx::to_be(x)), x, "big-endian round trip");
    REQ_EQ(stdx::from_le(stdx::to_le(x)), x, "little-endian round trip");
    REQ_EQ(stdx::to_be(stdx::from_be(x)), x, "big-endian round trip, reversed");
    REQ_EQ(stdx::to_le(stdx::from_le(x)), x,
           "little-endian round trip, reversed");

    // bit casts keep the object representation
    using A = std::array<unsigned char, sizeof(T)>;
    auto const a = stdx::bit_cast<A>(x);
    image(x);
    REQ(std::memcmp(a.data(), b, sizeof b) == 0, "bit_cast to bytes of %s",
        show(x).c_str());
    REQ_EQ(stdx::bit_cast<T>(a), x, "bit_cast from bytes");
    using S = std::make_signed_t<T>;
    S const sg = stdx::bit_cast<S>(x);
    REQ(std::memcmp(&sg, &x, sizeof x) == 0, "bit_cast to signed of %s",
        show(x).c_str());
    if constexpr (sizeof(T) == 4) {
        auto const f = stdx::bit_cast<float>(x);
        REQ(std::memcmp(&f, &x, 4) == 0 or f != f, "bit_cast to float");
    } else if constexpr (sizeof(T) == 8) {
        auto const f = stdx::bit_cast<double>(x);
        REQ(std::memcmp(&f, &x, 8) == 0 or f != f, "bit_cast to double");
    }
    static_assert((stdx::endian::native == stdx::endian::little) ==
                  (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__));
    static_assert(stdx::endian::little != stdx::endian::big);
    static_assert(stdx::bit_size<T>() == static_cast<std::size_t>(W));
}

template <typename T> void one(Ctx &c) {
    auto const x = c.integer<T>();
    int s = c.range(-130, 130);
    if (c.chance(1, 6)) {
        s = c.integer<int>();
    }
    c.note("x=%s s=%d", show(x).c_str(), s);
    // rotations by INT_MIN negate out of range in the definition itself
    if (s == std::numeric_limits<int>::min()) {
        ++s;
    }
    check<T>(x, s);
    c.nontrivial(x != 0 and static_cast<T>(~x) != 0 and
                 s % ref<T>::W != 0);
}
template <typename T> void sweep(Ctx &c) {
    int const s = c.range(-20, 20);
    c.note("every value, s=%d", s);
    for (u32 x = 0; x <= std::numeric_limits<T>::max(); ++x) {
        check<T>(static_cast<T>(x), s);
    }
    c.nontrivial();
    LABEL(c, "every value of a type");
}
// the same functions, evaluated by the compiler
template <typename T> struct row {
    T x{};
    int s{};
    int count[6]{};
    T val[6]{};
    bool single{};
};
template <typename T> constexpr auto rows() {
    constexpr int W = std::numeric_limits<T>::digits;
    std::array<row<T>, 24> r{};
    for (int i = 0; i < 24; ++i) {
        auto &q = r[static_cast<std::size_t>(i)];
        q.x = i < 2    ? static_cast<T>(i)
              : i < 10 ? static_cast<T>(T{1} << (i * 7 % W))
              : i < 12 ? static_cast<T>(~T{} - static_cast<T>(i - 10))
                       : static_cast<T>(0x9e3779b97f4a7c15ull >> (i * 5 % 57));
        q.s = i * 37 % 131 - 65;
        q.count[0] = stdx::countl_zero(q.x);
        q.count[1] = stdx::countr_zero(q.x);
        q.count[2] = stdx::countl_one(q.x);
        q.count[3] = stdx::countr_one(q.x);
        q.count[4] = stdx::popcount(q.x);
        q.count[5] = static_cast<int>(stdx::bit_width(q.x));
        q.single = stdx::has_single_bit(q.x);
        q.val[0] = stdx::rotl(q.x, q.s);
        q.val[1] = stdx::rotr(q.x, q.s);
        q.val[2] = stdx::bit_floor(q.x);
        q.val[3] = q.x <= static_cast<T>(T{1} << (W - 1)) ? stdx::bit_ceil(q.x)
                                                          : T{};
        q.val[4] = stdx::byteswap(q.x);
        q.val[5] = static_cast<T>(
            stdx::from_le(stdx::to_le(q.x)) ^ stdx::from_be(stdx::to_be(q.x)) ^
            stdx::bit_cast<T>(stdx::bit_cast<std::make_signed_t<T>>(q.x)));
    }
    return r;
}
template <typename T> void constants(Ctx &c) {
    using R = ref<T>;
    constexpr int W = R::W;
    constexpr static auto table = rows<T>();
    auto const &q = table[static_cast<std::size_t>(c.range(0, 23))];
    c.note("constant x=%s s=%d", show(q.x).c_str(), q.s);
    REQ_EQ(q.count[0], R::clz(q.x), "constant countl_zero");
    REQ_EQ(q.count[1], R::ctz(q.x), "constant countr_zero");
    REQ_EQ(q.count[2], R::clz(static_cast<T>(~q.x)), "constant countl_one");
    REQ_EQ(q.count[3], R::ctz(static_cast<T>(~q.x)), "constant countr_one");
    REQ_EQ(q.count[4], R::pop(q.x), "constant popcount");
    REQ_EQ(q.count[5], W - R::clz(q.x), "constant bit_width");
    REQ_EQ(q.single, R::pop(q.x) == 1, "constant has_single_bit");
    REQ_EQ(q.val[0], R::rotl(q.x, q.s), "constant rotl");
    REQ_EQ(q.val[1], R::rotl(q.x, -q.s), "constant rotr");
    T const fl = q.x == 0 ? T{} : static_cast<T>(T{1} << (W - 1 - R::clz(q.x)));
    REQ_EQ(q.val[2], fl, "constant bit_floor");
    if (q.x <= static_cast<T>(T{1} << (W - 1))) {
        REQ_EQ(q.val[3],
               q.x == 0 ? T{1} : q.x == fl ? fl : static_cast<T>(fl << 1),
               "constant bit_ceil");
    }
    REQ_EQ(q.val[4], R::swap(q.x), "constant byteswap");
    REQ_EQ(q.val[5], q.x, "constant round trips");
    c.nontrivial(q.x != 0);
    LABEL(c, "constant evaluation");
}
#if PART == 0
#define NAME "native "
#elif PART == 1
#define NAME "polyfill "
#else
#define NAME "byteswap polyfill "
#endif
REG(NAME "u8", 500, one<std::uint8_t>);
REG(NAME "u16", 500, one<std::uint16_t>);
REG(NAME "u32", 1000, one<std::uint32_t>);
REG(NAME "u64", 1500, one<std::uint64_t>);
REG(NAME "unsigned long long", 500, one<unsigned long long>);
REG(NAME "u8 sweep", 2, sweep<std::uint8_t>);
REG(NAME "u8 constants", 20, constants<std::uint8_t>);
REG(NAME "u16 constants", 20, constants<std::uint16_t>);
REG(NAME "u32 constants", 20, constants<std::uint32_t>);
REG(NAME "u64 constants", 20, constants<std::uint64_t>);
} // namespace
