#include <pbt.hpp>
#include <array>
#include <limits>
#include <stdx/numeric.hpp>
#include <stdx/utility.hpp>
#include <type_traits>
#include <utility>
using namespace pbt;
namespace {
template <typename T> constexpr i128 lo = std::numeric_limits<T>::min();
template <typename T> constexpr i128 hi = std::numeric_limits<T>::max();

template <typename From> From near_edges(Ctx &c) {
    static constexpr int widths[] = {7, 8, 15, 16, 31, 32, 63, 64};
    if (c.flip()) {
        return static_cast<From>(c.integer<std::make_unsigned_t<From>>());
    }
    i128 v = i128{1} << widths[c.choose(std::size(widths))];
    if (c.flip()) {
        v = -v;
    }
    v += c.range(-2, 2);
    return static_cast<From>(v);
}
template <typename To, typename From> void sat(Ctx &c) {
    auto const f = near_edges<From>(c);
    auto const r = stdx::saturate_cast<To>(f);
    static_assert(std::is_same_v<decltype(r), To const>);
    i128 const want = i128{f} < lo<To>   ? lo<To>
                      : i128{f} > hi<To> ? hi<To>
                                         : i128{f};
    c.note("%zu-byte %s value %s to %zu-byte %s", sizeof(From),
           std::is_signed_v<From> ? "signed" : "unsigned",
           show(i128{f}).c_str(), sizeof(To),
           std::is_signed_v<To> ? "signed" : "unsigned");
    REQ_EQ(i128{r}, want, "saturate_cast");
    c.nontrivial(want != i128{f} or want == lo<To> or want == hi<To>);
}
template <typename From> void sat_all(Ctx &c) {
    switch (c.choose(13)) {
    case 0: return sat<u8, From>(c);
    case 1: return sat<i8, From>(c);
    case 2: return sat<u16, From>(c);
    case 3: return sat<i16, From>(c);
    case 4: return sat<u32, From>(c);
    case 5: return sat<i32, From>(c);
    case 6: return sat<u64, From>(c);
    case 7: return sat<i64, From>(c);
    case 8: return sat<char, From>(c);
    case 9: return sat<char16_t, From>(c);
    case 10: return sat<wchar_t, From>(c);
    case 11: return sat<unsigned long long, From>(c);
    default: return sat<long long, From>(c);
    }
}

struct b3 {
    u8 b[3];
};
struct b12 {
    u32 b[3];
};
template <typename T, typename U> void size_pair(Ctx &c) {
    u64 const n = c.flip() ? c.choose(100) : c.bits(56);
    u128 const bytes = u128{n} * sizeof(T);
    u128 const want = (bytes + sizeof(U) - 1) / sizeof(U);
    c.note("%llu units of %zu bytes in units of %zu", (unsigned long long)n,
           sizeof(T), sizeof(U));
    auto const got = stdx::sized<T>{n}.template in<U>();
    REQ_EQ(u128{got}, want, "size conversion");
    // the least number that holds them
    REQ(u128{got} * sizeof(U) >= bytes, "too few units");
    REQ(got == 0 or u128{got - 1} * sizeof(U) < bytes, "too many units");
    REQ_EQ(u128{stdx::sized<T>{n}.in()}, bytes, "in bytes by default");
    c.nontrivial(bytes % sizeof(U) != 0 or sizeof(T) != sizeof(U));
}
template <typename T> void size_from(Ctx &c) {
    switch (c.choose(6)) {
    case 0: return size_pair<T, u8>(c);
    case 1: return size_pair<T, u16>(c);
    case 2: return size_pair<T, u32>(c);
    case 3: return size_pair<T, u64>(c);
    case 4: return size_pair<T, b3>(c);
    default: return size_pair<T, b12>(c);
    }
}
static_assert(std::is_same_v<stdx::sized8, stdx::sized<u8>>);
static_assert(std::is_same_v<stdx::sized16, stdx::sized<u16>>);
static_assert(std::is_same_v<stdx::sized32, stdx::sized<u32>>);
static_assert(std::is_same_v<stdx::sized64, stdx::sized<u64>>);

// compile-time forms: a table over sizes, drawn from at run time
template <typename T, std::size_t... Ns>
auto table(std::index_sequence<Ns...>) {
    return std::array<std::array<std::size_t, 5>, sizeof...(Ns)>{
        {{stdx::udl_sized<T, Ns * 3>{}->z8, stdx::udl_sized<T, Ns * 3>{}->z16,
          stdx::udl_sized<T, Ns * 3>{}->z32, stdx::udl_sized<T, Ns * 3>{}->z64,
          stdx::udl_sized<T, Ns * 3>::template in<b3>}...}};
}
template <typename T> void size_literal(Ctx &c) {
    static auto const t = table<T>(std::make_index_sequence<100>{});
    auto const n = c.choose(100);
    std::size_t const unit[] = {1, 2, 4, 8, 3};
    auto const bytes = n * 3 * sizeof(T);
    c.note("literal of %zu units of %zu bytes", std::size_t{n * 3}, sizeof(T));
    for (int i = 0; i < 5; ++i) {
        REQ_EQ(t[n][static_cast<std::size_t>(i)],
               (bytes + unit[i] - 1) / unit[i], "literal size conversion");
    }
    c.nontrivial(n > 0);
}
PROPERTY("size literals", 1) {
    using namespace stdx::literals;
#define LIT(n)                                                                 \
    {n,                                                                        \
     {n##_z8->z8, n##_z8->z16, n##_z8->z32, n##_z8->z64},                      \
     {n##_z16->z8, n##_z16->z16, n##_z16->z32, n##_z16->z64},                  \
     {n##_z32->z8, n##_z32->z16, n##_z32->z32, n##_z32->z64},                  \
     {n##_z64->z8, n##_z64->z16, n##_z64->z32, n##_z64->z64}}
    struct row {
        std::size_t n;
        std::size_t a[4], b[4], d[4], e[4];
    };
    static row const rows[] = {
        LIT(0),    LIT(1),     LIT(2),     LIT(3),      LIT(4),     LIT(5),
        LIT(7),    LIT(8),     LIT(9),     LIT(15),     LIT(16),    LIT(17),
        LIT(31),   LIT(33),    LIT(63),    LIT(64),     LIT(65),    LIT(100),
        LIT(255),  LIT(256),   LIT(1023),  LIT(4097),   LIT(65535), LIT(123456789),
        LIT(0x10), LIT(0x1ff), LIT(0b101), LIT(1'000'001), LIT(017)};
    auto const &r = rows[c.choose(std::size(rows))];
    c.note("literal %zu", r.n);
    std::size_t const unit[] = {1, 2, 4, 8};
    std::size_t const *cols[] = {r.a, r.b, r.d, r.e};
    for (int s = 0; s < 4; ++s) {
        for (int d = 0; d < 4; ++d) {
            auto const bytes = r.n * unit[s];
            REQ_EQ(cols[s][d], (bytes + unit[d] - 1) / unit[d],
                   "size literal");
        }
    }
    c.nontrivial(r.n > 0);
}

template <typename T> void signs(Ctx &c) {
    auto const v = near_edges<T>(c);
    auto const u = stdx::as_unsigned(v);
    auto const s = stdx::as_signed(v);
    static_assert(std::is_same_v<decltype(u), std::make_unsigned_t<T> const>);
    static_assert(std::is_same_v<decltype(s), std::make_signed_t<T> const>);
    c.note("%s", show(i128{v}).c_str());
    i128 const M = i128{1} << (sizeof(T) * 8);
    auto const pattern = ((i128{v} % M) + M) % M;
    REQ_EQ(i128{u}, pattern, "as_unsigned");
    REQ_EQ(i128{s}, pattern >= M / 2 ? pattern - M : pattern, "as_signed");
    REQ(stdx::as_signed(u) == s and stdx::as_unsigned(s) == u, "back and forth");
    c.nontrivial(v < 0 or i128{u} != i128{s});
}

struct alignas(16) al16 {
    char x;
};
struct alignas(64) al64 {
    char x;
};
struct alignas(512) al512 {
    char x;
};
struct alignas(4096) al4096 {
    char x;
};
template <typename A, typename V> void aligned(Ctx &c) {
    auto v = near_edges<V>(c);
    if (c.flip()) {
        auto const to = std::max<std::size_t>(alignof(A) >> c.choose(3), 1);
        v = static_cast<V>(v & ~static_cast<V>(to - 1));
    }
    c.note("%s against %zu", show(i128{v}).c_str(), alignof(A));
    auto const want = i128{v} % static_cast<i128>(alignof(A)) == 0;
    REQ_EQ(stdx::is_aligned_with<A>(v), want, "is_aligned_with value");
    constexpr auto step = alignof(A) < 64 ? 1 : alignof(A) / 4;
    alignas(4096) static char buf[16384];
    auto *p = buf + c.choose(100) * step % sizeof(buf) + c.choose(2);
    auto const pw = static_cast<std::size_t>(p - buf) % alignof(A) == 0;
    REQ_EQ(stdx::is_aligned_with<A>(p), pw, "is_aligned_with pointer");
    REQ_EQ(stdx::is_aligned_with<A>(static_cast<void const *>(p)), pw,
           "is_aligned_with void pointer");
    c.nontrivial(want);
}
template <typename A> void aligned_of(Ctx &c) {
    switch (c.choose(6)) {
    case 0: return aligned<A, int>(c);
    case 1: return aligned<A, u8>(c);
    case 2: return aligned<A, i16>(c);
    case 3: return aligned<A, u32>(c);
    case 4: return aligned<A, i64>(c);
    default: return aligned<A, u64>(c);
    }
}
REG("saturate from u8", 1, sat_all<u8>);
REG("saturate from i8", 1, sat_all<i8>);
REG("saturate from u16", 1, sat_all<u16>);
REG("saturate from i16", 1, sat_all<i16>);
REG("saturate from u32", 1, sat_all<u32>);
REG("saturate from i32", 1, sat_all<i32>);
REG("saturate from u64", 1, sat_all<u64>);
REG("saturate from i64", 1, sat_all<i64>);
REG("saturate from char", 1, sat_all<char>);
REG("saturate from wchar_t", 1, sat_all<wchar_t>);
REG("saturate from long long", 1, sat_all<long long>);
REG("sizes of u8", 1, size_from<u8>);
REG("sizes of u16", 1, size_from<u16>);
REG("sizes of u32", 1, size_from<u32>);
REG("sizes of u64", 1, size_from<u64>);
REG("sizes of 3 bytes", 1, size_from<b3>);
REG("sizes of 12 bytes", 1, size_from<b12>);
REG("size table u8", 1, size_literal<u8>);
REG("size table u16", 1, size_literal<u16>);
REG("size table u32", 1, size_literal<u32>);
REG("size table u64", 1, size_literal<u64>);
REG("sign i8", 1, signs<i8>);
REG("sign u8", 1, signs<u8>);
REG("sign i16", 1, signs<i16>);
REG("sign u16", 1, signs<u16>);
REG("sign i32", 1, signs<i32>);
REG("sign u32", 1, signs<u32>);
REG("sign i64", 1, signs<i64>);
REG("sign u64", 1, signs<u64>);
REG("aligned u8", 1, aligned_of<u8>);
REG("aligned u16", 1, aligned_of<u16>);
REG("aligned u32", 1, aligned_of<u32>);
REG("aligned u64", 1, aligned_of<u64>);
REG("aligned 16", 1, aligned_of<al16>);
REG("aligned 64", 1, aligned_of<al64>);
REG("aligned 512", 1, aligned_of<al512>);
REG("aligned 4096", 1, aligned_of<al4096>);
} // namespace
