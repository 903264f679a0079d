// Minimal choice-tape property-based testing framework (engine A).
//
// A case is a function of a tape of choices. Smaller choices are simpler; a
// tape that runs out yields zeros, so every prefix / deletion / reduction of a
// tape is again a valid case. Shrinking therefore works on the tape alone.
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <limits>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace pbt {
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i8 = std::int8_t;
using i16 = std::int16_t;
using i32 = std::int32_t;
using i64 = std::int64_t;
using u128 = unsigned __int128;
using i128 = __int128;

struct failure {
    std::string msg;
};
struct discard {};

constexpr std::size_t tape_cap = 16384;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

class Ctx {
    u64 *rec;
    u32 *rec_len;
    u64 const *rep{};
    std::size_t rep_len{};
    u64 state{};
    bool replaying{};

    u64 next() {
        state += 0x9e3779b97f4a7c15ull;
        u64 x = state;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }

  public:
    bool verbose{};
    bool nontriv{};
    std::string log;
    u64 labels{};
    static std::vector<std::string> &label_names();
    static std::vector<u64> &label_counts();

    Ctx(u64 *r, u32 *rl) : rec{r}, rec_len{rl} { *rec_len = 0; }
    void seed(u64 s) {
        state = s;
        replaying = false;
    }
    void replay(u64 const *p, std::size_t n) {
        rep = p;
        rep_len = n;
        replaying = true;
    }

    // uniform in [0, n); n == 0 means the whole 64-bit range
    u64 choose(u64 n) {
        auto const pos = *rec_len;
        if (pos >= tape_cap) {
            throw discard{};
        }
        u64 v;
        if (replaying) {
            v = pos < rep_len ? rep[pos] : 0;
            if (n != 0 and v >= n) {
                v = v % n;
            }
        } else if (n == 0) {
            v = next();
        } else {
            v = static_cast<u64>((static_cast<u128>(next()) * n) >> 64);
        }
        rec[pos] = v;
        *rec_len = pos + 1;
        return v;
    }
    // inclusive range
    template <typename T = int> T range(T lo, T hi) {
        return static_cast<T>(
            lo + static_cast<T>(choose(static_cast<u64>(hi - lo) + 1)));
    }
    bool flip() { return choose(2) != 0; }
    // true with probability num/den; false is simpler
    bool chance(u64 num, u64 den) { return choose(den) >= den - num; }
    template <typename T> T pick(std::initializer_list<T> l) {
        return l.begin()[choose(l.size())];
    }
    template <typename C> auto const &of(C const &c) {
        return c[choose(c.size())];
    }
    std::size_t weighted(std::initializer_list<unsigned> ws) {
        u64 tot = 0;
        for (auto w : ws) {
            tot += w;
        }
        auto x = choose(tot);
        std::size_t i = 0;
        for (auto w : ws) {
            if (x < w) {
                return i;
            }
            x -= w;
            ++i;
        }
        return 0;
    }
    // length control for operation sequences: call more(avg) before each step;
    // stops with probability 1/avg (0 = stop, so deletion shrinks)
    bool more(u64 avg) { return choose(avg) != 0; }
    // a size in [0, max], biased to small values and to the ends
    std::size_t size(std::size_t max) {
        switch (choose(4)) {
        case 0:
            return choose(max < 4 ? max + 1 : 5);
        case 1:
            return max - choose(max < 4 ? max + 1 : 4);
        default:
            return choose(max + 1);
        }
    }
    // biased bit pattern of the given width
    u64 bits(unsigned w) {
        if (w == 0) {
            return 0;
        }
        u64 const mask = w >= 64 ? ~u64{} : (u64{1} << w) - 1;
        u64 v{};
        switch (choose(10)) {
        case 0:
            v = choose(17);
            break;
        case 1:
            v = mask - choose(17);
            break;
        case 2:
            v = u64{1} << choose(w);
            break;
        case 3:
            v = (u64{1} << choose(w)) - 1;
            break;
        case 4:
            v = ~(u64{1} << choose(w));
            break;
        case 5:
            v = (u64{1} << choose(w)) + choose(5) - 2;
            break;
        case 6: {
            auto a = choose(w), b = choose(w);
            if (a > b) {
                std::swap(a, b);
            }
            v = (b >= 63 ? ~u64{} : (u64{1} << (b + 1)) - 1) &
                ~((u64{1} << a) - 1);
            break;
        }
        case 7:
            v = (u64{1} << choose(w)) | (u64{1} << choose(w)) |
                (u64{1} << choose(w));
            break;
        default:
            v = choose(0);
            break;
        }
        return v & mask;
    }
    template <typename T> T integer() {
        using U = std::make_unsigned_t<T>;
        auto const b = static_cast<U>(
            bits(static_cast<unsigned>(sizeof(T) * 8)));
        return static_cast<T>(b);
    }

    __attribute__((format(printf, 2, 3))) void note(char const *f, ...) {
        if (not verbose) {
            return;
        }
        char buf[2048];
        va_list ap;
        va_start(ap, f);
        std::vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        if (log.size() < 20000) {
            log += buf;
            log += '\n';
        }
    }
    // mark this case as non-trivial by the property's stated rule
    void nontrivial(bool b = true) { nontriv |= b; }
    // classify: counted once per case
    void label(unsigned id) { labels |= u64{1} << id; }
};

unsigned label_id(char const *name);
// usage: LABEL(c, "shift beyond capacity")
#define LABEL(c, name)                                                         \
    do {                                                                       \
        static unsigned const label_id_ = ::pbt::label_id(name);               \
        (c).label(label_id_);                                                  \
    } while (0)

template <typename T> std::string show(T const &t) {
    if constexpr (std::is_same_v<T, bool>) {
        return t ? "true" : "false";
    } else if constexpr (std::is_enum_v<T>) {
        return std::to_string(
            static_cast<long long>(static_cast<std::underlying_type_t<T>>(t)));
    } else if constexpr (std::is_same_v<T, u128> or std::is_same_v<T, i128>) {
        std::string s;
        bool const neg = t < 0;
        auto u = neg ? ~static_cast<u128>(t) + 1 : static_cast<u128>(t);
        do {
            s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
            u /= 10;
        } while (u != 0);
        return neg ? "-" + s : s;
    } else if constexpr (std::is_integral_v<T>) {
        return std::to_string(t);
    } else if constexpr (requires(std::ostringstream &o) { o << t; }) {
        std::ostringstream o;
        o << t;
        return o.str();
    } else {
        return "<?>";
    }
}

[[noreturn]] inline void fail_at(char const *file, int line,
                                 std::string const &m) {
    auto const *b = std::strrchr(file, '/');
    throw failure{std::string{b ? b + 1 : file} + ":" + std::to_string(line) +
                  ": " + m};
}
[[noreturn]] __attribute__((format(printf, 4, 5))) inline void
fail_fmt(char const *file, int line, char const *cond, char const *f, ...) {
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    std::vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    fail_at(file, line, std::string{cond} + " is false: " + buf);
}

#define REQ(cond, ...)                                                         \
    do {                                                                       \
        if (not(cond)) {                                                       \
            ::pbt::fail_fmt(__FILE__, __LINE__, #cond, __VA_ARGS__);           \
        }                                                                      \
    } while (0)

#define REQ_EQ(got, want, what)                                                \
    do {                                                                       \
        auto &&got_ = (got);                                                   \
        auto &&want_ = (want);                                                 \
        if (not(got_ == want_)) {                                              \
            ::pbt::fail_at(__FILE__, __LINE__,                                 \
                           std::string{what} + ": " #got " gave " +            \
                               ::pbt::show(got_) + ", expected " +             \
                               ::pbt::show(want_));                            \
        }                                                                      \
    } while (0)

struct Variant {
    std::string name;
    void (*fn)(Ctx &);
    unsigned weight;
};
std::vector<Variant> &variants();
struct Reg {
    Reg(std::string name, void (*fn)(Ctx &), unsigned weight = 1) {
        variants().push_back({std::move(name), fn, weight});
    }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// usage: PROPERTY("name", weight) { ... c.choose(...) ... }
#define PROPERTY(name, weight)                                                 \
    static void PBT_CAT(prop_fn_, __LINE__)(::pbt::Ctx &);                     \
    static ::pbt::Reg const PBT_CAT(prop_reg_, __LINE__){                      \
        name, &PBT_CAT(prop_fn_, __LINE__), weight};                           \
    static void PBT_CAT(prop_fn_, __LINE__)([[maybe_unused]] ::pbt::Ctx & c)
// register an instantiation: REG("name", weight, fn<args>)
#define REG(name, weight, ...)                                                 \
    static ::pbt::Reg const PBT_CAT(prop_reg_, __COUNTER__) {                  \
        name, &__VA_ARGS__, weight                                             \
    }
} // namespace pbt
