// Used by the generated programs that run in constant expressions and at run
// time: a record of everything a computation produced.
#pragma once
namespace vbx {
struct out {
    unsigned long hash{};
    int n{};
    template <typename T> constexpr auto operator<<(T const &x) -> out & {
        hash = (hash ^ static_cast<unsigned long>(vbx_read(x))) *
               1099511628211ul;
        hash ^= hash >> 29;
        ++n;
        return *this;
    }
    template <typename T> constexpr static long vbx_read(T const &x) {
        if constexpr (requires { vb::rd(x); }) {
            return vb::rd(x);
        } else {
            return static_cast<long>(x);
        }
    }
    template <typename R> constexpr auto all(R const &r) -> out & {
        int k = 0;
        for (auto const &x : r) {
            *this << x;
            ++k;
        }
        return *this << k;
    }
    friend constexpr bool operator==(out const &, out const &) = default;
};
struct node {
    int v{};
    node *prev{};
    node *next{};
};
struct fnode {
    int v{};
    fnode *next{};
};
constexpr int times(int x) { return x * 3; }
enum struct bits : unsigned { a, b, c, d, e, MAX };
// An opaque zero, so that nothing is known about the run-time computation.
inline int volatile zero{};
} // namespace vbx
namespace vbxs {
template <typename T> using is_small = std::bool_constant<sizeof(T) <= 4>;
template <typename T> using id = T;
} // namespace vbxs
