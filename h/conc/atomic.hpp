// Stand-in for the external conc/atomic.hpp: the same interface, on plain
// memory, with a hook called before every access. The hook may change the
// memory, which is how another thread's update lands between two accesses.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstring>
#include <type_traits>

namespace conc_hook {
enum class kind { load, store, exchange, add, sub, and_, or_, xor_ };
struct listener {
    virtual void before(kind, std::memory_order, void *, std::size_t) = 0;
    virtual void after(kind, void *) = 0;
    virtual ~listener() = default;
};
inline listener *current{};
template <typename T>
void before(kind k, std::memory_order mo, T const &t) {
    if (current) {
        current->before(k, mo, const_cast<std::remove_const_t<T> *>(&t),
                        sizeof(T));
    }
}
template <typename T> void after(kind k, T const &t) {
    if (current) {
        current->after(k, const_cast<std::remove_const_t<T> *>(&t));
    }
}
template <typename T, typename F>
T rmw(kind k, T &t, std::memory_order mo, F f) {
    before(k, mo, t);
    T const old = t;
    t = f(old);
    after(k, t);
    return old;
}
template <typename T, bool = std::is_integral_v<T>> struct wrapping {
    static T add(T a, T b) { return static_cast<T>(a + b); }
    static T sub(T a, T b) { return static_cast<T>(a - b); }
};
template <typename T> struct wrapping<T, true> {
    static T add(T a, T b) {
        return static_cast<T>(static_cast<unsigned long long>(a) +
                              static_cast<unsigned long long>(b));
    }
    static T sub(T a, T b) {
        return static_cast<T>(static_cast<unsigned long long>(a) -
                              static_cast<unsigned long long>(b));
    }
};
} // namespace conc_hook

namespace atomic {
template <typename T> struct atomic_type {
    using type = T;
};
template <typename T>
    requires requires { typename T::kept_in; }
struct atomic_type<T> {
    using type = typename T::kept_in;
};
template <typename T> using atomic_type_t = typename atomic_type<T>::type;
template <typename T>
constexpr inline auto alignment_of = alignof(atomic_type_t<T>);
template <typename T>
    requires requires { T::kept_at; }
constexpr inline auto alignment_of<T> = T::kept_at;

#ifdef WIDE_ELEMENTS
template <> struct atomic_type<unsigned char> {
    using type = unsigned int;
};
template <> struct atomic_type<signed char> {
    using type = unsigned int;
};
template <> struct atomic_type<bool> {
    using type = unsigned int;
};
template <> struct atomic_type<unsigned short> {
    using type = unsigned int;
};
template <> struct atomic_type<short> {
    using type = int;
};
#endif

template <typename T>
[[nodiscard]] auto load(T const &t,
                        std::memory_order mo = std::memory_order_seq_cst) -> T {
    conc_hook::before(conc_hook::kind::load, mo, t);
    T const v = t;
    conc_hook::after(conc_hook::kind::load, t);
    return v;
}
template <typename T>
void store(T &t, std::type_identity_t<T> v,
           std::memory_order mo = std::memory_order_seq_cst) {
    conc_hook::before(conc_hook::kind::store, mo, t);
    t = v;
    conc_hook::after(conc_hook::kind::store, t);
}
template <typename T>
[[nodiscard]] auto exchange(T &t, std::type_identity_t<T> v,
                            std::memory_order mo = std::memory_order_seq_cst)
    -> T {
    return conc_hook::rmw(conc_hook::kind::exchange, t, mo,
                          [&](T) { return v; });
}
template <typename T>
auto fetch_add(T &t, std::type_identity_t<T> v,
               std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_hook::rmw(conc_hook::kind::add, t, mo, [&](T o) {
        return conc_hook::wrapping<T>::add(o, v);
    });
}
template <typename T>
auto fetch_sub(T &t, std::type_identity_t<T> v,
               std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_hook::rmw(conc_hook::kind::sub, t, mo, [&](T o) {
        return conc_hook::wrapping<T>::sub(o, v);
    });
}
template <typename T>
auto fetch_and(T &t, std::type_identity_t<T> v,
               std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_hook::rmw(conc_hook::kind::and_, t, mo,
                          [&](T o) { return static_cast<T>(o & v); });
}
template <typename T>
auto fetch_or(T &t, std::type_identity_t<T> v,
              std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_hook::rmw(conc_hook::kind::or_, t, mo,
                          [&](T o) { return static_cast<T>(o | v); });
}
template <typename T>
auto fetch_xor(T &t, std::type_identity_t<T> v,
               std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_hook::rmw(conc_hook::kind::xor_, t, mo,
                          [&](T o) { return static_cast<T>(o ^ v); });
}
} // namespace atomic
