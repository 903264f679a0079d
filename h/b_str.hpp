// Used by the generated programs about compile-time strings.
#pragma once
#include <stdx/ct_string.hpp>
namespace vbs {
template <typename T, T... Cs> struct sc {
    friend constexpr auto operator==(sc const &, sc const &) -> bool = default;
};
template <typename T, T... Ls, T... Rs>
constexpr auto operator+(sc<T, Ls...>, sc<T, Rs...>) -> sc<T, Ls..., Rs...> {
    return {};
}
template <stdx::ct_string S> struct use {};
inline int touched = 0;
template <typename T> T touch(T const &x) {
    ++touched;
    return x;
}
} // namespace vbs
// Wrapping arbitrary run-time expressions works with clang only.
#ifdef __clang__
#define VBX(x) vbs::touch(x)
#else
#define VBX(x) x
#endif
using namespace stdx::literals;
