// Used by the generated programs about environments.
#pragma once
namespace vbe {
template <typename Q, typename Ev>
concept answers = requires(Q q) { q(Ev{}); };
struct only { // can be moved but not copied
    int i;
    explicit only(int x) : i{x} {}
    only(only &&) = default;
};
template <typename T> consteval T val(T t) { return t; }
template <typename T, typename U>
constexpr bool eq(T const &a, U const &b) {
    if constexpr (not std::is_same_v<T, U>) {
        return false;
    } else if constexpr (std::is_empty_v<T>) {
        return true;
    } else {
        return a == b;
    }
}
} // namespace vbe
