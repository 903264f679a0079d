// Used by the generated programs about types.
#pragma once
namespace vbm {
template <auto...> struct values {};
template <auto...> struct others {};
template <auto> struct single {};
template <typename...> struct a {};
template <typename...> struct b {};
template <typename> struct one {};
template <typename T> struct derived : T {};
enum struct U8 : unsigned char { x = 200 };
struct abstract {
    virtual void f() = 0;
};
enum Plain { plain = 12 };
template <typename T> struct under_impl {
    using type = T;
};
template <typename T>
    requires std::is_enum_v<T>
struct under_impl<T> {
    using type = std::underlying_type_t<T>;
};
template <typename T> using under = typename under_impl<T>::type;
} // namespace vbm
