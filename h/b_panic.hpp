// Panic handlers used by the generated programs.
#pragma once
#include <stdx/ct_string.hpp>

#include <string>
#include <string_view>

namespace vbp {
struct event {
    int handler;
    bool compile_time;
    std::string message;
    vb::args args;
    friend bool operator==(event const &, event const &) = default;
};
inline std::vector<event> log;

template <int N> struct T {};
template <int N> struct handler {
    template <typename... As> static auto panic(As &&...as) noexcept -> void {
        event e{N, false, {}, {}};
        vb::put(e.args, std::forward<As>(as)...);
        log.push_back(std::move(e));
    }
    template <stdx::ct_string S, typename... As>
    static auto panic(As &&...as) noexcept -> void {
        event e{N, true, std::string{std::string_view{S}}, {}};
        vb::put(e.args, std::forward<As>(as)...);
        log.push_back(std::move(e));
    }
};
// an installed handler with state of its own, not static
struct stateful {
    int n{40};
    template <typename... As> auto panic(As &&...as) -> void {
        event e{n, false, {}, {}};
        vb::put(e.args, std::forward<As>(as)...);
        log.push_back(std::move(e));
    }
    template <stdx::ct_string S, typename... As>
    auto panic(As &&...as) -> void {
        event e{n, true, std::string{std::string_view{S}}, {}};
        vb::put(e.args, std::forward<As>(as)...);
        log.push_back(std::move(e));
    }
};
inline int global{5};
inline int const constant{6};
template <typename... Ss> std::vector<std::string> strings(Ss... ss) {
    return {std::string{ss}...};
}
using strs = std::vector<std::string>;
template <auto...> struct values {};
} // namespace vbp
template <> inline auto stdx::panic_handler<> = vbp::handler<0>{};
template <> inline auto stdx::panic_handler<vbp::T<1>> = vbp::handler<1>{};
template <>
inline auto stdx::panic_handler<vbp::T<1>, vbp::T<2>> = vbp::handler<12>{};
template <>
inline auto stdx::panic_handler<vbp::T<2>, vbp::T<1>> = vbp::handler<21>{};
template <> inline auto stdx::panic_handler<vbp::T<4>> = vbp::stateful{};
template <> inline auto stdx::panic_handler<int> = vbp::handler<5>{};

#define VBP_STR(x) #x
#define VBP_XSTR(x) VBP_STR(x)
#define VBP_ID(x) x
#define VBP_TWICE(x) ((x) + (x))
#define VBP_ENUM(x) e_##x
#define VBP_VAR(...) #__VA_ARGS__
