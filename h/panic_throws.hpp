// A panic handler that records the message and throws, so that a check sees
// exactly which call panicked.
#pragma once
#include <stdx/panic.hpp>
#include <string>
#include <string_view>
namespace verif_panic {
struct panicked {
    std::string what;
};
struct handler {
    template <typename... A> static void panic(A &&...) {
        throw panicked{"(no message)"};
    }
    template <stdx::ct_string S, typename... A> static void panic(A &&...) {
        throw panicked{std::string{std::string_view{S}}};
    }
};
} // namespace verif_panic
template <> inline auto stdx::panic_handler<> = verif_panic::handler{};
