// Used by the generated programs about names.
#pragma once
#include <string>
#include <string_view>
namespace vbn {
// Compilers put spaces in different places.
inline std::string tight(std::string_view s) {
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] != ' ') {
            r += s[i];
        }
    }
    return r;
}
} // namespace vbn
#ifdef __clang__
#define VB_ANON "(anonymous namespace)"
#else
#define VB_ANON "{anonymous}"
#endif
