// Reading a tuple's elements back as (type, value) pairs.
#pragma once
#include "b_prelude.hpp"
#include <algorithm>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>

namespace vb {
template <typename T> args items(T const &t) {
    return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        return args{as<stdx::tuple_element_t<Is, T>>(rd(stdx::get<Is>(t)))...};
    }(std::make_index_sequence<stdx::tuple_size_v<T>>{});
}
// The items of a tuple of tuples, with their group sizes.
template <typename T>
std::pair<args, std::vector<std::size_t>> groups(T const &t) {
    std::pair<args, std::vector<std::size_t>> r;
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (
            [&] {
                auto const g = items(stdx::get<Is>(t));
                r.first.insert(r.first.end(), g.begin(), g.end());
                r.second.push_back(g.size());
            }(),
            ...);
    }(std::make_index_sequence<stdx::tuple_size_v<T>>{});
    return r;
}
// Equal up to order inside each of the given consecutive groups.
inline bool same_groups(args const &got, args const &want,
                        std::vector<std::size_t> const &sizes) {
    if (got.size() != want.size()) {
        return false;
    }
    auto g = got.begin();
    auto w = want.begin();
    for (auto n : sizes) {
        auto const d = static_cast<std::ptrdiff_t>(n);
        if (not std::is_permutation(g, g + d, w, w + d)) {
            return false;
        }
        g += d;
        w += d;
    }
    return g == got.end();
}
} // namespace vb

namespace vb {
// An element that several index functions give keys for.
template <int A, int B, int C, typename T> struct ent {
    using a = K<A>;
    using b = K<B>;
    using c = K<C>;
    T value;
    friend constexpr bool operator==(ent const &, ent const &) = default;
    friend constexpr auto operator<=>(ent const &, ent const &) = default;
};
} // namespace vb
