From ba21938e12af7455ccdceb2e7233bceb4243552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 01/42] fix: ignore unused storage bits in bitset lowest_unset,
 transform_reduce and >>=

set(), flip(), operator~ and construction from a wide value leave bits set
above the bitset's size in the last storage element. These three operations
read them, so bits that do not exist were reported or shifted into view.
---
 include/stdx/bitset.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index a48b7d9..9b4a5f7 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -163,16 +163,7 @@ class bitset {
 
     template <typename T, typename F, typename R>
     constexpr auto transform_reduce(F &&f, R &&r, T init) const -> T {
-        std::size_t i = 0;
-        for (auto e : storage) {
-            while (e != 0) {
-                auto const offset = static_cast<std::size_t>(countr_zero(e));
-                e &= static_cast<elem_t>(~(bit << offset));
-                init =
-                    r(std::move(init), f(static_cast<iter_arg_t>(i + offset)));
-            }
-            i += std::numeric_limits<elem_t>::digits;
-        }
+        for_each<set_bit>([&](auto i) { init = r(std::move(init), f(i)); });
         return init;
     }
 
@@ -405,11 +396,11 @@ class bitset {
         for (auto e : storage) {
             if (auto offset = static_cast<std::size_t>(countr_one(e));
                 offset != std::numeric_limits<elem_t>::digits) {
-                return static_cast<iter_arg_t>(i + offset);
+                return static_cast<iter_arg_t>(std::min(i + offset, N));
             }
             i += std::numeric_limits<elem_t>::digits;
         }
-        return static_cast<iter_arg_t>(i);
+        return static_cast<iter_arg_t>(std::min(i, N));
     }
 
     [[nodiscard]] constexpr auto operator~() const -> bitset {
@@ -469,6 +460,7 @@ class bitset {
 
     constexpr auto operator>>=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            storage.back() = highbits();
             auto dst = std::size_t{};
             auto const start = pos / storage_elem_size;
             pos %= storage_elem_size;
-- 
2.43.0


From cb90148c7503ec48be70a92120a305de32f143c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 02/42] fix: bitset shift by at least its size clears it

A left shift past the storage size underflowed the start index and wrote out
of bounds. A right shift past it left the last element's bits in place.
Both now give an empty bitset, as std::bitset does.
---
 include/stdx/bitset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 9b4a5f7..bbcc113 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -432,6 +432,9 @@ class bitset {
 
     constexpr auto operator<<=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            if (pos >= N) {
+                return reset();
+            }
             auto dst = storage_size - 1;
             auto const start = dst - (pos / storage_elem_size);
             pos %= storage_elem_size;
@@ -460,6 +463,9 @@ class bitset {
 
     constexpr auto operator>>=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            if (pos >= N) {
+                return reset();
+            }
             storage.back() = highbits();
             auto dst = std::size_t{};
             auto const start = pos / storage_elem_size;
-- 
2.43.0


From 5be3582560561da64704d23c18b80189b30d3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 03/42] fix: for_each on an empty bitset visits nothing

The loop bound underflowed when the bitset had no storage.
---
 include/stdx/bitset.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index bbcc113..a1232df 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -147,14 +147,16 @@ class bitset {
 
     template <detail::bit_spec Spec, typename F>
     constexpr auto for_each(F &&f) const -> F {
-        std::size_t idx = 0;
-        for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
-            Spec::template fn<bit, iter_arg_t,
-                              std::numeric_limits<elem_t>::max()>(storage[i],
-                                                                  idx, f);
-            idx += std::numeric_limits<elem_t>::digits;
+        if constexpr (N != 0) {
+            std::size_t idx = 0;
+            for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
+                Spec::template fn<bit, iter_arg_t,
+                                  std::numeric_limits<elem_t>::max()>(
+                    storage[i], idx, f);
+                idx += std::numeric_limits<elem_t>::digits;
+            }
+            Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         }
-        Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         return std::forward<F>(f);
     }
 
-- 
2.43.0


From 74dbd87fecd7c3c32e5dfe360debc3255bfc2bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 04/42] fix: bitset::to works for enums and for types narrower
 than the storage

A multi-element bitset could not convert to a scoped enum. A bitset whose
storage element is wider than the result relied on a narrowing conversion.
---
 include/stdx/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index a1232df..2d613f5 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -233,9 +233,9 @@ class bitset {
         if constexpr (std::is_same_v<elem_t, U>) {
             return static_cast<T>(storage[0] & lastmask);
         } else {
-            U result{highbits()};
+            auto result = static_cast<U>(highbits());
             for (auto i = storage_size - 2u; i < storage_size; --i) {
-                result = static_cast<T>(result << storage_elem_size);
+                result = static_cast<U>(result << storage_elem_size);
                 result |= storage[i];
             }
             return static_cast<T>(result);
-- 
2.43.0


From 4eded0023a158824aafd83be47eb7f1a0317b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 05/42] fix: type_bitset uses one index per distinct type
 everywhere

set, reset and flip looked types up in the list as written, while reading and
construction used the list without duplicates, so repeated types addressed
the wrong bit. set() with no types also ignored a false value.
---
 include/stdx/bitset.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 2d613f5..f09e3d3 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -601,30 +601,34 @@ template <typename... Ts> class type_bitset {
     [[nodiscard]] constexpr auto operator[](TI) const -> decltype(auto) {
         using T = typename TI::type;
         constexpr auto idx = detail::index_of<T, list_t>;
-        static_assert(idx < sizeof...(Ts), "Type not found in bitset");
+        static_assert(idx < N, "Type not found in bitset");
         return bs[idx];
     }
 
     template <typename... Us>
     constexpr auto set(bool value = true) LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
-            bs.set();
+            if (value) {
+                bs.set();
+            } else {
+                bs.reset();
+            }
         } else {
-            (bs.set(detail::index_of<Us, type_list<Ts...>>, value), ...);
+            (bs.set(detail::index_of<Us, list_t>, value), ...);
         }
         return *this;
     }
 
     template <typename... Us>
     constexpr auto reset() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.reset();
         } else {
-            (bs.reset(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.reset(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
@@ -636,12 +640,12 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto flip() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.flip();
         } else {
-            (bs.flip(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.flip(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
-- 
2.43.0


From 85683142475ac8f2e3317f3be3edad87b4fb318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 06/42] fix: saturate_cast between types of different size and
 signedness

A wide unsigned value converted to a narrower signed type was clamped with a
lower bound above the upper one. A narrow negative value converted to a wider
unsigned type wrapped around instead of giving zero.
---
 include/stdx/numeric.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stdx/numeric.hpp b/include/stdx/numeric.hpp
index 2706030..9261b75 100644
--- a/include/stdx/numeric.hpp
+++ b/include/stdx/numeric.hpp
@@ -39,7 +39,9 @@ constexpr auto saturate_cast(From from) -> To {
     constexpr auto to_max = std::numeric_limits<To>::max();
 
     if constexpr (sizeof(From) > sizeof(To)) {
-        auto const clamped = std::clamp<From>(from, to_min, to_max);
+        constexpr auto from_min =
+            std::is_unsigned_v<From> ? From{} : static_cast<From>(to_min);
+        auto const clamped = std::clamp<From>(from, from_min, to_max);
         return static_cast<To>(clamped);
     }
 
@@ -49,7 +51,9 @@ constexpr auto saturate_cast(From from) -> To {
                 return to_max;
             }
         }
+    }
 
+    if constexpr (sizeof(From) <= sizeof(To)) {
         if constexpr (std::is_signed_v<From> and std::is_unsigned_v<To>) {
             if (from < 0) {
                 return static_cast<To>(0);
-- 
2.43.0


From c444c90d2cb5d80924eb910daff62937b38f4a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 07/42] fix: sized conversion rounds up exactly once

When the source type is larger than, and not a multiple of, the destination
type, one extra element was added even if the total size divided exactly.
---
 include/stdx/utility.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 19636af..8d135cb 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -141,8 +141,6 @@ template <typename T, typename U>
 [[nodiscard]] constexpr auto size_conversion(std::size_t sz) -> std::size_t {
     if constexpr (sizeof(T) == sizeof(U)) {
         return sz;
-    } else if constexpr (sizeof(T) > sizeof(U)) {
-        return (sz * sizeof(T) / sizeof(U)) + (sizeof(T) % sizeof(U) > 0);
     } else {
         return ((sz * sizeof(T)) + sizeof(U) - 1) / sizeof(U);
     }
-- 
2.43.0


From 9b222eabf678975772546168502ebc0cd48cfa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 08/42] fix: intrusive_list insert at end terminates the list

With the unchecked policy a node popped earlier keeps its old next pointer,
which was left in place when it was inserted at end().
---
 include/stdx/intrusive_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdx/intrusive_list.hpp b/include/stdx/intrusive_list.hpp
index 2f8ccd4..49becca 100644
--- a/include/stdx/intrusive_list.hpp
+++ b/include/stdx/intrusive_list.hpp
@@ -93,6 +93,7 @@ class intrusive_list {
         } else {
             n->prev = tail;
             tail = n;
+            n->next = nullptr;
         }
         if (n->prev) {
             n->prev->next = n;
-- 
2.43.0


From 927c5522f9bbcdca1068c6dd86854b3d6d96b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 09/42] fix: rollover_t multiplication never overflows a signed
 integer

16-bit operands were promoted to int, whose product can overflow.
---
 include/stdx/rollover.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/rollover.hpp b/include/stdx/rollover.hpp
index a791df8..f8463a6 100644
--- a/include/stdx/rollover.hpp
+++ b/include/stdx/rollover.hpp
@@ -52,7 +52,7 @@ template <typename T> struct rollover_t {
         return *this;
     }
     constexpr auto operator*=(rollover_t other) -> rollover_t & {
-        value *= other.value;
+        value = static_cast<underlying_t>(1u * value * other.value);
         return *this;
     }
     constexpr auto operator/=(rollover_t other) -> rollover_t & {
-- 
2.43.0


From 6c4922a27e172b8d54cb73e95a237844c08c3c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 10/42] fix: call_by_need accepts an lvalue tuple of functions

The size of the function tuple was taken from a reference type, which made it
zero, so the documented usage did not compile.
---
 include/stdx/call_by_need.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/call_by_need.hpp b/include/stdx/call_by_need.hpp
index e4355cc..fa028d1 100644
--- a/include/stdx/call_by_need.hpp
+++ b/include/stdx/call_by_need.hpp
@@ -162,7 +162,7 @@ constexpr auto call_by_need(Fs &&fs, Args &&args) {
     auto new_fs = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple{get<Is>(std::forward<Fs>(fs))...,
                      cbn_detail::safe_forward{}};
-    }(std::make_index_sequence<tuple_size_v<Fs>>{});
+    }(std::make_index_sequence<tuple_size_v<std::remove_cvref_t<Fs>>>{});
 
     auto ret = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple<
-- 
2.43.0


From 76d1793ad9d3977c4261dbc92a077c7936a23a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 11/42] fix: cx_vector reverse iteration compiles

The reverse iterator constructors are explicit, so every use of rbegin, rend,
crbegin and crend was an error.
---
 include/stdx/cx_vector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index ef1bf2d..0d8814e 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -58,27 +58,27 @@ template <typename T, std::size_t N> class cx_vector {
     }
 
     [[nodiscard]] constexpr auto rbegin() LIFETIMEBOUND -> reverse_iterator {
-        return end();
+        return reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto rbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return end();
+        return const_reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto crbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cend();
+        return const_reverse_iterator{cend()};
     }
 
     [[nodiscard]] constexpr auto rend() LIFETIMEBOUND -> reverse_iterator {
-        return begin();
+        return reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto rend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return begin();
+        return const_reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto crend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cbegin();
+        return const_reverse_iterator{cbegin()};
     }
 
     [[nodiscard]] constexpr auto front() LIFETIMEBOUND -> reference {
-- 
2.43.0


From 07809a9345254a806c5746ce025c0803a380fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:12:57 +0000
Subject: [PATCH 12/42] fix: make the free get on cx_vector constexpr

It is documented as compile-time access.
---
 include/stdx/cx_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index 0d8814e..b01d6c3 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -165,12 +165,12 @@ template <typename T, typename... Ts>
 cx_vector(T, Ts...) -> cx_vector<T, 1 + sizeof...(Ts)>;
 
 template <std::size_t I, typename T, std::size_t N>
-auto get(cx_vector<T, N> &v LIFETIMEBOUND) -> decltype(auto) {
+constexpr auto get(cx_vector<T, N> &v LIFETIMEBOUND) -> decltype(auto) {
     return v.template get<I>();
 }
 
 template <std::size_t I, typename T, std::size_t N>
-auto get(cx_vector<T, N> const &v LIFETIMEBOUND) -> decltype(auto) {
+constexpr auto get(cx_vector<T, N> const &v LIFETIMEBOUND) -> decltype(auto) {
     return v.template get<I>();
 }
 
-- 
2.43.0


From 43a2ecb45c40c7a8fb4a2d451855ee9b7c1c91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:17:32 +0000
Subject: [PATCH 13/42] fix: cx_set constructor keeps one copy of a repeated
 value

A set built from {1, 1, 2} reported size 3 and still contained 1 after
erasing it once. Elements are now inserted one at a time.
---
 include/stdx/cx_set.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stdx/cx_set.hpp b/include/stdx/cx_set.hpp
index 914d86f..2a79586 100644
--- a/include/stdx/cx_set.hpp
+++ b/include/stdx/cx_set.hpp
@@ -26,7 +26,11 @@ template <typename Key, std::size_t N> class cx_set {
     template <convertible_to<key_type>... Ts>
         requires(sizeof...(Ts) <= N)
     constexpr explicit cx_set(Ts const &...ts)
-        : storage{static_cast<key_type>(ts)...}, current_size{sizeof...(Ts)} {}
+        : storage{static_cast<key_type>(ts)...} {
+        for (auto i = size_type{}; i < sizeof...(Ts); ++i) {
+            insert(storage[i]);
+        }
+    }
 
     [[nodiscard]] constexpr auto begin() LIFETIMEBOUND -> iterator {
         return std::data(storage);
-- 
2.43.0


From 147552d33accd8f0dfda1eab2000215dedcb0ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:17:32 +0000
Subject: [PATCH 14/42] fix: cx_map constructor keeps one entry per key

A map built with a repeated key held both entries, so the key survived
one erase. The first entry is kept, which is the one get() returned.
---
 include/stdx/cx_map.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stdx/cx_map.hpp b/include/stdx/cx_map.hpp
index 2ffbbf4..cf131b2 100644
--- a/include/stdx/cx_map.hpp
+++ b/include/stdx/cx_map.hpp
@@ -40,7 +40,13 @@ template <typename Key, typename Value, std::size_t N> class cx_map {
     template <same_as<value_type>... Vs>
         requires(sizeof...(Vs) <= N)
     constexpr explicit cx_map(Vs const &...vs)
-        : storage{vs...}, current_size{sizeof...(Vs)} {}
+        : storage{vs...} {
+        for (auto i = size_type{}; i < sizeof...(Vs); ++i) {
+            if (not contains(storage[i].key)) {
+                storage[current_size++] = storage[i];
+            }
+        }
+    }
 
     [[nodiscard]] constexpr auto begin() LIFETIMEBOUND -> iterator {
         return std::data(storage);
-- 
2.43.0


From 69e9a93113b3b49051713c4b0f5f1819debeb53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:17:32 +0000
Subject: [PATCH 15/42] fix: bit_ceil and bit_floor polyfills shift a value of
 type T

The shifted literal was an unsigned int, so 64-bit arguments above 2^32
gave wrong results.
---
 include/stdx/bit.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/bit.hpp b/include/stdx/bit.hpp
index 5587bfa..d751ba8 100644
--- a/include/stdx/bit.hpp
+++ b/include/stdx/bit.hpp
@@ -221,7 +221,7 @@ template <typename T>
     if (x <= 1U) {
         return 1U;
     }
-    return T(1U << bit_width(x - 1U));
+    return T(T{1U} << bit_width(T(x - 1U)));
 }
 
 template <typename T>
@@ -230,7 +230,7 @@ template <typename T>
     if (x == 0) {
         return x;
     }
-    return T(1U << (bit_width(x) - 1));
+    return T(T{1U} << (bit_width(x) - 1));
 }
 #else
 using std::bit_ceil;
-- 
2.43.0


From c68040b9ffdf391ae6fcc0e7fca617e7da114470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:17:32 +0000
Subject: [PATCH 16/42] fix: rotl and rotr polyfills reduce the rotation count

Counts of at least the width of T shifted out of range.
---
 include/stdx/bit.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdx/bit.hpp b/include/stdx/bit.hpp
index d751ba8..23f24e7 100644
--- a/include/stdx/bit.hpp
+++ b/include/stdx/bit.hpp
@@ -170,6 +170,7 @@ template <typename T>
 template <typename T>
 [[nodiscard]] constexpr auto rotl(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
+    s %= std::numeric_limits<T>::digits;
     if (s == 0) {
         return x;
     }
@@ -182,6 +183,7 @@ template <typename T>
 template <typename T>
 [[nodiscard]] constexpr auto rotr(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
+    s %= std::numeric_limits<T>::digits;
     if (s == 0) {
         return x;
     }
-- 
2.43.0


From 9a271b11048b9179617f73a6c4aee91ded70eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:17:32 +0000
Subject: [PATCH 17/42] fix: forward_like casts lvalues to rvalues

Forwarding an lvalue like a non-const rvalue returned an lvalue, unlike
std::forward_like.
---
 include/stdx/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 8d135cb..6f0f303 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -116,7 +116,7 @@ template <typename T, typename U>
         if constexpr (t_is_const) {
             return std::move(std::as_const(u));
         } else {
-            return static_cast<U &&>(u);
+            return std::move(u);
         }
     }
 }
-- 
2.43.0


From 8de8cd72bb36df9ac64008266f358362b97ae224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:34 +0000
Subject: [PATCH 18/42] fix: tuple for_each accepts an lvalue function

With an lvalue function object the return type is a reference, which was
bound to a temporary copy, so the call did not compile.
---
 include/stdx/tuple.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index dbb76c2..ad1a341 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -515,10 +515,9 @@ constexpr auto transform(Op &&op, T &&t) {
 
 template <typename Op, tuplelike T>
 constexpr auto for_each(Op &&op, T &&t) -> Op {
-    return std::forward<T>(t).apply([&]<typename... Ts>(Ts &&...ts) {
-        (op(std::forward<Ts>(ts)), ...);
-        return op;
-    });
+    std::forward<T>(t).apply(
+        [&]<typename... Ts>(Ts &&...ts) { (op(std::forward<Ts>(ts)), ...); });
+    return op;
 }
 
 template <typename... Ts>
-- 
2.43.0


From a0549cc4cefb5449b362252b9a6e493f437b5d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:34 +0000
Subject: [PATCH 19/42] fix: cartesian products accept elements of standard
 library types

Unqualified calls to make_tuple, forward_as_tuple and tuple_cat were
ambiguous with the std functions found by argument-dependent lookup.
---
 include/stdx/tuple_algorithms.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index be86d1f..37578ed 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -442,11 +442,11 @@ template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
                                                         Elems &&...elems) {
                 [[maybe_unused]] auto const prepend = [&]<typename E>(E &&e) {
                     return c.apply([&](auto... subs) {
-                        return make_tuple(
-                            tuple_cat(make_tuple(std::forward<E>(e)), subs)...);
+                        return stdx::make_tuple(stdx::tuple_cat(
+                            stdx::make_tuple(std::forward<E>(e)), subs)...);
                     });
                 };
-                return tuple_cat(prepend(std::forward<Elems>(elems))...);
+                return stdx::tuple_cat(prepend(std::forward<Elems>(elems))...);
             });
         }(std::forward<Ts>(ts)...);
     }
@@ -463,11 +463,12 @@ template <tuplelike... Ts> constexpr auto cartesian_product(Ts &&...ts) {
                 [&]<typename... Elems>(Elems &&...elems) {
                     auto const prepend = [&]<typename E>(E &&e) {
                         return c.apply([&](auto... subs) {
-                            return make_tuple(tuple_cat(
-                                forward_as_tuple(std::forward<E>(e)), subs)...);
+                            return stdx::make_tuple(stdx::tuple_cat(
+                                stdx::forward_as_tuple(std::forward<E>(e)),
+                                subs)...);
                         });
                     };
-                    return tuple_cat(prepend(std::forward<Elems>(elems))...);
+                    return stdx::tuple_cat(prepend(std::forward<Elems>(elems))...);
                 });
         }(std::forward<Ts>(ts)...);
     }
-- 
2.43.0


From f2004690b88ea410805696e6a1086f7c7c5a12fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:50 +0000
Subject: [PATCH 20/42] fix: cartesian_product_copy copies each element into
 every result

An element of an rvalue tuple was moved once per resulting tuple, so all
but one of the results held a moved-from value.
---
 include/stdx/tuple_algorithms.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index 37578ed..5842c0a 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -442,8 +442,8 @@ template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
                                                         Elems &&...elems) {
                 [[maybe_unused]] auto const prepend = [&]<typename E>(E &&e) {
                     return c.apply([&](auto... subs) {
-                        return stdx::make_tuple(stdx::tuple_cat(
-                            stdx::make_tuple(std::forward<E>(e)), subs)...);
+                        return stdx::make_tuple(
+                            stdx::tuple_cat(stdx::make_tuple(e), subs)...);
                     });
                 };
                 return stdx::tuple_cat(prepend(std::forward<Elems>(elems))...);
@@ -468,7 +468,8 @@ template <tuplelike... Ts> constexpr auto cartesian_product(Ts &&...ts) {
                                 subs)...);
                         });
                     };
-                    return stdx::tuple_cat(prepend(std::forward<Elems>(elems))...);
+                    return stdx::tuple_cat(
+                        prepend(std::forward<Elems>(elems))...);
                 });
         }(std::forward<Ts>(ts)...);
     }
-- 
2.43.0


From 98d29c7a5013330f3a866fcd1c4be4ce89e24ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:25:48 +0000
Subject: [PATCH 21/42] fix: construct a bitset with any 64-bit storage element

For a 64-bit element other than std::uint64_t (unsigned long long here)
the constructor shifted the value by 64, which is undefined and repeated
the value in later elements.
---
 include/stdx/bitset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index f09e3d3..aab435e 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -176,7 +176,8 @@ class bitset {
   public:
     constexpr bitset() = default;
     constexpr explicit bitset(std::uint64_t value) {
-        if constexpr (std::is_same_v<elem_t, std::uint64_t>) {
+        if constexpr (storage_elem_size >=
+                      std::numeric_limits<std::uint64_t>::digits) {
             storage[0] = value;
         } else {
             for (auto &elem : storage) {
-- 
2.43.0


From def5a6e470f704b42ee8387bd68a4add03ef3198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:42 +0000
Subject: [PATCH 22/42] fix: for_each_butlastn over iterators from namespace
 std picked std::for_each_n

The random access form called for_each_n unqualified. With an iterator whose
associated namespaces include std and <algorithm> included, overload resolution
chose std::for_each_n, so the call returned an iterator instead of the tuple
of function and iterators.
---
 include/stdx/algorithm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/algorithm.hpp b/include/stdx/algorithm.hpp
index d2ccb99..926783a 100644
--- a/include/stdx/algorithm.hpp
+++ b/include/stdx/algorithm.hpp
@@ -93,7 +93,8 @@ constexpr auto for_each_butlastn(std::random_access_iterator_tag, RandIt first,
                                  RandIt last, N n, Operation op,
                                  RandItN... first_n) {
     auto const sz = std::distance(first, last);
-    return for_each_n(first, sz - static_cast<decltype(sz)>(n), op, first_n...);
+    return stdx::for_each_n(first, sz - static_cast<decltype(sz)>(n), op,
+                            first_n...);
 }
 } // namespace detail
 
-- 
2.43.0


From 9dd5fe902f5523436598db0612224a5c8115bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:35:00 +0000
Subject: [PATCH 23/42] fix: structured bindings of tuples with reference to
 const or const elements

std::tuple_element dropped the reference and const of the element type, so
the hidden variable of a structured binding could not bind to the element.
---
 include/stdx/tuple_destructure.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stdx/tuple_destructure.hpp b/include/stdx/tuple_destructure.hpp
index 907aaef..a6ee973 100644
--- a/include/stdx/tuple_destructure.hpp
+++ b/include/stdx/tuple_destructure.hpp
@@ -14,8 +14,7 @@ struct std::tuple_size<stdx::tuple<Ts...>>
     : std::integral_constant<std::size_t, sizeof...(Ts)> {};
 template <std::size_t I, typename... Ts>
 struct std::tuple_element<I, stdx::tuple<Ts...>>
-    : std::type_identity<std::remove_cvref_t<
-          decltype(std::declval<stdx::tuple<Ts...>>()[stdx::index<I>])>> {};
+    : std::type_identity<stdx::tuple_element_t<I, stdx::tuple<Ts...>>> {};
 
 template <typename IL, typename... Ts>
 struct std::tuple_size<stdx::indexed_tuple<IL, Ts...>>
@@ -23,8 +22,7 @@ struct std::tuple_size<stdx::indexed_tuple<IL, Ts...>>
 template <std::size_t I, typename IL, typename... Ts>
 struct std::tuple_element<I, stdx::indexed_tuple<IL, Ts...>>
     : std::type_identity<
-          std::remove_cvref_t<decltype(std::declval<stdx::indexed_tuple<
-                                           IL, Ts...>>()[stdx::index<I>])>> {};
+          stdx::tuple_element_t<I, stdx::indexed_tuple<IL, Ts...>>> {};
 
 // NOLINTEND(bugprone-std-namespace-modification)
 
-- 
2.43.0


From 47b4050d9aa98e8b6e9e9a1ff831d001ac7256ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:35:00 +0000
Subject: [PATCH 24/42] fix: tuple_cat of a single temporary tuple moves from
 it

The one-argument case returned a copy, so move-only elements were rejected.
---
 include/stdx/tuple_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index 5842c0a..9f55ad4 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -66,7 +66,7 @@ template <tuplelike... Ts> [[nodiscard]] constexpr auto tuple_cat(Ts &&...ts) {
     if constexpr (sizeof...(Ts) == 0) {
         return stdx::tuple<>{};
     } else if constexpr (sizeof...(Ts) == 1) {
-        return (ts, ...);
+        return (std::forward<Ts>(ts), ...);
     } else {
         constexpr auto total_num_elements =
             (std::size_t{} + ... + stdx::tuple_size_v<std::remove_cvref_t<Ts>>);
-- 
2.43.0


From 5fc9e2b5e5f4cb633675f4999a3029791e242d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:43 +0000
Subject: [PATCH 25/42] fix: bound functions return what the wrapped function
 returns

The call operators of bind_front and bind_back returned by value, so a
function returning a reference gave a copy.
---
 include/stdx/functional.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/stdx/functional.hpp b/include/stdx/functional.hpp
index c5355b9..4317018 100644
--- a/include/stdx/functional.hpp
+++ b/include/stdx/functional.hpp
@@ -41,13 +41,15 @@ struct bind_front_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return f(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return f(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return std::move(f)(get<Is>(std::move(t))...,
                             std::forward<Args>(args)...);
     }
@@ -70,13 +72,15 @@ struct bind_front_value_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return F(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return F(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return F(get<Is>(std::move(t))..., std::forward<Args>(args)...);
     }
 };
@@ -97,13 +101,15 @@ struct bind_back_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return f(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return f(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return std::move(f)(std::forward<Args>(args)...,
                             get<Is>(std::move(t))...);
     }
@@ -126,13 +132,15 @@ struct bind_back_value_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return F(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return F(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return F(std::forward<Args>(args)..., get<Is>(std::move(t))...);
     }
 };
-- 
2.43.0


From 8a0a12947dd1f6fba777488b58ac38206798542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:29 +0000
Subject: [PATCH 26/42] fix: function_traits of noexcept functions

The signature of a noexcept function did not match any specialization, so
its traits, and arity in particular, did not compile.
---
 include/stdx/function_traits.hpp | 74 ++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/include/stdx/function_traits.hpp b/include/stdx/function_traits.hpp
index 05adb7d..e16b65e 100644
--- a/include/stdx/function_traits.hpp
+++ b/include/stdx/function_traits.hpp
@@ -18,7 +18,8 @@ template <auto> struct any_type {
 
 template <typename F> struct function_traits;
 
-template <typename R, typename... Args> struct function_traits<R(Args...)> {
+template <typename R, typename... Args, bool NE>
+struct function_traits<R(Args...) noexcept(NE)> {
     using return_type = R;
 
     template <template <typename...> typename List> using args = List<Args...>;
@@ -35,83 +36,90 @@ template <typename R, typename... Args> struct function_traits<R(Args...)> {
         -> std::invoke_result_t<R(Args...), any_type<Is>...>;
 };
 
-template <typename R, typename... Args>
-struct function_traits<R (*)(Args...)> : function_traits<R(Args...)> {};
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*const)(Args...)> : function_traits<R(Args...)> {};
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*const)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*volatile)(Args...)> : function_traits<R(Args...)> {};
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*volatile)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {};
 
-template <typename R, typename... Args>
-struct function_traits<R (*const volatile)(Args...)>
+template <typename R, typename... Args, bool NE>
+struct function_traits<R (*const volatile)(Args...) noexcept(NE)>
     : function_traits<R(Args...)> {};
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...)> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) &> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) & noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const &>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const & noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile &>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) volatile & noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile &>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const volatile & noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile &;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) &&> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) && noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const &&>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const && noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile &&>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) volatile && noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile &&>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const volatile && noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile &&;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const> : function_traits<R(Args...)> {
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const noexcept(NE)>
+    : function_traits<R(Args...)> {
     using obj_t = C const;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) volatile>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) volatile noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C volatile;
 };
 
-template <typename C, typename R, typename... Args>
-struct function_traits<R (C::*)(Args...) const volatile>
+template <typename C, typename R, typename... Args, bool NE>
+struct function_traits<R (C::*)(Args...) const volatile noexcept(NE)>
     : function_traits<R(Args...)> {
     using obj_t = C const volatile;
 };
-- 
2.43.0


From 425ab78f8c2950f51facfdf5e229ab822b4a34dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:48:51 +0000
Subject: [PATCH 27/42] fix: arity of functions with lvalue reference
 parameters

arity_t always tried the search meant for generic functions, which has no
answer for such parameters, even when the signature is known.
---
 include/stdx/function_traits.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdx/function_traits.hpp b/include/stdx/function_traits.hpp
index e16b65e..cc95660 100644
--- a/include/stdx/function_traits.hpp
+++ b/include/stdx/function_traits.hpp
@@ -180,9 +180,10 @@ template <typename F, typename N> struct generic_arity {
 } // namespace detail
 
 template <typename F>
-using arity_t = boost::mp11::mp_eval_or<
-    detail::generic_arity_t<F, std::integral_constant<std::size_t, 0u>>,
-    nongeneric_arity_t, F>;
+using arity_t = typename boost::mp11::mp_if<
+    boost::mp11::mp_valid<nongeneric_arity_t, F>,
+    boost::mp11::mp_defer<nongeneric_arity_t, F>,
+    detail::generic_arity<F, std::integral_constant<std::size_t, 0u>>>::type;
 template <typename F> constexpr auto arity_v = arity_t<F>::value;
 } // namespace v1
 } // namespace stdx
-- 
2.43.0


From 0658d1edff01ce76a3a8e4a546959c171aad6f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:49:37 +0000
Subject: [PATCH 28/42] fix: for_each_n_args with functions taking lvalue
 references

The arity was looked up for the reference type the function was deduced as,
so a plain function or function pointer was treated as a generic callable.
---
 include/stdx/for_each_n_args.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/for_each_n_args.hpp b/include/stdx/for_each_n_args.hpp
index 5039028..04281c0 100644
--- a/include/stdx/for_each_n_args.hpp
+++ b/include/stdx/for_each_n_args.hpp
@@ -5,6 +5,7 @@
 
 #include <cstddef>
 #include <functional>
+#include <type_traits>
 #include <utility>
 
 namespace stdx {
@@ -32,7 +33,7 @@ template <std::size_t N = 0, typename F, typename... Args>
 void for_each_n_args(F &&f, Args &&...args) {
     constexpr auto batch_size = [] {
         if constexpr (N == 0) {
-            return arity_t<F>::value;
+            return arity_t<std::remove_cvref_t<F>>::value;
         } else {
             return N;
         }
-- 
2.43.0


From 99750305062f48e9abbd7901821fdf00f4e403a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:54:24 +0000
Subject: [PATCH 29/42] fix: splitting a ct_string without a null character at
 the null character

---
 include/stdx/ct_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/ct_string.hpp b/include/stdx/ct_string.hpp
index 0881b9e..4eabc1b 100644
--- a/include/stdx/ct_string.hpp
+++ b/include/stdx/ct_string.hpp
@@ -101,7 +101,7 @@ using ct_string_to_type_t = decltype(ct_string_to_type<S, T>());
 
 template <ct_string S, char C> [[nodiscard]] consteval auto split() {
     constexpr auto it = [] {
-        for (auto i = S.value.cbegin(); i != S.value.cend(); ++i) {
+        for (auto i = S.value.cbegin(); i != S.end(); ++i) {
             if (*i == C) {
                 return i;
             }
-- 
2.43.0


From b33d2a8a89402d2a85a9836ae73772a37c8101c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:55:18 +0000
Subject: [PATCH 30/42] fix: names of types and enumerators containing an
 equals sign

---
 include/stdx/ct_conversions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/ct_conversions.hpp b/include/stdx/ct_conversions.hpp
index 0cd9005..07aa7d5 100644
--- a/include/stdx/ct_conversions.hpp
+++ b/include/stdx/ct_conversions.hpp
@@ -21,7 +21,7 @@ consteval static auto type_as_string() -> std::string_view {
                   "Unknown compiler, can't build type name.");
 #endif
 
-    constexpr auto lhs = function_name.rfind('=', rhs) + 2;
+    constexpr auto lhs = function_name.find('=') + 2;
     return function_name.substr(lhs, rhs - lhs + 1);
 }
 
@@ -44,7 +44,7 @@ consteval static auto enum_as_string() -> std::basic_string_view<char> {
 #endif
     constexpr auto qual_str = [&]() -> std::string_view {
         constexpr auto rhs = value_string.size() - 2;
-        if (auto const eq_pos = value_string.find_last_of('=');
+        if (auto const eq_pos = value_string.find('=');
             eq_pos != std::string_view::npos) {
             auto const lhs = eq_pos + 2;
             return value_string.substr(lhs, rhs - lhs + 1);
-- 
2.43.0


From 2edadcf77cf4258e2599d2684957f6fc1547a736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:07:35 +0000
Subject: [PATCH 31/42] fix: apply_sequence and template_for_each over
 stdx::make_integer_sequence

---
 include/stdx/utility.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 6f0f303..27eef13 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -278,6 +278,15 @@ using make_index_sequence = make_integer_sequence<std::size_t, N>;
 template <typename... Ts>
 using index_sequence_for = make_index_sequence<sizeof...(Ts)>;
 
+namespace detail {
+template <typename T, T N>
+struct for_each_t<make_integer_sequence<T, N>>
+    : for_each_t<std::make_integer_sequence<T, N>> {};
+template <typename T, T N>
+struct apply_sequence_t<make_integer_sequence<T, N>>
+    : apply_sequence_t<std::make_integer_sequence<T, N>> {};
+} // namespace detail
+
 template <std::size_t I, typename T, T N>
 constexpr auto get(make_integer_sequence<T, N>) {
     return std::integral_constant<T, I>{};
-- 
2.43.0


From 696efce077a30ac52b1966ab06d618295a1e3c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:17:49 +0000
Subject: [PATCH 32/42] fix: type_map lookups of const, array, function and
 abstract class types

---
 include/stdx/utility.hpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 27eef13..92b4e76 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -47,30 +47,33 @@ template <typename... Ts> using type_map = shrink_t<detail::type_map<Ts...>>;
 
 namespace detail {
 template <typename K, typename Default>
-constexpr static auto lookup(...) -> Default;
+constexpr static auto lookup(...) -> type_identity<Default>;
 template <typename K, typename Default, typename V>
-constexpr static auto lookup(type_pair<K, V>) -> V;
+constexpr static auto lookup(type_pair<K, V>) -> type_identity<V>;
 
 template <typename V, typename Default>
-constexpr static auto reverse_lookup(...) -> Default;
+constexpr static auto reverse_lookup(...) -> type_identity<Default>;
 template <typename V, typename Default, typename K>
-constexpr static auto reverse_lookup(type_pair<K, V>) -> K;
+constexpr static auto reverse_lookup(type_pair<K, V>) -> type_identity<K>;
 } // namespace detail
 
 template <typename M, typename K, typename Default = void>
-using type_lookup_t = decltype(detail::lookup<K, Default>(expand<M>()));
+using type_lookup_t =
+    typename decltype(detail::lookup<K, Default>(expand<M>()))::type;
 
 template <typename M, typename V, typename Default = void>
 using reverse_type_lookup_t =
-    decltype(detail::reverse_lookup<V, Default>(expand<M>()));
+    typename decltype(detail::reverse_lookup<V, Default>(expand<M>()))::type;
 
 template <typename M, auto K, typename Default = void>
 using value_lookup_t =
-    decltype(detail::lookup<detail::value_t<K>, Default>(expand<M>()));
+    typename decltype(detail::lookup<detail::value_t<K>, Default>(
+        expand<M>()))::type;
 
 template <typename M, auto V, typename Default = void>
 using reverse_value_lookup_t =
-    decltype(detail::reverse_lookup<detail::value_t<V>, Default>(expand<M>()));
+    typename decltype(detail::reverse_lookup<detail::value_t<V>, Default>(
+        expand<M>()))::type;
 
 namespace detail {
 template <typename T>
@@ -79,27 +82,22 @@ using is_not_void = std::bool_constant<not std::is_void_v<T>>;
 
 template <typename M, typename K, auto Default = 0>
 constexpr static auto type_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::lookup<K, void>(expand<M>())),
+    type_or_t<detail::is_not_void, type_lookup_t<M, K>,
               detail::value_t<Default>>::value;
 
 template <typename M, typename V, auto Default = 0>
 constexpr static auto reverse_type_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::reverse_lookup<V, void>(expand<M>())),
+    type_or_t<detail::is_not_void, reverse_type_lookup_t<M, V>,
               detail::value_t<Default>>::value;
 
 template <typename M, auto K, auto Default = 0>
 constexpr static auto value_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::lookup<detail::value_t<K>, void>(expand<M>())),
+    type_or_t<detail::is_not_void, value_lookup_t<M, K>,
               detail::value_t<Default>>::value;
 
 template <typename M, auto V, auto Default = 0>
 constexpr static auto reverse_value_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::reverse_lookup<detail::value_t<V>, void>(
-                  expand<M>())),
+    type_or_t<detail::is_not_void, reverse_value_lookup_t<M, V>,
               detail::value_t<Default>>::value;
 
 template <typename T, typename U>
-- 
2.43.0


From 111ec17fdede6e8730f3d46c985a57c4bd66e912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:25:36 +0000
Subject: [PATCH 33/42] fix: dereferencing a counting_iterator in constant
 expressions

---
 include/stdx/iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/iterator.hpp b/include/stdx/iterator.hpp
index 90f7acc..28628f7 100644
--- a/include/stdx/iterator.hpp
+++ b/include/stdx/iterator.hpp
@@ -44,8 +44,8 @@ struct counting_iterator {
     using const_pointer = T const *;
     using iterator_category = std::contiguous_iterator_tag;
 
-    auto operator*() -> reference { return i; }
-    auto operator*() const -> const_reference { return i; }
+    constexpr auto operator*() -> reference { return i; }
+    constexpr auto operator*() const -> const_reference { return i; }
 
     constexpr auto operator++() -> counting_iterator & {
         ++i;
-- 
2.43.0


From a527d4f6ff0754d1dec6574e0aecb553da5e702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:27:40 +0000
Subject: [PATCH 34/42] fix: emplacing and resetting an optional in constant
 expressions

---
 include/stdx/optional.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index a8bb172..4f55764 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -185,14 +185,18 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
 
     template <typename... Args>
     constexpr auto emplace(Args &&...args) LIFETIMEBOUND -> value_type & {
-        val.~value_type();
-        new (std::addressof(val)) value_type(std::forward<Args>(args)...);
+        std::destroy_at(std::addressof(val));
+        std::construct_at(std::addressof(val), std::forward<Args>(args)...);
         return value();
     }
 
     constexpr auto reset() {
-        val.~value_type();
-        new (std::addressof(val)) value_type(traits());
+        std::destroy_at(std::addressof(val));
+        if constexpr (std::is_move_constructible_v<value_type>) {
+            std::construct_at(std::addressof(val), traits());
+        } else {
+            new (std::addressof(val)) value_type(traits());
+        }
     }
 
     template <typename F> constexpr auto transform(F &&f) & {
-- 
2.43.0


From db8a63b32cc47810c53747138a9d59f5d46994c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:05:00 +0000
Subject: [PATCH 35/42] fix: keep const in the element types of a tuple

Without __type_pack_element the element type was read from the return type
of a function. A const-qualified scalar return type loses its const, so
tuple_element_t of tuple<int const> was int.
---
 include/stdx/tuple.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index ad1a341..9ad4947 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -57,7 +57,7 @@ template <std::size_t Index, typename T, typename... Ts> struct element {
 #if __has_builtin(__type_pack_element)
     using type = T;
 #else
-    constexpr static auto ugly_Value(index_constant<Index>) -> T;
+    constexpr static auto ugly_Value(index_constant<Index>) -> type_identity<T>;
 
     [[nodiscard]] constexpr auto
     ugly_iGet_clvr(index_constant<Index>) const & noexcept LIFETIMEBOUND
@@ -186,9 +186,10 @@ struct tuple_impl<std::index_sequence<Is...>, index_function_list<Fs...>, Ts...>
     template <std::size_t I>
     using element_t = typename base_t<I, __type_pack_element<I, Ts...>>::type;
 #else
-    constexpr static auto ugly_Value(...) -> void;
+    constexpr static auto ugly_Value(...) -> type_identity<void>;
     using base_t<Is, Ts>::ugly_Value...;
-    template <std::size_t I> using element_t = decltype(ugly_Value(index<I>));
+    template <std::size_t I>
+    using element_t = typename decltype(ugly_Value(index<I>))::type;
 
     using base_t<Is, Ts>::ugly_iGet_clvr...;
     using base_t<Is, Ts>::ugly_iGet_lvr...;
-- 
2.43.0


From 2facd6f858766d1fb31f9460390fa1efe09fd4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:46:28 +0000
Subject: [PATCH 36/42] fix: refuse to compare tuples of different lengths

Tuples that share exactly one element type at the same position could be
compared through that element alone: tuple<int, int>{1, 2} == tuple<int>{1}
compiled and was true. The operators of a single element are now deleted.
---
 include/stdx/tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index 9ad4947..29294e9 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -106,9 +106,9 @@ template <std::size_t Index, typename T, typename... Ts> struct element {
 
   private:
     [[nodiscard]] friend auto operator==(element const &, element const &)
-        -> bool = default;
+        -> bool = delete;
     [[nodiscard]] friend auto operator<=>(element const &,
-                                          element const &) = default;
+                                          element const &) = delete;
 };
 
 template <typename Op, typename Value> struct fold_helper {
-- 
2.43.0


From 55a3478f909537a24d1f38721bbe144f8adf84c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:46:44 +0000
Subject: [PATCH 37/42] fix: refuse a fixed-size span of a shorter fixed-size
 span

A span of fixed extent made from an array checks that it does not extend
beyond the array. The same now holds when it is made from another span:
span<int, 5>{span<int, 3>{...}} compiled and viewed two elements past the end.
---
 include/stdx/span.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stdx/span.hpp b/include/stdx/span.hpp
index 4f6f1e7..62469ea 100644
--- a/include/stdx/span.hpp
+++ b/include/stdx/span.hpp
@@ -120,7 +120,12 @@ class span : public detail::span_base<T, Extent> {
     template <typename R>
         requires(dependent_extent<R> != dynamic_extent)
     explicit constexpr span(R &&r)
-        : ptr{std::to_address(std::begin(std::forward<R>(r)))} {}
+        : ptr{std::to_address(std::begin(std::forward<R>(r)))} {
+        if constexpr (requires { std::remove_cvref_t<R>::extent; }) {
+            static_assert(Extent <= std::remove_cvref_t<R>::extent,
+                          "Span extends beyond available storage");
+        }
+    }
 
     template <typename R>
         requires(dependent_extent<R> == dynamic_extent)
@@ -135,7 +140,10 @@ class span : public detail::span_base<T, Extent> {
     template <class U, std::size_t N>
         requires(dependent_extent<U> == dynamic_extent or N != dynamic_extent)
     constexpr explicit(false) span(span<U, N> const &s) noexcept
-        : base_t{s.data(), s.size()}, ptr{s.data()} {}
+        : base_t{s.data(), s.size()}, ptr{s.data()} {
+        static_assert(Extent == dynamic_extent or Extent <= N,
+                      "Span extends beyond available storage");
+    }
 
     [[nodiscard]] constexpr auto data() const noexcept -> pointer {
         return ptr;
-- 
2.43.0


From 0af1646833929c4a8656f14317d28fb20bed9dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:52:23 +0000
Subject: [PATCH 38/42] fix: accept conditions with a greater-than sign in
 STATIC_ASSERT

The condition was used as a template argument without parentheses, so
STATIC_ASSERT(a > b, "...") did not compile whatever the values.
---
 include/stdx/static_assert.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/static_assert.hpp b/include/stdx/static_assert.hpp
index 6994bb0..4fc4c0c 100644
--- a/include/stdx/static_assert.hpp
+++ b/include/stdx/static_assert.hpp
@@ -37,7 +37,7 @@ template <bool B> constexpr auto ct_check = ct_check_t<B>{};
         static_assert(B, std::string_view{+S.str});                            \
         STDX_PRAGMA(diagnostic pop)                                            \
         return B;                                                              \
-    }.template operator()<cond>()
+    }.template operator()<(cond)>()
 
 #else
 
@@ -47,5 +47,5 @@ template <bool B> constexpr auto ct_check = ct_check_t<B>{};
         constexpr auto S = STDX_CT_FORMAT(__VA_ARGS__);                        \
         stdx::detail::ct_check<B>.template emit<S>();                          \
         return B;                                                              \
-    }.template operator()<cond>()
+    }.template operator()<(cond)>()
 #endif
-- 
2.43.0


From 0d2343e7bd16b333e1bfeaea7975f053d0a443d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:40:10 +0000
Subject: [PATCH 39/42] fix: let STDX_PANIC pass arguments that are local
 variables

---
 include/stdx/panic.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/stdx/panic.hpp b/include/stdx/panic.hpp
index e7db393..3bb2800 100644
--- a/include/stdx/panic.hpp
+++ b/include/stdx/panic.hpp
@@ -29,10 +29,6 @@ auto panic(Args &&...args) -> void {
 
 // NOLINTBEGIN(cppcoreguidelines-macro-usage)
 
-#define STDX_PANIC(MSG, ...)                                                   \
-    []() -> void {                                                             \
-        using stdx::ct_string_literals::operator""_cts;                        \
-        stdx::panic<MSG##_cts>(__VA_ARGS__);                                   \
-    }()
+#define STDX_PANIC(MSG, ...) stdx::panic<MSG>(__VA_ARGS__)
 
 // NOLINTEND(cppcoreguidelines-macro-usage)
-- 
2.43.0


From 1585ed4eeb67e8120106b08ff4e004a83a05be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:31 +0000
Subject: [PATCH 40/42] fix: refuse the type of an element beyond the end of an
 array

tuple_element_t gave the element type of a std::array for any index, so an
index past the end was not noticed. Pairs, spans and integer sequences
already refuse it.
---
 include/stdx/type_traits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdx/type_traits.hpp b/include/stdx/type_traits.hpp
index 9381289..c1d127a 100644
--- a/include/stdx/type_traits.hpp
+++ b/include/stdx/type_traits.hpp
@@ -340,6 +340,7 @@ using tuple_element_t = typename tuple_element<I, T>::type;
 
 template <std::size_t I, typename T, std::size_t N>
 struct tuple_element<I, std::array<T, N>> {
+    static_assert(I < N);
     using type = T;
 };
 
-- 
2.43.0


From cddd53d223c812863a66062375e3a5ff589bcd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:31 +0000
Subject: [PATCH 41/42] fix: refuse elements beyond the end of an integer
 sequence

stdx::get and std::tuple_element gave a constant for any index of a
stdx::make_integer_sequence. Only stdx::tuple_element refused an index past
the end.
---
 include/stdx/utility.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 92b4e76..cae6ac6 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -286,6 +286,7 @@ struct apply_sequence_t<make_integer_sequence<T, N>>
 } // namespace detail
 
 template <std::size_t I, typename T, T N>
+    requires(I < N)
 constexpr auto get(make_integer_sequence<T, N>) {
     return std::integral_constant<T, I>{};
 }
@@ -308,7 +309,7 @@ struct std::tuple_size<stdx::make_integer_sequence<T, N>>
     : std::integral_constant<std::size_t, N> {};
 template <std::size_t I, typename T, T N>
 struct std::tuple_element<I, stdx::make_integer_sequence<T, N>>
-    : stdx::type_identity<std::integral_constant<T, I>> {};
+    : stdx::tuple_element<I, stdx::make_integer_sequence<T, N>> {};
 
 // NOLINTEND(bugprone-std-namespace-modification)
 
-- 
2.43.0


From a3eaa6998b92a5ed15037fd74dd34f4d4668a641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:49 +0000
Subject: [PATCH 42/42] fix: group equal types when different types have the
 same name

Sorting by name alone left equal types apart when another type with the
same name stood between them, as two closures of one function have. Then
gather made two groups of one type and to_sorted_set kept a type twice.
Ties between names are now broken by the first position of the type.
---
 include/stdx/tuple_algorithms.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index 9f55ad4..61fa36b 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -329,9 +329,14 @@ template <tuplelike T, template <typename> typename Proj = std::type_identity_t>
 [[nodiscard]] constexpr auto sorted_indices() {
     return []<std::size_t... Is>(std::index_sequence<Is...>)
         ->std::array<std::size_t, sizeof...(Is)> {
-        using P = std::pair<std::string_view, std::size_t>;
+        using L [[maybe_unused]] = type_list<Proj<tuple_element_t<Is, T>>...>;
+        // different types can have the same name
+        using K = std::pair<std::string_view, std::size_t>;
+        using P = std::pair<K, std::size_t>;
         auto a = std::array<P, sizeof...(Is)>{
-            P{stdx::type_as_string<Proj<tuple_element_t<Is, T>>>(), Is}...};
+            P{K{stdx::type_as_string<Proj<tuple_element_t<Is, T>>>(),
+                boost::mp11::mp_find<L, Proj<tuple_element_t<Is, T>>>::value},
+              Is}...};
         std::sort(a.begin(), a.end(), [](auto const &p1, auto const &p2) {
             return p1.first < p2.first;
         });
-- 
2.43.0

