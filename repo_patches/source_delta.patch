From 3c3fff3704e1232c311a2361754b25c9c6740afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:12 +0000
Subject: [PATCH 01/20] fix: expand both packs when constructing a
 compressed_tuple

static_cast<Ts...>(values)... names the whole pack as the target type, which
is ill-formed for every arity on a conforming compiler. Cast each value to its
own element type, forwarding it so that move-only elements can be stored.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 0e1bb53..4437826 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -56,7 +56,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
     template<typename... Us>
     explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
       : compressed_tuple_base_t<Ts...>{
-            make_compressed_tuple_base<Ts...>(static_cast<Ts...>(values)...)
+            make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
 };
 
-- 
2.43.0


From baaf904991e9ae3b0c82aa1a5fb0bb9829247529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:12 +0000
Subject: [PATCH 02/20] fix: make the stateless compressed_tuple_element
 overload selectable

A by-value parameter and a forwarding reference are never ordered, so the
empty constraint was not considered and every stateless element was ambiguous.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 4437826..8b96d2d 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -16,7 +16,7 @@
 namespace pigro {
 
 template<size_t tag, concepts::empty T>
-auto compressed_tuple_element(T) {
+auto compressed_tuple_element(T &&) {
     return [](auto &&, idx_t<tag>) {
         return empty_object<std::remove_cvref_t<T>>::get();
     };
-- 
2.43.0


From e4cc31be8f468dd729d7434e50d092a1538efd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:12 +0000
Subject: [PATCH 03/20] fix: qualify the empty concept in uncapture.h

---
 src/pigro/uncapture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/uncapture.h b/src/pigro/uncapture.h
index 7220485..a5ed048 100644
--- a/src/pigro/uncapture.h
+++ b/src/pigro/uncapture.h
@@ -17,7 +17,7 @@ struct Uncaptured {
     auto &get_value() { return value; }
 };
 
-template<empty T, size_t tag>
+template<concepts::empty T, size_t tag>
 struct Uncaptured<T, tag> {
     Uncaptured(T) {}
 
-- 
2.43.0


From cc0055f4931d39d94ba80013c978935de95d1c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:34 +0000
Subject: [PATCH 04/20] fix: never offer the internal element tags to a bound
 callable

Reading the bound callable or tuple back (self(idx<0>)) also considered the
call overload with the tag as an argument, which instantiates the body of the
user callable for the tag: a hard error for any callable with a deduced return
type that cannot take it.
---
 src/pigro/bind_tuple.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 337c0d4..9e32bc1 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -17,12 +17,21 @@ auto bind_back(auto &&f, auto &&...back_args) {
     };
 }
 
+template<typename T>
+constexpr auto is_idx = false;
+
+template<size_t index>
+constexpr auto is_idx<idx_t<index>> = true;
+
+template<typename T>
+concept argument = !is_idx<std::remove_cvref_t<T>>;
+
 auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
-          [](auto &&self, auto &&...args)
+          [](auto &&self, argument auto &&...args)
             -> decltype(pigro::apply(bind_back(f, FWD(args)...), t)) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
@@ -38,7 +47,7 @@ auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
         overload{
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
-          [](auto &&self, auto &&...args)
+          [](auto &&self, argument auto &&...args)
             -> decltype(pigro::apply(std::bind_front(f, FWD(args)...), t)) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
-- 
2.43.0


From c03f4d1de7cc965ca556d972637a79374eac5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:03 +0000
Subject: [PATCH 05/20] fix: forward call arguments through bound tuples and
 keep the callable in place

operator<< went through std::bind_front, which copies the stored callable and
the arguments on every call: state kept by the callable was lost, and a
callable taking an lvalue reference was rejected. operator>> passed rvalue
arguments on as lvalues, so a move-only argument passed overload resolution
and then failed to compile.
---
 src/pigro/bind_tuple.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 9e32bc1..537ade8 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -26,17 +26,31 @@ constexpr auto is_idx<idx_t<index>> = true;
 template<typename T>
 concept argument = !is_idx<std::remove_cvref_t<T>>;
 
+// As bind_back() and std::bind_front(), but for use within a single call: refers
+// to the callable and the arguments, and forwards the latter.
+auto refer_back(auto &f, auto &&...back_args) {
+    return [&](auto &&...front_args) -> decltype(std::invoke(f, FWD(front_args)..., FWD(back_args)...)) {
+        return std::invoke(f, FWD(front_args)..., FWD(back_args)...);
+    };
+}
+
+auto refer_front(auto &f, auto &&...front_args) {
+    return [&](auto &&...back_args) -> decltype(std::invoke(f, FWD(front_args)..., FWD(back_args)...)) {
+        return std::invoke(f, FWD(front_args)..., FWD(back_args)...);
+    };
+}
+
 auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
           [](auto &&self, argument auto &&...args)
-            -> decltype(pigro::apply(bind_back(f, FWD(args)...), t)) {
+            -> decltype(pigro::apply(refer_back(f, FWD(args)...), t)) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
 
-              return pigro::apply(bind_back(f, FWD(args)...), t);
+              return pigro::apply(refer_back(f, FWD(args)...), t);
           },
         }
     };
@@ -48,11 +62,11 @@ auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
           [](auto &&self, argument auto &&...args)
-            -> decltype(pigro::apply(std::bind_front(f, FWD(args)...), t)) {
+            -> decltype(pigro::apply(refer_front(f, FWD(args)...), t)) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
 
-              return pigro::apply(std::bind_front(f, FWD(args)...), t);
+              return pigro::apply(refer_front(f, FWD(args)...), t);
           },
         }
     };
-- 
2.43.0


From 6199c0f41d819b905b85b11e686d60882fd24d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:30 +0000
Subject: [PATCH 06/20] fix: call the stored function, not a copy of it, in the
 void adapters

The adapters took the stored function by value, so state it kept (such as the
cache of a lazy function) was discarded after every call.
---
 src/pigro/regular_void.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pigro/regular_void.h b/src/pigro/regular_void.h
index 77504f9..699b007 100644
--- a/src/pigro/regular_void.h
+++ b/src/pigro/regular_void.h
@@ -13,7 +13,7 @@ struct regular_void {
 };
 
 constexpr auto regularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
+    return compressed_tuple{ f } >> [](auto &&f, auto... args) mutable {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, void>) {
@@ -26,7 +26,7 @@ constexpr auto regularized_void(auto f) {
 }
 
 constexpr auto unregularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
+    return compressed_tuple{ f } >> [](auto &&f, auto... args) mutable {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, regular_void>) {
-- 
2.43.0


From 99a8f40af65f24a7f5d5aeafc252fb7eb39146fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:03 +0000
Subject: [PATCH 07/20] fix: make lazy functions keep their cache

The facade of a lazy function bound itself as an lvalue argument through
operator<<, which no overload accepted, so no lazy function could be called;
and the function, its cache and its dependencies were taken by value, so what
they remembered would have been discarded after every call. Use the facade of
the documented design, and refer to the stored function and dependencies.
---
 src/pigro/lazy.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 4fc51ce..b47c702 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -33,12 +33,11 @@ constexpr auto is_changed = [](const concepts::lazy_result auto result) {
 };
 
 constexpr auto unwrap_value(concepts::lazy_function auto f) {
-    return recursive{
-        overload{
-          compressed_tuple{ f } << [](auto &self, std::nullptr_t, auto f) { return f(nullptr); },
-          [](auto &self) mutable {
-              return self(nullptr).value;
-          },
+    return [=](std::same_as<std::nullptr_t> auto... marker) mutable requires(sizeof...(marker) <= 1) {
+        if constexpr (sizeof...(marker) == 0) {
+            return f(nullptr).value;
+        } else {
+            return f(nullptr);
         }
     };
 }
@@ -47,7 +46,7 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
     using result_t = decltype(f(deps(nullptr).value...));
 
     auto cache = std::optional<result_t>{};
-    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto f, auto... deps) mutable {
+    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto &&f, auto &&...deps) mutable {
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
@@ -81,7 +80,7 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
 
 constexpr auto ensure_lazy(::std::invocable auto dep) {
     return detail::lazy(
-      compressed_tuple{ dep } << [](auto, auto dep) mutable { return dep(); },
+      compressed_tuple{ dep } << [](auto, auto &&dep) mutable { return dep(); },
       lazy_value(0, std::true_type{}));
 }
 
-- 
2.43.0


From 2774335e540fb0a6e1bcf025841cfaaf866b0290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:03 +0000
Subject: [PATCH 08/20] fix: return value dependencies by value

LazyResult{ value, changed } deduces a reference, here to a parameter that is
gone by the time the result is used.
---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index b47c702..9c7e3ef 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -67,7 +67,7 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
 
 constexpr auto lazy_value(auto value, auto changed) {
     return compressed_tuple{ value, changed } << [](std::nullptr_t, auto value, auto changed) {
-        return LazyResult{
+        return LazyResult<decltype(value)>{
             value,
             changed,
         };
-- 
2.43.0


From 8893296aab180b5a3242d79961e71dbb4db51a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:20 +0000
Subject: [PATCH 09/20] fix: keep one element per projected value in
 transform()

std::tuple{ x } copies x when x is itself a tuple (or unpacks it when it is a
pair), so projecting a one-element tuple to a tuple lost a level; a lazy
function could not take a pair or a tuple from its only dependency.
---
 src/pigro/tuple_algorithms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/tuple_algorithms.h b/src/pigro/tuple_algorithms.h
index 0cd2496..dec2be3 100644
--- a/src/pigro/tuple_algorithms.h
+++ b/src/pigro/tuple_algorithms.h
@@ -7,7 +7,7 @@ namespace pigro {
 
 constexpr auto transform(const auto &data, auto projection) {
     return std::apply([=](const auto &...args) {
-        return std::tuple{ projection(args)... };
+        return std::tuple<std::decay_t<decltype(projection(args))>...>{ projection(args)... };
     },
       data);
 }
-- 
2.43.0


From b22da53320773bd1796e6b9b5f12da01308e8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:42 +0000
Subject: [PATCH 10/20] fix: let tuple_like answer false instead of failing to
 compile

Naming the incomplete std::tuple_size<T> of a type that is not a tuple is
well-formed, so the check went on to read its value, which is a hard error. As
the concept constrains operator<< and operator>>, any stream insertion that
considered them failed to compile.
---
 src/pigro/concepts.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 59551d6..37db03c 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -31,7 +31,7 @@ concept has_tuple_element =
 
 template<class T>
 concept tuple_like = requires {
-    typename std::tuple_size<std::remove_reference_t<T>>;
+    std::tuple_size<std::remove_reference_t<T>>::value;
     std::same_as<decltype(std::tuple_size_v<std::remove_reference_t<T>>), size_t>;
 }
 &&[]<std::size_t... I>(std::index_sequence<I...>) {
-- 
2.43.0


From c25a742e6822833eab5ba4a786f915b7d3c613ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:45 +0000
Subject: [PATCH 11/20] fix: let a one-element compressed_tuple be copied from
 a non-const lvalue

The element-wise constructor was a better match than the copy constructor, and
then failed to convert the tuple to its own element.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 8b96d2d..d5dcd54 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -54,7 +54,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
       : compressed_tuple_base_t<Ts...>{ make_compressed_tuple_base<Ts...>(Ts{}...) } {}
 
     template<typename... Us>
-    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
+    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us) && (sizeof...(Us) != 1 || !(std::same_as<std::remove_cvref_t<Us>, compressed_tuple> && ...)))
       : compressed_tuple_base_t<Ts...>{
             make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
-- 
2.43.0


From 9d1d9e094817402c27e8bd361469b4c42bfd53f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:08 +0000
Subject: [PATCH 12/20] fix: accept empty classes that are final or have a
 destructor

Both satisfy std::is_empty, but empty_object cannot derive from the former and
had a deleted destructor for the latter.
---
 src/pigro/concepts.h     | 2 +-
 src/pigro/empty_object.h | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 37db03c..7d324f7 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -21,7 +21,7 @@ template<typename F>
 concept lazy_function_unwrapped = lazy_function<F> && ::std::invocable<F>;
 
 template<typename T>
-concept empty = std::is_empty_v<std::remove_cvref_t<T>>;
+concept empty = std::is_empty_v<std::remove_cvref_t<T>> && !std::is_final_v<std::remove_cvref_t<T>>;
 
 template<std::size_t I, class T>
 concept has_tuple_element =
diff --git a/src/pigro/empty_object.h b/src/pigro/empty_object.h
index 41a4a5d..462cef8 100644
--- a/src/pigro/empty_object.h
+++ b/src/pigro/empty_object.h
@@ -16,6 +16,7 @@ struct empty_object {
 
     union Storage {
         constexpr Storage() : t1{} {}
+        ~Storage() {}
         T1 t1;
         T2 t2;
     };
-- 
2.43.0


From 87d6bedcc7e054ed391ac7e7eae24da4ab6120f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:26 +0000
Subject: [PATCH 13/20] fix: include the standard headers each header uses

---
 src/pigro/apply.h            | 3 +++
 src/pigro/bind_tuple.h       | 3 +++
 src/pigro/compressed_tuple.h | 2 ++
 src/pigro/concepts.h         | 3 +++
 src/pigro/forward_like.h     | 1 +
 src/pigro/fwd_capture.h      | 1 +
 src/pigro/lazy.h             | 2 ++
 src/pigro/pack_algorithms.h  | 2 ++
 src/pigro/recursive.h        | 2 ++
 src/pigro/regular_void.h     | 1 +
 src/pigro/tuple_algorithms.h | 1 +
 src/pigro/uncapture.h        | 2 ++
 src/pigro/utils.h            | 2 ++
 13 files changed, 25 insertions(+)

diff --git a/src/pigro/apply.h b/src/pigro/apply.h
index c5c2b79..f9fdaec 100644
--- a/src/pigro/apply.h
+++ b/src/pigro/apply.h
@@ -1,7 +1,10 @@
 #pragma once
 
+#include <cstddef>
+#include <functional>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 namespace pigro {
 
diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 537ade8..ebd0964 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -6,7 +6,10 @@
 #include "fwd_capture.h"
 #include "pack_algorithms.h"
 
+#include <cstddef>
 #include <functional>
+#include <type_traits>
+#include <utility>
 
 namespace pigro {
 
diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index d5dcd54..7d1a71d 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -9,6 +9,8 @@
 #include "recursive.h"
 #include "utils.h"
 
+#include <concepts>
+#include <cstddef>
 #include <tuple>
 #include <type_traits>
 #include <utility>
diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 7d324f7..066c26f 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <concepts>
+#include <cstddef>
+#include <tuple>
 #include <type_traits>
 #include <utility>
 
diff --git a/src/pigro/forward_like.h b/src/pigro/forward_like.h
index 72eca38..fd53a69 100644
--- a/src/pigro/forward_like.h
+++ b/src/pigro/forward_like.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <type_traits>
+#include <utility>
 
 namespace pigro {
 
diff --git a/src/pigro/fwd_capture.h b/src/pigro/fwd_capture.h
index b78bfdf..726b5f4 100644
--- a/src/pigro/fwd_capture.h
+++ b/src/pigro/fwd_capture.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <tuple>
+#include <utility>
 
 namespace pigro {
 
diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 9c7e3ef..7397c0b 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -10,6 +10,8 @@
 #include <concepts>
 #include <cstddef>
 #include <optional>
+#include <tuple>
+#include <type_traits>
 #include <utility>
 
 namespace pigro::detail {
diff --git a/src/pigro/pack_algorithms.h b/src/pigro/pack_algorithms.h
index ba851f6..e0ad64c 100644
--- a/src/pigro/pack_algorithms.h
+++ b/src/pigro/pack_algorithms.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstddef>
 #include <tuple>
+#include <utility>
 
 namespace pigro {
 
diff --git a/src/pigro/recursive.h b/src/pigro/recursive.h
index 2453b43..0fda41d 100644
--- a/src/pigro/recursive.h
+++ b/src/pigro/recursive.h
@@ -3,6 +3,8 @@
 #include "forward_like.h"
 #include "utils.h"
 
+#include <functional>
+#include <type_traits>
 #include <utility>
 
 namespace pigro {
diff --git a/src/pigro/regular_void.h b/src/pigro/regular_void.h
index 699b007..2e73761 100644
--- a/src/pigro/regular_void.h
+++ b/src/pigro/regular_void.h
@@ -3,6 +3,7 @@
 #include "bind_tuple.h"
 #include "compressed_tuple.h"
 
+#include <compare>
 #include <concepts>
 #include <optional>
 
diff --git a/src/pigro/tuple_algorithms.h b/src/pigro/tuple_algorithms.h
index dec2be3..a488b95 100644
--- a/src/pigro/tuple_algorithms.h
+++ b/src/pigro/tuple_algorithms.h
@@ -2,6 +2,7 @@
 
 #include <functional>
 #include <tuple>
+#include <type_traits>
 
 namespace pigro {
 
diff --git a/src/pigro/uncapture.h b/src/pigro/uncapture.h
index a5ed048..60bd0ed 100644
--- a/src/pigro/uncapture.h
+++ b/src/pigro/uncapture.h
@@ -4,8 +4,10 @@
 #include "empty_object.h"
 #include "utils.h"
 
+#include <cstddef>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 namespace pigro::detail {
 
diff --git a/src/pigro/utils.h b/src/pigro/utils.h
index 4ad6338..e98724d 100644
--- a/src/pigro/utils.h
+++ b/src/pigro/utils.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstddef>
 #include <type_traits>
+#include <utility>
 
 #define SFINAEABLE_RETURN(...) \
     ->decltype(__VA_ARGS__) {  \
-- 
2.43.0


From 4a7826374ea51e1004feb441979960f5876c4c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:51 +0000
Subject: [PATCH 14/20] fix: give lazy functions a named type

The name of a closure type repeats the types of everything it captures. Now that
a lazy function keeps its state within itself, these names grow exponentially with
the nesting, up to the point that the compiler runs out of memory when it has to
emit debug information.
---
 src/pigro/lazy.h | 61 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 7397c0b..9deaaed 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -34,21 +34,43 @@ constexpr auto is_changed = [](const concepts::lazy_result auto result) {
     return result.is_changed;
 };
 
-constexpr auto unwrap_value(concepts::lazy_function auto f) {
-    return [=](std::same_as<std::nullptr_t> auto... marker) mutable requires(sizeof...(marker) <= 1) {
-        if constexpr (sizeof...(marker) == 0) {
-            return f(nullptr).value;
+} // namespace pigro::detail
+
+namespace pigro {
+
+// The lazy functions have a named type, because the name of a closure type repeats
+// the types of everything it captures, and would therefore grow exponentially when
+// a lazy function depends on other lazy functions. They are not part of the detail
+// namespace, because otherwise detail::lazy() would be found by ADL.
+
+template<typename F>
+struct lazy_facade : F {
+    using F::operator();
+
+    auto operator()() {
+        if constexpr (std::same_as<std::remove_cvref_t<decltype((*this)(nullptr).value)>, regular_void>) {
+            (*this)(nullptr);
         } else {
-            return f(nullptr);
+            return (*this)(nullptr).value;
         }
-    };
-}
+    }
+};
 
-constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
-    using result_t = decltype(f(deps(nullptr).value...));
+template<typename F, typename... Deps>
+struct lazy_core {
+    using result_t = decltype(std::declval<F &>()(std::declval<Deps &>()(nullptr).value...));
+
+    std::optional<result_t> cache;
+    [[no_unique_address]] compressed_tuple<F, Deps...> function;
+
+    auto operator()(std::nullptr_t) {
+        return pigro::apply([this](auto &&...function) { return evaluate(function...); }, function);
+    }
+
+private:
+    auto evaluate(auto &&f, auto &&...deps) {
+        using detail::is_changed, detail::LazyResult, detail::value;
 
-    auto cache = std::optional<result_t>{};
-    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto &&f, auto &&...deps) mutable {
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
@@ -64,7 +86,19 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
             *cache,
             changed,
         };
-    };
+    }
+};
+
+} // namespace pigro
+
+namespace pigro::detail {
+
+constexpr auto unwrap_value(concepts::lazy_function auto f) {
+    return lazy_facade<decltype(f)>{ f };
+}
+
+constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
+    return lazy_core<decltype(f), decltype(deps)...>{ {}, compressed_tuple<decltype(f), decltype(deps)...>{ f, deps... } };
 }
 
 constexpr auto lazy_value(auto value, auto changed) {
@@ -99,8 +133,7 @@ auto lazy(auto f, auto... deps) {
       regularized_void(f),
       detail::ensure_lazy(deps)...);
 
-    auto unwrapped_lazy_f = detail::unwrap_value(lazy_f);
-    return unregularized_void(unwrapped_lazy_f);
+    return detail::unwrap_value(lazy_f);
 }
 
 } // namespace pigro
-- 
2.43.0


From 0d806d17aff62567d42786384b1154f646f9ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:07 +0000
Subject: [PATCH 15/20] fix: evaluate a lazy function again after an exception

A dependency reports a change only once, so if another dependency or the function
itself threw, then that change was lost and the outdated result was returned from
then on.
---
 src/pigro/lazy.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 9deaaed..147e8fb 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -64,7 +64,13 @@ struct lazy_core {
     [[no_unique_address]] compressed_tuple<F, Deps...> function;
 
     auto operator()(std::nullptr_t) {
-        return pigro::apply([this](auto &&...function) { return evaluate(function...); }, function);
+        try {
+            return pigro::apply([this](auto &&...function) { return evaluate(function...); }, function);
+        } catch (...) {
+            // The dependencies report a change only once, so evaluate again next time.
+            cache = std::optional<result_t>{};
+            throw;
+        }
     }
 
 private:
-- 
2.43.0


From 66368df4db5e3e2b5ffa42e51b1becf2cbbf1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:23 +0000
Subject: [PATCH 16/20] fix: let bind_back() be constrained by the call it
 makes

It passes what it has stored as lvalues, but was callable only if the callable
accepts them as they were handed to bind_back().
---
 src/pigro/bind_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index ebd0964..9b032a6 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -15,7 +15,7 @@ namespace pigro {
 
 auto bind_back(auto &&f, auto &&...back_args) {
     return [f = FWD_CAPTURE(f), ... back_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable
-           -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
+           -> decltype(std::invoke(f, FWD(front_args)..., back_args...)) {
         return std::invoke(access(f), FWD(front_args)..., access(back_args)...);
     };
 }
-- 
2.43.0


From 216fb5acfb04630c56bdfae0410b2f05f439ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:27 +0000
Subject: [PATCH 17/20] fix: do not refer to elements that to_tuple() gets by
 value

---
 src/pigro/to_tuple.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pigro/to_tuple.h b/src/pigro/to_tuple.h
index 413d728..0de9f39 100644
--- a/src/pigro/to_tuple.h
+++ b/src/pigro/to_tuple.h
@@ -3,17 +3,19 @@
 #include "apply.h"
 #include "concepts.h"
 
+#include <cstddef>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 namespace pigro {
 
 auto to_tuple(concepts::tuple_like auto &&t) {
-    return pigro::apply(
-      [](auto &&...values) {
-          return std::forward_as_tuple(std::forward<decltype(values)>(values)...);
-      },
-      std::forward<decltype(t)>(t));
+    return [&]<size_t... idx>(std::index_sequence<idx...>) {
+        // Elements that are returned by value must not be referred to.
+        return std::tuple<decltype(get<idx>(std::forward<decltype(t)>(t)))...>{ get<idx>(std::forward<decltype(t)>(t))... };
+    }
+    (std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<decltype(t)>>>{});
 }
 
 } // namespace pigro
-- 
2.43.0


From d5339aecefdf1698294eae566fed8768a41cdf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:42 +0000
Subject: [PATCH 18/20] fix: do not store a placeholder for each function
 dependency

A lazy function kept an int next to the cache of every function dependency,
although tests/lazy.test.cpp (memory_footprint) expects the caches only.
---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 147e8fb..f313539 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -123,7 +123,7 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
 constexpr auto ensure_lazy(::std::invocable auto dep) {
     return detail::lazy(
       compressed_tuple{ dep } << [](auto, auto &&dep) mutable { return dep(); },
-      lazy_value(0, std::true_type{}));
+      lazy_value(regular_void{}, std::true_type{}));
 }
 
 constexpr auto ensure_lazy(auto dep) {
-- 
2.43.0


From 743177a4098ee1b71b09f372a77a20528fc42233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:49 +0000
Subject: [PATCH 19/20] fix: let tuple_like answer false for const types
 without tuple_element

---
 src/pigro/concepts.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 066c26f..2a48d52 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -38,7 +38,7 @@ concept tuple_like = requires {
     std::same_as<decltype(std::tuple_size_v<std::remove_reference_t<T>>), size_t>;
 }
 &&[]<std::size_t... I>(std::index_sequence<I...>) {
-    return (has_tuple_element<I, std::remove_reference_t<T>> && ...);
+    return (has_tuple_element<I, std::remove_cvref_t<T>> && ...);
 }
 (std::make_index_sequence<std::tuple_size_v<std::remove_reference_t<T>>>());
 ;
-- 
2.43.0


From a802605ae1c376f520149fa023d8dbe8af294060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 20/20] fix: compare lazy results that are optionals by value

Comparing the cache with such a result compared two optionals: the
result was taken for unequal to an equal empty one in the cache, and an
empty result for equal to an empty cache.
---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index f313539..e87f110 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -84,7 +84,7 @@ private:
             const auto values = transform(args, value);
             const auto result = std::apply(f, values);
 
-            changed = cache != result;
+            changed = !cache || *cache != result;
             cache = std::move(result);
         }
 
-- 
2.43.0

