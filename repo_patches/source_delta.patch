From ee3b9eae3cac1dd4bfa4e18c649832f2dbc902cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:05 +0000
Subject: [PATCH 01/11] fix: compressed_tuple does not compile (pack expanded
 inside static_cast's type)

The constructor wrote static_cast<Ts...>(values)..., which is ill-formed, so
no translation unit that includes compressed_tuple.h (and therefore lazy.h)
compiles with a conforming compiler.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 0e1bb53..4437826 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -56,7 +56,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
     template<typename... Us>
     explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
       : compressed_tuple_base_t<Ts...>{
-            make_compressed_tuple_base<Ts...>(static_cast<Ts...>(values)...)
+            make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
 };
 
-- 
2.43.0


From d1308f256437f469ef59a2224c7fcb1627727d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:05 +0000
Subject: [PATCH 02/11] fix: ambiguous compressed_tuple_element for rvalue
 empty types

compressed_tuple_element(T) and compressed_tuple_element(T &&) are equally
good for an rvalue; constraints only break the tie when the parameter types
are the same.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 4437826..8b96d2d 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -16,7 +16,7 @@
 namespace pigro {
 
 template<size_t tag, concepts::empty T>
-auto compressed_tuple_element(T) {
+auto compressed_tuple_element(T &&) {
     return [](auto &&, idx_t<tag>) {
         return empty_object<std::remove_cvref_t<T>>::get();
     };
-- 
2.43.0


From a486a97330e15e607c6d0672d3a36470b712dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:05 +0000
Subject: [PATCH 03/11] fix: uncapture.h names a concept that is not in scope

---
 src/pigro/uncapture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/uncapture.h b/src/pigro/uncapture.h
index 7220485..a5ed048 100644
--- a/src/pigro/uncapture.h
+++ b/src/pigro/uncapture.h
@@ -17,7 +17,7 @@ struct Uncaptured {
     auto &get_value() { return value; }
 };
 
-template<empty T, size_t tag>
+template<concepts::empty T, size_t tag>
 struct Uncaptured<T, tag> {
     Uncaptured(T) {}
 
-- 
2.43.0


From 5bd91f0d52eee04a8e47ed9d5b9225aed0f7c85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 04/11] fix: lazy() neither compiles nor remembers anything
 between calls

The compressed_tuple bindings hand the wrapped function, its dependencies and
the closure holding the cache to their bodies by value, so every call worked
on copies: results were never cached, dependencies were never remembered and
lazy_value() returned a reference to its own parameter. On top of that the
bound generic lambdas are instantiated with idx<N> during overload resolution,
which is a hard error. Capture by value in mutable lambdas instead, which is
the design documented in docs/walkthrough/final_design.md.
---
 src/pigro/lazy.h         | 8 ++++----
 src/pigro/regular_void.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 4fc51ce..003fb78 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -35,7 +35,7 @@ constexpr auto is_changed = [](const concepts::lazy_result auto result) {
 constexpr auto unwrap_value(concepts::lazy_function auto f) {
     return recursive{
         overload{
-          compressed_tuple{ f } << [](auto &self, std::nullptr_t, auto f) { return f(nullptr); },
+          [=](auto &, std::nullptr_t) mutable { return f(nullptr); },
           [](auto &self) mutable {
               return self(nullptr).value;
           },
@@ -47,7 +47,7 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
     using result_t = decltype(f(deps(nullptr).value...));
 
     auto cache = std::optional<result_t>{};
-    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto f, auto... deps) mutable {
+    return [=](std::nullptr_t) mutable {
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
@@ -67,7 +67,7 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
 }
 
 constexpr auto lazy_value(auto value, auto changed) {
-    return compressed_tuple{ value, changed } << [](std::nullptr_t, auto value, auto changed) {
+    return [=](std::nullptr_t) {
         return LazyResult{
             value,
             changed,
@@ -81,7 +81,7 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
 
 constexpr auto ensure_lazy(::std::invocable auto dep) {
     return detail::lazy(
-      compressed_tuple{ dep } << [](auto, auto dep) mutable { return dep(); },
+      [=](auto) mutable { return dep(); },
       lazy_value(0, std::true_type{}));
 }
 
diff --git a/src/pigro/regular_void.h b/src/pigro/regular_void.h
index 77504f9..494c096 100644
--- a/src/pigro/regular_void.h
+++ b/src/pigro/regular_void.h
@@ -13,7 +13,7 @@ struct regular_void {
 };
 
 constexpr auto regularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
+    return [=](auto... args) mutable {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, void>) {
@@ -26,7 +26,7 @@ constexpr auto regularized_void(auto f) {
 }
 
 constexpr auto unregularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
+    return [=](auto... args) mutable {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, regular_void>) {
-- 
2.43.0


From f2b3f8398b28c312091e5459019cce0306ab26dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 05/11] fix: stale result after an exception during
 re-evaluation

A dependency reports a change only once. When the wrapped function (or another
dependency, a comparison, or a copy) throws after a dependency has reported a
change, that report was lost: the next call found every dependency unchanged
and returned the value cached for the old inputs. Drop the cache when a call
is left by an exception, so that the next call evaluates again.
---
 src/pigro/lazy.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 003fb78..451b3fb 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -9,6 +9,7 @@
 
 #include <concepts>
 #include <cstddef>
+#include <exception>
 #include <optional>
 #include <utility>
 
@@ -32,6 +33,16 @@ constexpr auto is_changed = [](const concepts::lazy_result auto result) {
     return result.is_changed;
 };
 
+template<typename Cache>
+struct invalidate_on_exception {
+    Cache &cache;
+    int exceptions = std::uncaught_exceptions();
+
+    ~invalidate_on_exception() {
+        if (std::uncaught_exceptions() > exceptions) cache = Cache{};
+    }
+};
+
 constexpr auto unwrap_value(concepts::lazy_function auto f) {
     return recursive{
         overload{
@@ -48,6 +59,7 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
 
     auto cache = std::optional<result_t>{};
     return [=](std::nullptr_t) mutable {
+        const auto guard = invalidate_on_exception<decltype(cache)>{ cache };
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
-- 
2.43.0


From 2d43fb7abdcf28e7990c48b9fa7bfbc2c9b03e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 06/11] fix: optional results always count as changed when
 empty

cache != result picks the optional/optional comparison when the wrapped
function itself returns a std::optional, so an empty result differed from an
equal, cached one and everything depending on it was evaluated again.
---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 451b3fb..44145f3 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -67,7 +67,7 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
             const auto values = transform(args, value);
             const auto result = std::apply(f, values);
 
-            changed = cache != result;
+            changed = !cache || *cache != result;
             cache = std::move(result);
         }
 
-- 
2.43.0


From f9326ee07dfa2a9ec2cbeea2047350a511d8f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 07/11] fix: transform() flattens a single tuple- or
 pair-valued element

std::tuple{ x } copies x when x is itself a tuple (and unpacks a pair), so a
lazy function with one tuple-valued dependency was handed the tuple's elements
instead of the tuple.
---
 src/pigro/tuple_algorithms.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pigro/tuple_algorithms.h b/src/pigro/tuple_algorithms.h
index 0cd2496..a488b95 100644
--- a/src/pigro/tuple_algorithms.h
+++ b/src/pigro/tuple_algorithms.h
@@ -2,12 +2,13 @@
 
 #include <functional>
 #include <tuple>
+#include <type_traits>
 
 namespace pigro {
 
 constexpr auto transform(const auto &data, auto projection) {
     return std::apply([=](const auto &...args) {
-        return std::tuple{ projection(args)... };
+        return std::tuple<std::decay_t<decltype(projection(args))>...>{ projection(args)... };
     },
       data);
 }
-- 
2.43.0


From 5a468793e47eb8b35bd83f95a5cafdac0269654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:04 +0000
Subject: [PATCH 08/11] fix: bind_back_tuple calls a copy of the bound callable

std::bind_front copies the callable into a temporary on every call, so state
kept by a callable bound with << was lost between calls, unlike with >>. Bind
a reference to the stored callable.
---
 src/pigro/bind_tuple.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 337c0d4..a943434 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -39,11 +39,11 @@ auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
           [](auto &&self, auto &&...args)
-            -> decltype(pigro::apply(std::bind_front(f, FWD(args)...), t)) {
+            -> decltype(pigro::apply(std::bind_front(std::ref(f), FWD(args)...), t)) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
 
-              return pigro::apply(std::bind_front(f, FWD(args)...), t);
+              return pigro::apply(std::bind_front(std::ref(f), FWD(args)...), t);
           },
         }
     };
-- 
2.43.0


From 001a66771d4819bd078b0b9f5e531dba69b89090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 09/11] fix: tuple_like is a hard error for types that are not
 tuples

A type whose std::tuple_size is incomplete made the constraint ill-formed outside the immediate context, so with 'using namespace pigro' every >> on such a type (std::cin >> x, uncaptured(..) >> f) failed to compile.
---
 src/pigro/concepts.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 59551d6..4b2c9c5 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <concepts>
+#include <cstddef>
+#include <tuple>
 #include <type_traits>
 #include <utility>
 
@@ -31,8 +34,7 @@ concept has_tuple_element =
 
 template<class T>
 concept tuple_like = requires {
-    typename std::tuple_size<std::remove_reference_t<T>>;
-    std::same_as<decltype(std::tuple_size_v<std::remove_reference_t<T>>), size_t>;
+    { std::tuple_size<std::remove_reference_t<T>>::value } -> std::convertible_to<std::size_t>;
 }
 &&[]<std::size_t... I>(std::index_sequence<I...>) {
     return (has_tuple_element<I, std::remove_reference_t<T>> && ...);
-- 
2.43.0


From d8110c44be6dd843f1d33dcfee5bf9cf5c8f8bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 10/11] fix: copying a non-const one-element compressed_tuple

The forwarding constructor was a better match than the copy constructor and tried to cast the whole tuple to its element.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 8b96d2d..30c641b 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -54,7 +54,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
       : compressed_tuple_base_t<Ts...>{ make_compressed_tuple_base<Ts...>(Ts{}...) } {}
 
     template<typename... Us>
-    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
+    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us) && !(std::same_as<std::remove_cvref_t<Us>, compressed_tuple> && ...))
       : compressed_tuple_base_t<Ts...>{
             make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
-- 
2.43.0


From 792caaee74940678e756cad3c6c4b8a4984bb5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:09 +0000
Subject: [PATCH 11/11] fix: stale results when a lazy function is shared by
 reference between dependents

---
 src/pigro/lazy.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 44145f3..8e21774 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -10,6 +10,7 @@
 #include <concepts>
 #include <cstddef>
 #include <exception>
+#include <functional>
 #include <optional>
 #include <utility>
 
@@ -91,6 +92,15 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
     return dep;
 }
 
+template<concepts::lazy_function_unwrapped F>
+constexpr auto ensure_lazy(std::reference_wrapper<F> dep) {
+    // It is shared: whether its result changed since *its* last call
+    // says nothing about what the dependent has seen of it.
+    return detail::lazy(
+      [f = regularized_void(dep)](auto) mutable { return f(); },
+      lazy_value(0, std::true_type{}));
+}
+
 constexpr auto ensure_lazy(::std::invocable auto dep) {
     return detail::lazy(
       [=](auto) mutable { return dep(); },
-- 
2.43.0

