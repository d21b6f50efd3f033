From d4995c0461652a4673880e0c06da89263f600947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 01/30] fix: AwaitSticky of several futures did not compile
 (undeclared Count)

---
 include/yaclib/coro/await_sticky.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/coro/await_sticky.hpp b/include/yaclib/coro/await_sticky.hpp
index dce18ad..96560e7 100644
--- a/include/yaclib/coro/await_sticky.hpp
+++ b/include/yaclib/coro/await_sticky.hpp
@@ -16,7 +16,7 @@ YACLIB_INLINE auto AwaitSticky(Waited& waited) noexcept {
 template <typename... Waited, typename = std::enable_if_t<(... && is_waitable_v<Waited>)>>
 YACLIB_INLINE auto AwaitSticky(Waited&... waited) noexcept {
   using namespace detail;
-  static constexpr auto kSharedCount = Count<SharedHandle, typename Waited::Handle...>;
+  static constexpr auto kSharedCount = kCount<SharedHandle, typename Waited::Handle...>;
   using Awaiter = std::conditional_t<kSharedCount == 0, MultiAwaitAwaiter<AwaitEvent<true>>,
                                      MultiAwaitAwaiter<StaticSharedEvent<AwaitEvent<true>, kSharedCount>>>;
   YACLIB_ASSERT(... && waited.Valid());
-- 
2.43.0


From 71b4ca7bd5ced6e122b0a17c3d2e46be2914ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:51 +0000
Subject: [PATCH 02/30] fix: WhenAll of different types terminated when a
 second input failed

---
 include/yaclib/async/when/all_tuple.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yaclib/async/when/all_tuple.hpp b/include/yaclib/async/when/all_tuple.hpp
index fbe322c..b88c32d 100644
--- a/include/yaclib/async/when/all_tuple.hpp
+++ b/include/yaclib/async/when/all_tuple.hpp
@@ -51,14 +51,14 @@ struct AllTuple<FailPolicy::FirstFail, OutputValue, OutputError, InputCore> {
 
   template <std::size_t Index, typename Result>
   void Consume(Result&& result) {
-    if (!result && !_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
+    if (result) {
+      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
+    } else if (!_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
       if (result.State() == ResultState::Error) {
         std::move(_p).Set(std::forward<Result>(result).Error());
       } else {
         std::move(_p).Set(std::forward<Result>(result).Exception());
       }
-    } else {
-      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
     }
   }
 
-- 
2.43.0


From 91b6145d1b04eeff64c4121696ada86729d9a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 03/30] fix: a core with a registered callback was reported as
 Ready before its result exists

---
 include/yaclib/algo/detail/base_core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/base_core.hpp b/include/yaclib/algo/detail/base_core.hpp
index a3aac33..926fc3c 100644
--- a/include/yaclib/algo/detail/base_core.hpp
+++ b/include/yaclib/algo/detail/base_core.hpp
@@ -26,7 +26,7 @@ class BaseCore : public InlineCore {
 
   bool Empty() const noexcept {
     auto callback = _callback.load(std::memory_order_acquire);
-    return callback == kEmpty;
+    return callback != kResult;
   }
 
   template <bool Shared>
-- 
2.43.0


From a22d7828e55c02a71921243d1134124d3b123fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 04/30] fix: resumed coroutine took the executor away from the
 awaited core

---
 include/yaclib/coro/detail/promise_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/coro/detail/promise_type.hpp b/include/yaclib/coro/detail/promise_type.hpp
index f4655bc..9191c11 100644
--- a/include/yaclib/coro/detail/promise_type.hpp
+++ b/include/yaclib/coro/detail/promise_type.hpp
@@ -122,7 +122,7 @@ class PromiseType final : public PromiseTypeBase<V, E, Lazy, Shared> {
   }
 
   YACLIB_INLINE void Impl(InlineCore& caller) noexcept {
-    this->_executor = std::move(DownCast<BaseCore>(caller)._executor);
+    this->_executor = DownCast<BaseCore>(caller)._executor;
     YACLIB_ASSERT(this->_executor != nullptr);
   }
   [[nodiscard]] InlineCore* Here(InlineCore& caller) noexcept final {
-- 
2.43.0


From df3edd683d61a25847de77f3da98749e0af8fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 05/30] fix: Schedule and LazyContract tasks can be returned
 from a step or co_awaited

---
 include/yaclib/algo/detail/core.hpp         | 10 +++++++++-
 include/yaclib/algo/detail/promise_core.hpp | 12 ++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/core.hpp b/include/yaclib/algo/detail/core.hpp
index e87eda5..c214416 100644
--- a/include/yaclib/algo/detail/core.hpp
+++ b/include/yaclib/algo/detail/core.hpp
@@ -153,7 +153,15 @@ class Core : public ResultCoreT<Type, Ret, E>, public FuncCore<Func> {
       return Done<SymmetricTransfer, true>(core.template MoveOrConst<!AsyncShared>());
     };
     if constexpr (IsRun(Type)) {
-      return async_done();
+      if constexpr (kAsync != AsyncType::None) {
+        if (this->_self.caller != nullptr) {
+          return async_done();
+        }
+      }
+      // Not started head of Task, which was returned from another step or awaited by coroutine
+      YACLIB_ASSERT(this->_self.caller == nullptr);
+      this->_executor->Submit(*this);
+      return Noop<SymmetricTransfer>();
     } else {
       if constexpr (kAsync != AsyncType::None) {
         if (this->_self.unwrapping != 0) {
diff --git a/include/yaclib/algo/detail/promise_core.hpp b/include/yaclib/algo/detail/promise_core.hpp
index c77cd2d..96b6d0b 100644
--- a/include/yaclib/algo/detail/promise_core.hpp
+++ b/include/yaclib/algo/detail/promise_core.hpp
@@ -51,6 +51,18 @@ class PromiseCore : public std::conditional_t<Shared, SharedCore<V, E>, UniqueCo
     this->Store(StopTag{});
     Loop(this, this->template SetResult<false>());
   }
+
+  // Not started head of Task, which was returned from another step or awaited by coroutine
+  [[nodiscard]] InlineCore* Here(InlineCore& /*caller*/) noexcept final {
+    this->_executor->Submit(*this);
+    return nullptr;
+  }
+#if YACLIB_SYMMETRIC_TRANSFER != 0
+  [[nodiscard]] yaclib_std::coroutine_handle<> Next(InlineCore& /*caller*/) noexcept final {
+    this->_executor->Submit(*this);
+    return Noop<true>();
+  }
+#endif
 };
 
 }  // namespace yaclib::detail
-- 
2.43.0


From f251dc8c81906b8924e8ac85c643dacd4052e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 06/30] fix: destruction of already completed Task executed its
 last step again

---
 include/yaclib/lazy/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/lazy/task.hpp b/include/yaclib/lazy/task.hpp
index 84891e7..6e0a70e 100644
--- a/include/yaclib/lazy/task.hpp
+++ b/include/yaclib/lazy/task.hpp
@@ -38,7 +38,7 @@ class Task final {
 
   Task() noexcept = default;
   ~Task() noexcept {
-    if (Valid()) {
+    if (Valid() && !Ready()) {
       std::move(*this).Cancel();
     }
   }
-- 
2.43.0


From f498d84ab981383bc0be9e978c9837418236f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 07/30] fix: decision to move a shared value out read the
 reference count without acquire

---
 include/yaclib/util/detail/atomic_counter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/util/detail/atomic_counter.hpp b/include/yaclib/util/detail/atomic_counter.hpp
index 1f752b4..5694fad 100644
--- a/include/yaclib/util/detail/atomic_counter.hpp
+++ b/include/yaclib/util/detail/atomic_counter.hpp
@@ -27,7 +27,7 @@ struct AtomicCounter : CounterBase {
   }
 
   // Dangerous! Use only to sync with release with acquire or with relaxed if synchronization is not needed
-  [[nodiscard]] YACLIB_INLINE std::size_t Get(std::memory_order order = std::memory_order_relaxed) const noexcept {
+  [[nodiscard]] YACLIB_INLINE std::size_t Get(std::memory_order order = std::memory_order_acquire) const noexcept {
     return count.load(order);
   }
 
-- 
2.43.0


From b80fb02772033ffd806055bfd2cd05ce1d27c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 08/30] fix: fetch_and of the fiber atomic added instead of and

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 96d16a8..d5f0ac6 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -153,12 +153,12 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
 
   T fetch_and(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
   T fetch_and(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
 
-- 
2.43.0


From 2fd0b31e1aeaa17cfcaa2273d678c52907f13254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 09/30] fix: pre and post increment and decrement of the fiber
 atomic were swapped

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 32 ++++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index d5f0ac6..c6e0a8d 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -185,31 +185,31 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   T operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   T operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   T operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   T operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   T operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   T operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   T operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   T operator&=(T arg) noexcept {
@@ -275,31 +275,31 @@ class Atomic<U*> : public AtomicBase<U*> {
   }
 
   U* operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   U* operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   U* operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   U* operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   U* operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   U* operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   U* operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   U* operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   U* operator+=(std::ptrdiff_t arg) noexcept {
-- 
2.43.0


From 90f9acf4659bf1845b62bbf0d2d6e06dc9ea31b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 10/30] fix: overflow of a signed fiber atomic was undefined
 behavior instead of wrapping

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 62 +++++++++++++++-----
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index c6e0a8d..dce0096 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -2,10 +2,32 @@
 
 #include <yaclib/fault/detail/fiber/atomic_wait.hpp>
 
+#include <type_traits>
 #include <utility>
 
 namespace yaclib::detail::fiber {
 
+// Arithmetic of std::atomic<signed integral> wraps, while overflow of the plain operator is undefined behavior
+template <typename T>
+constexpr T WrapAdd(T lhs, T rhs) noexcept {
+  if constexpr (std::is_integral_v<T>) {
+    using Unsigned = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<Unsigned>(lhs) + static_cast<Unsigned>(rhs));
+  } else {
+    return lhs + rhs;
+  }
+}
+
+template <typename T>
+constexpr T WrapSub(T lhs, T rhs) noexcept {
+  if constexpr (std::is_integral_v<T>) {
+    using Unsigned = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<Unsigned>(lhs) - static_cast<Unsigned>(rhs));
+  } else {
+    return lhs - rhs;
+  }
+}
+
 template <typename T>
 class AtomicBase : public AtomicWait<T> {
   using Base = AtomicWait<T>;
@@ -98,38 +120,38 @@ class AtomicFloatingBase<T, true> : public AtomicBase<T> {
 
   T fetch_add(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value += arg;
+    _value = WrapAdd<T>(_value, arg);
     return val;
   }
   T fetch_add(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value += arg;
+    _value = WrapAdd<T>(_value, arg);
     return val;
   }
 
   T fetch_sub(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value -= arg;
+    _value = WrapSub<T>(_value, arg);
     return val;
   }
   T fetch_sub(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value -= arg;
+    _value = WrapSub<T>(_value, arg);
     return val;
   }
 
   T operator+=(T arg) noexcept {
-    return _value += arg;
+    return _value = WrapAdd<T>(_value, arg);
   }
   T operator+=(T arg) volatile noexcept {
-    return _value += arg;
+    return _value = WrapAdd<T>(_value, arg);
   }
 
   T operator-=(T arg) noexcept {
-    return _value -= arg;
+    return _value = WrapSub<T>(_value, arg);
   }
   T operator-=(T arg) volatile noexcept {
-    return _value -= arg;
+    return _value = WrapSub<T>(_value, arg);
   }
 
  protected:
@@ -185,31 +207,39 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return ++_value;
+    return _value = WrapAdd<T>(_value, 1);
   }
   T operator++() volatile noexcept {
-    return ++_value;
+    return _value = WrapAdd<T>(_value, 1);
   }
 
   T operator++(int) noexcept {
-    return _value++;
+    T val = _value;
+    _value = WrapAdd<T>(val, 1);
+    return val;
   }
   T operator++(int) volatile noexcept {
-    return _value++;
+    T val = _value;
+    _value = WrapAdd<T>(val, 1);
+    return val;
   }
 
   T operator--() noexcept {
-    return --_value;
+    return _value = WrapSub<T>(_value, 1);
   }
   T operator--() volatile noexcept {
-    return --_value;
+    return _value = WrapSub<T>(_value, 1);
   }
 
   T operator--(int) noexcept {
-    return _value--;
+    T val = _value;
+    _value = WrapSub<T>(val, 1);
+    return val;
   }
   T operator--(int) volatile noexcept {
-    return _value--;
+    T val = _value;
+    _value = WrapSub<T>(val, 1);
+    return val;
   }
 
   T operator&=(T arg) noexcept {
-- 
2.43.0


From 003c7b7473f03238aac6c7733e90118bbbc8ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 11/30] fix: default constructed fiber atomic and atomic_flag
 had an indeterminate value

---
 include/yaclib/fault/detail/fiber/atomic_wait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic_wait.hpp b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
index 1c0341a..d6beaa2 100644
--- a/include/yaclib/fault/detail/fiber/atomic_wait.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
@@ -60,7 +60,7 @@ class AtomicWait {
 #endif
 
  protected:
-  T _value;
+  T _value{};
 #if YACLIB_FUTEX != 0
   FiberQueue _queue;
 #endif
-- 
2.43.0


From 74dbec2383f42ed3ad2f7ed71308150b5ff2acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 12/30] fix: volatile operations of yaclib_std::atomic did not
 compile

---
 include/yaclib/fault/detail/atomic.hpp       | 16 ++++++++--------
 include/yaclib/fault/detail/fiber/atomic.hpp | 18 +++++++++++++++---
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index 4f1cf99..c1a86c1 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -215,7 +215,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -224,7 +224,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -233,7 +233,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -242,7 +242,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
@@ -312,7 +312,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -321,7 +321,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -330,7 +330,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -339,7 +339,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index dce0096..9cb2197 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -52,17 +52,19 @@ class AtomicBase : public AtomicWait<T> {
   }
 
   operator T() const noexcept {
-    return load();
+    return load(std::memory_order_seq_cst);
   }
   operator T() const volatile noexcept {
-    return load();
+    return load(std::memory_order_seq_cst);
   }
 
   T exchange(T desired, std::memory_order) noexcept {
     return std::exchange(_value, desired);
   }
   T exchange(T desired, std::memory_order) volatile noexcept {
-    return std::exchange(_value, desired);
+    T val = _value;
+    _value = desired;
+    return val;
   }
 
   bool compare_exchange_weak(T& expected, T desired, std::memory_order, std::memory_order) noexcept {
@@ -100,6 +102,16 @@ class AtomicBase : public AtomicWait<T> {
       return false;
     }
   }
+  bool CompareExchangeHelper(T& expected, T desired) volatile {
+    T current = this->_value;
+    if (current == expected) {
+      this->_value = desired;
+      return true;
+    } else {
+      expected = current;
+      return false;
+    }
+  }
   using Base::_value;
 };
 
-- 
2.43.0


From 760133d1b71a3d95b9bc5e75617333f65fdaed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 13/30] fix: compare_exchange of a fiber atomic compared
 floating values with ==

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 9cb2197..23fbcbb 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -2,6 +2,7 @@
 
 #include <yaclib/fault/detail/fiber/atomic_wait.hpp>
 
+#include <cstring>
 #include <type_traits>
 #include <utility>
 
@@ -94,7 +95,7 @@ class AtomicBase : public AtomicWait<T> {
 
  protected:
   bool CompareExchangeHelper(T& expected, T desired) {
-    if (this->_value == expected) {
+    if (SameValue(this->_value, expected)) {
       this->_value = desired;
       return true;
     } else {
@@ -104,7 +105,7 @@ class AtomicBase : public AtomicWait<T> {
   }
   bool CompareExchangeHelper(T& expected, T desired) volatile {
     T current = this->_value;
-    if (current == expected) {
+    if (SameValue(current, expected)) {
       this->_value = desired;
       return true;
     } else {
@@ -112,6 +113,14 @@ class AtomicBase : public AtomicWait<T> {
       return false;
     }
   }
+  // std::atomic compares object representations: NaN is equal to itself, 0.0 is not equal to -0.0
+  static bool SameValue(const T& lhs, const T& rhs) noexcept {
+    if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) {
+      return std::memcmp(&lhs, &rhs, sizeof(T)) == 0;
+    } else {
+      return lhs == rhs;
+    }
+  }
   using Base::_value;
 };
 
-- 
2.43.0


From 8c268c942c6aa1e5cfa3f5c062910e02601bcbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 14/30] fix: assignment of a value to yaclib_std::atomic did
 not compile or copied a temporary atomic

---
 include/yaclib/fault/detail/atomic.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index c1a86c1..f7e0e7c 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -21,12 +21,12 @@ class AtomicBase : public AtomicWait<Impl, T> {
   using Base::is_lock_free;
 
   T operator=(T desired) noexcept {
-    YACLIB_INJECT_FAULT(auto r = Impl::operator=(desired));
-    return r;
+    YACLIB_INJECT_FAULT(Impl::store(desired, std::memory_order_seq_cst));
+    return desired;
   }
   T operator=(T desired) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = Impl::operator=(desired));
-    return r;
+    YACLIB_INJECT_FAULT(Impl::store(desired, std::memory_order_seq_cst));
+    return desired;
   }
 
   void store(T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
@@ -122,6 +122,7 @@ class AtomicFloatingBase : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -130,6 +131,7 @@ class AtomicFloatingBase<Impl, T, true> : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_add(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_add(arg, order));
@@ -174,6 +176,7 @@ class AtomicIntegralBase : public AtomicFloatingBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -182,6 +185,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_and(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_and(arg, order));
@@ -280,6 +284,7 @@ class Atomic : public AtomicIntegralBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename U>
@@ -288,6 +293,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   U* fetch_add(std::ptrdiff_t arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto* r = Impl::fetch_add(arg, order));
-- 
2.43.0


From c4f836cd34c815e1686f9370d0d96e3c9c9af388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 15/30] fix: injected spurious failure of compare_exchange_weak
 loaded with the success order

---
 include/yaclib/fault/detail/atomic.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index f7e0e7c..13e8ed9 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -3,6 +3,8 @@
 #include <yaclib/fault/detail/atomic_wait.hpp>
 #include <yaclib/fault/inject.hpp>
 
+#include <atomic>
+#include <cstdint>
 #include <type_traits>
 
 namespace yaclib::detail {
@@ -11,6 +13,13 @@ bool ShouldFailAtomicWeak();
 
 void SetAtomicWeakFailFrequency(std::uint32_t k);
 
+// Load order of a failed compare_exchange with a single order: load with release or acq_rel is undefined behavior
+constexpr std::memory_order FailureOrder(std::memory_order order) noexcept {
+  return order == std::memory_order_acq_rel   ? std::memory_order_acquire
+         : order == std::memory_order_release ? std::memory_order_relaxed
+                                              : order;
+}
+
 template <typename Impl, typename T>
 class AtomicBase : public AtomicWait<Impl, T> {
   using Base = AtomicWait<Impl, T>;
@@ -81,7 +90,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(FailureOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
@@ -90,7 +99,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   bool compare_exchange_weak(T& expected, T desired,
                              std::memory_order order = std::memory_order_seq_cst) volatile noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(FailureOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
-- 
2.43.0


From 7a469bf72ec5774d2c4ecff26930759aaf79e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 16/30] fix: fiber recursive_mutex never woke up a blocked
 locker

---
 src/fault/fiber/recursive_mutex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fault/fiber/recursive_mutex.cpp b/src/fault/fiber/recursive_mutex.cpp
index 8598ff1..5d746ae 100644
--- a/src/fault/fiber/recursive_mutex.cpp
+++ b/src/fault/fiber/recursive_mutex.cpp
@@ -4,7 +4,7 @@
 namespace yaclib::detail::fiber {
 
 void RecursiveMutex::lock() {
-  if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
+  while (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
     _queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -23,6 +23,7 @@ void RecursiveMutex::unlock() noexcept {
   _occupied_count--;
   if (_occupied_count == 0) {
     _owner_id = 0;
+    _queue.NotifyOne();
   }
 }
 void RecursiveMutex::LockHelper() {
-- 
2.43.0


From 214c3e902ff88860cb37ea418b2ffff357b55677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 17/30] fix: fiber shared_mutex admitted a locker without check
 after wake up and queued readers as writers

---
 src/fault/fiber/shared_mutex.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fault/fiber/shared_mutex.cpp b/src/fault/fiber/shared_mutex.cpp
index 8e9b7f3..f85e7c1 100644
--- a/src/fault/fiber/shared_mutex.cpp
+++ b/src/fault/fiber/shared_mutex.cpp
@@ -5,7 +5,7 @@
 namespace yaclib::detail::fiber {
 
 void fiber::SharedMutex::lock() {
-  if (_occupied) {
+  while (_occupied) {
     _exclusive_queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -30,8 +30,8 @@ void SharedMutex::unlock() noexcept {
 }
 
 void SharedMutex::lock_shared() {
-  if (_occupied && _exclusive_mode) {
-    _exclusive_queue.Wait(NoTimeoutTag{});
+  while (_occupied && _exclusive_mode) {
+    _shared_queue.Wait(NoTimeoutTag{});
   }
   SharedLockHelper();
 }
-- 
2.43.0


From 3c820f49e27260f44a0620ebc830341e11de61eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 18/30] fix: fiber shared_mutex forgot readers when the woken
 writer lost the race for the lock

---
 src/fault/fiber/shared_mutex.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/fault/fiber/shared_mutex.cpp b/src/fault/fiber/shared_mutex.cpp
index f85e7c1..24ac82a 100644
--- a/src/fault/fiber/shared_mutex.cpp
+++ b/src/fault/fiber/shared_mutex.cpp
@@ -1,5 +1,3 @@
-#include <fault/util.hpp>
-
 #include <yaclib/fault/detail/fiber/shared_mutex.hpp>
 
 namespace yaclib::detail::fiber {
@@ -20,13 +18,10 @@ bool SharedMutex::try_lock() noexcept {
 }
 
 void SharedMutex::unlock() noexcept {
-  const bool unlock_shared = !_shared_queue.Empty() && (_exclusive_queue.Empty() || GetRandNumber(2) == 0);
   _occupied = false;
-  if (unlock_shared) {
-    _shared_queue.NotifyAll();
-  } else {
-    _exclusive_queue.NotifyOne();
-  }
+  // waiters of both modes check the state after wake up, so the scheduler decides who is next
+  _shared_queue.NotifyAll();
+  _exclusive_queue.NotifyOne();
 }
 
 void SharedMutex::lock_shared() {
-- 
2.43.0


From b09ed085b5499ddbd60669b69b24565cf0f3763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 19/30] fix: timed locks of fibers took an occupied mutex after
 wake up, exclusive one in the shared mode

---
 .../detail/fiber/recursive_timed_mutex.hpp    | 17 +++++++--------
 .../fault/detail/fiber/shared_timed_mutex.hpp | 21 +++++++++----------
 .../yaclib/fault/detail/fiber/timed_mutex.hpp | 16 +++++++-------
 3 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
index 629f7bf..2dffa74 100644
--- a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
@@ -13,7 +13,7 @@ class RecursiveTimedMutex : public RecursiveMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration);
+    return TimedWaitHelper(timeout_duration + SystemClock::now());
   }
 
   template <typename Clock, typename Duration>
@@ -24,16 +24,13 @@ class RecursiveTimedMutex : public RecursiveMutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
+      if (_queue.Wait(timeout) == WaitStatus::Timeout) {
+        return false;
+      }
     }
-    YACLIB_DEBUG(r && (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()),
-                 "about to be locked twice and not in a good way");
-    if (r) {
-      LockHelper();
-    }
-    return r;
+    LockHelper();
+    return true;
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
index 333e13c..25bd0bc 100644
--- a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
@@ -14,7 +14,7 @@ class SharedTimedMutex : public SharedMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration, true);
+    return TimedWaitHelper(timeout_duration + SystemClock::now(), true);
   }
 
   template <typename Clock, typename Duration>
@@ -24,7 +24,7 @@ class SharedTimedMutex : public SharedMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration, false);
+    return TimedWaitHelper(timeout_duration + SystemClock::now(), false);
   }
 
   template <typename Clock, typename Duration>
@@ -35,19 +35,18 @@ class SharedTimedMutex : public SharedMutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout, bool exclusive) {
-    bool r = true;
-    if (_occupied && (exclusive || _exclusive_mode)) {
-      if (exclusive) {
-        r = _exclusive_queue.Wait(timeout) == WaitStatus::Ready;
-      } else {
-        r = _shared_queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied && (exclusive || _exclusive_mode)) {
+      auto& queue = exclusive ? _exclusive_queue : _shared_queue;
+      if (queue.Wait(timeout) == WaitStatus::Timeout) {
+        return false;
       }
     }
-    YACLIB_DEBUG(r && _occupied && (exclusive || _exclusive_mode), "about to be locked twice and not in a good way");
-    if (r) {
+    if (exclusive) {
+      LockHelper();
+    } else {
       SharedLockHelper();
     }
-    return r;
+    return true;
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/timed_mutex.hpp b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
index c712e47..8c31c62 100644
--- a/include/yaclib/fault/detail/fiber/timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
@@ -13,7 +13,7 @@ class TimedMutex : public Mutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration);
+    return TimedWaitHelper(timeout_duration + SystemClock::now());
   }
 
   template <typename Clock, typename Duration>
@@ -24,15 +24,13 @@ class TimedMutex : public Mutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied) {
+      if (_queue.Wait(timeout) == WaitStatus::Timeout) {
+        return false;
+      }
     }
-    YACLIB_DEBUG(r && _occupied, "about to be locked twice");
-    if (r) {
-      _occupied = true;
-    }
-    return r;
+    _occupied = true;
+    return true;
   }
 };
 
-- 
2.43.0


From b647615851456f21e93fcf6e2ed89f66af80a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 20/30] fix: fiber condition_variable wait_for with predicate
 restarted timeout after every wake up

---
 include/yaclib/fault/detail/fiber/condition_variable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/condition_variable.hpp b/include/yaclib/fault/detail/fiber/condition_variable.hpp
index fb7cabe..20f28ce 100644
--- a/include/yaclib/fault/detail/fiber/condition_variable.hpp
+++ b/include/yaclib/fault/detail/fiber/condition_variable.hpp
@@ -46,7 +46,7 @@ class ConditionVariable {
   template <typename Rep, typename Period, typename Predicate>
   bool wait_for(std::unique_lock<yaclib::detail::fiber::Mutex>& lock,
                 const std::chrono::duration<Rep, Period>& duration, Predicate predicate) {
-    return WaitImplWithPredicate(lock, duration, predicate);
+    return WaitImplWithPredicate(lock, duration + SystemClock::now(), predicate);
   }
 
   using native_handle_type = std::condition_variable::native_handle_type;
-- 
2.43.0


From cafa6a248560a846895cd58bf44449104703fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 21/30] fix: fibers woken before the same deadline dereferenced
 end of the sleep list

---
 src/fault/fiber/scheduler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fault/fiber/scheduler.cpp b/src/fault/fiber/scheduler.cpp
index 05b175b..17ed437 100644
--- a/src/fault/fiber/scheduler.cpp
+++ b/src/fault/fiber/scheduler.cpp
@@ -128,9 +128,9 @@ void Scheduler::SleepPreemptive(std::uint64_t ns) {
   // <= because wakeup called before time adjustment
   if (_time <= ns) {
     auto it = _sleep_list.find(ns);
-    YACLIB_DEBUG(it == _sleep_list.end(), "sleep_list for time that is not passed yet isn't found");
-    if (it->second.Empty()) {
-      _sleep_list.erase(ns);
+    // not found when other fiber with the same wake up time already erased it
+    if (it != _sleep_list.end() && it->second.Empty()) {
+      _sleep_list.erase(it);
     }
   }
 }
-- 
2.43.0


From fa5f48606aff03c7af65b4f47b789b3bb7e984d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 22/30] fix: fiber thread without a thread of execution was
 joinable

---
 src/fault/fiber/thread.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fault/fiber/thread.cpp b/src/fault/fiber/thread.cpp
index 4269861..dd463b0 100644
--- a/src/fault/fiber/thread.cpp
+++ b/src/fault/fiber/thread.cpp
@@ -16,14 +16,14 @@ void Thread::swap(Thread& t) noexcept {
 }
 
 bool Thread::joinable() const noexcept {
-  return get_id() != fault::Scheduler::GetId();
+  return _impl != nullptr;
 }
 
 void Thread::join() {
   if (_impl == nullptr) {
     throw std::system_error{std::make_error_code(std::errc::no_such_process)};
   }
-  if (!joinable()) {
+  if (get_id() == fault::Scheduler::GetId()) {
     throw std::system_error{std::make_error_code(std::errc::resource_deadlock_would_occur)};
   }
 
@@ -39,9 +39,6 @@ void Thread::detach() {
   if (_impl == nullptr) {
     throw std::system_error{std::make_error_code(std::errc::no_such_process)};
   }
-  if (!joinable()) {
-    throw std::system_error{std::make_error_code(std::errc::resource_deadlock_would_occur)};
-  }
   AfterJoinOrDetach();
 }
 
-- 
2.43.0


From 7f1bfd6017630bfbc0955ae3e3f76b0c5d5d2405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 23/30] fix: fiber thread local pointers of different types
 shared the same slot

---
 include/yaclib/fault/detail/fiber/thread_local_proxy.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
index c3944a7..4c0c58e 100644
--- a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
+++ b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cstddef>
+#include <cstdint>
+
 namespace yaclib::detail::fiber {
 
 void* GetImpl(std::uint64_t i);
@@ -8,10 +11,11 @@ void Set(void* new_value, std::uint64_t i);
 
 void SetDefault(void* new_value, std::uint64_t i);
 
+// Shared by all types, because values of all types are stored in the same per fiber map
+inline std::uint64_t sNextFreeIndex = 0;
+
 template <typename Type>
 class ThreadLocalPtrProxy final {
-  inline static std::uint64_t sNextFreeIndex = 0;
-
  public:
   ThreadLocalPtrProxy() noexcept : _i(sNextFreeIndex++) {
   }
-- 
2.43.0


From 23f3fef61d39006a2d28e5909191d96b6bfc4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 24/30] fix: assignment between fiber thread local pointers
 changed the value of other fibers

---
 .../fault/detail/fiber/thread_local_proxy.hpp       | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
index 4c0c58e..27d98d2 100644
--- a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
+++ b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
@@ -36,14 +36,11 @@ class ThreadLocalPtrProxy final {
     return *this;
   }
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy&& other) noexcept {
-    _i = other._i;
+    Set(GetImpl(other._i), _i);
     return *this;
   }
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy& other) noexcept {
-    if (this->Get() == other.Get()) {
-      return *this;
-    }
-    SetDefault(GetImpl(other._i), _i);
+    Set(GetImpl(other._i), _i);
     return *this;
   }
 
@@ -57,13 +54,11 @@ class ThreadLocalPtrProxy final {
 
   template <typename U>
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy<U>&& other) noexcept {
-    _i = other._i;
-    return *this;
+    return *this = other.Get();
   }
   template <typename U>
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy<U>& other) noexcept {
-    SetDefault(GetImpl(other._i), _i);
-    return *this;
+    return *this = other.Get();
   }
 
   Type& operator*() const noexcept {
-- 
2.43.0


From 3269c48a9b0b5d0a28a6994ecfad488ab4141601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 25/30] fix: negative deadline moved virtual time of fibers to
 the end of the range

---
 include/yaclib/fault/detail/fiber/queue.hpp | 4 ++--
 include/yaclib_std/detail/this_thread.hpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/queue.hpp b/include/yaclib/fault/detail/fiber/queue.hpp
index 069db0c..397dfb1 100644
--- a/include/yaclib/fault/detail/fiber/queue.hpp
+++ b/include/yaclib/fault/detail/fiber/queue.hpp
@@ -30,8 +30,8 @@ class FiberQueue final {
     auto* queue_node = static_cast<BiNodeWaitQueue*>(fiber);
     _queue.PushBack(queue_node);
     auto* scheduler = fault::Scheduler::GetScheduler();
-    scheduler->SleepPreemptive(
-      std::chrono::duration_cast<std::chrono::nanoseconds>(time_point.time_since_epoch()).count());
+    const auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(time_point.time_since_epoch()).count();
+    scheduler->SleepPreemptive(ns > 0 ? static_cast<std::uint64_t>(ns) : 0);
     bool res = queue_node->Erase();
     return res ? WaitStatus::Timeout : WaitStatus::Ready;
   }
diff --git a/include/yaclib_std/detail/this_thread.hpp b/include/yaclib_std/detail/this_thread.hpp
index 7c45eed..b86b577 100644
--- a/include/yaclib_std/detail/this_thread.hpp
+++ b/include/yaclib_std/detail/this_thread.hpp
@@ -9,8 +9,8 @@ namespace yaclib_std::this_thread {
 
 template <typename Clock, typename Duration>
 inline void sleep_until(const std::chrono::time_point<Clock, Duration>& sleep_time) {
-  std::uint64_t timeout = std::chrono::duration_cast<std::chrono::nanoseconds>(sleep_time.time_since_epoch()).count();
-  yaclib::fault::Scheduler::GetScheduler()->Sleep(timeout);
+  const auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(sleep_time.time_since_epoch()).count();
+  yaclib::fault::Scheduler::GetScheduler()->Sleep(ns > 0 ? static_cast<std::uint64_t>(ns) : 0);
 }
 
 template <typename Rep, typename Period>
-- 
2.43.0


From 0edaa940d58749acb88dc179e771c174b4e8c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 26/30] fix: timed wait of yaclib_std::condition_variable
 without predicate did not link

---
 .../yaclib/fault/detail/condition_variable.hpp    | 12 ++++++++++--
 src/fault/condition_variable.cpp                  | 15 ---------------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/yaclib/fault/detail/condition_variable.hpp b/include/yaclib/fault/detail/condition_variable.hpp
index 8816de9..57bb799 100644
--- a/include/yaclib/fault/detail/condition_variable.hpp
+++ b/include/yaclib/fault/detail/condition_variable.hpp
@@ -11,8 +11,16 @@
 
 namespace yaclib::detail {
 
-constexpr std::cv_status CVStatusFrom(WaitStatus);
-constexpr std::cv_status CVStatusFrom(std::cv_status);
+constexpr std::cv_status CVStatusFrom(WaitStatus status) {
+  if (status == WaitStatus::Ready) {
+    return std::cv_status::no_timeout;
+  }
+  return std::cv_status::timeout;
+}
+
+constexpr std::cv_status CVStatusFrom(std::cv_status status) {
+  return status;
+}
 
 // TODO(myannyax) unite with ConditionVariableAny
 
diff --git a/src/fault/condition_variable.cpp b/src/fault/condition_variable.cpp
index c5f1d5d..acb7088 100644
--- a/src/fault/condition_variable.cpp
+++ b/src/fault/condition_variable.cpp
@@ -1,16 +1 @@
 #include <yaclib/fault/detail/condition_variable.hpp>
-
-namespace yaclib::detail {
-
-constexpr std::cv_status CVStatusFrom(WaitStatus status) {
-  if (status == WaitStatus::Ready) {
-    return std::cv_status::no_timeout;
-  }
-  return std::cv_status::timeout;
-}
-
-constexpr std::cv_status CVStatusFrom(std::cv_status status) {
-  return status;
-}
-
-}  // namespace yaclib::detail
-- 
2.43.0


From 4128c700743758fa3d8c44ba0350aa5a9957f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 27/30] fix: SetSeed kept the random count of the previous run,
 so recorded count could not be restored

---
 src/fault/util.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fault/util.cpp b/src/fault/util.cpp
index 4f2dd0e..3f16894 100644
--- a/src/fault/util.cpp
+++ b/src/fault/util.cpp
@@ -13,6 +13,9 @@ static thread_local std::mt19937_64 eng{sSeed};
 void SetSeed(std::uint32_t new_seed) {
   sSeed = new_seed;
   eng.seed(new_seed);
+#if YACLIB_FAULT == 2
+  sRandCount = 0;
+#endif
 }
 
 std::uint32_t GetSeed() {
-- 
2.43.0


From 8fccac53fff7c35b422c5b00c6000474cfa98d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 28/30] fix: ForwardToFaultRandomCount forwarded by the
 supplied count instead of to the supplied count

---
 src/fault/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fault/util.cpp b/src/fault/util.cpp
index 3f16894..57d8fcf 100644
--- a/src/fault/util.cpp
+++ b/src/fault/util.cpp
@@ -39,7 +39,7 @@ std::uint64_t GetRandCount() {
 
 void ForwardToRandCount([[maybe_unused]] std::uint64_t random_count) {
 #if YACLIB_FAULT == 2
-  for (std::uint64_t i = 0; i != random_count; ++i) {
+  while (sRandCount < random_count) {
     GetRandNumber(1);
   }
 #endif
-- 
2.43.0


From 684494b6e8cf4e477e53c2f82b72ca93a8d1fa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 29/30] fix: MakeSharedContractOn returns SharedContractOn

---
 include/yaclib/async/shared_contract.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/async/shared_contract.hpp b/include/yaclib/async/shared_contract.hpp
index 7bc01d8..d723e11 100644
--- a/include/yaclib/async/shared_contract.hpp
+++ b/include/yaclib/async/shared_contract.hpp
@@ -23,7 +23,7 @@ template <typename V = void, typename E = StopError>
 }
 
 template <typename V = void, typename E = StopError>
-[[nodiscard]] SharedContract<V, E> MakeSharedContractOn(IExecutor& e) {
+[[nodiscard]] SharedContractOn<V, E> MakeSharedContractOn(IExecutor& e) {
   auto core = MakeShared<detail::SharedCore<V, E>>(detail::kSharedRefWithFuture);
   e.IncRef();
   core->_executor.Reset(NoRefTag{}, &e);
-- 
2.43.0


From 4363019b17c066dc81f23f140144899c93660437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 30/30] fix: fiber atomic compare_exchange compares class
 values by representation

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 23fbcbb..a3b07be 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -115,7 +115,8 @@ class AtomicBase : public AtomicWait<T> {
   }
   // std::atomic compares object representations: NaN is equal to itself, 0.0 is not equal to -0.0
   static bool SameValue(const T& lhs, const T& rhs) noexcept {
-    if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) {
+    if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double> ||
+                  std::has_unique_object_representations_v<T>) {
       return std::memcmp(&lhs, &rhs, sizeof(T)) == 0;
     } else {
       return lhs == rhs;
-- 
2.43.0

