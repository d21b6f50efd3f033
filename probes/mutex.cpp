#include "opaque.hpp"
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/mutex.hpp>
#include <yaclib/coro/shared_mutex.hpp>
using namespace yaclib;
using probe::V;
using probe::Er;
using detail::BaseCore;
using Pr = detail::PromiseType<V, Er, false, false>;
using H = yaclib_std::coroutine_handle<Pr>;
// Unlock()/UnlockOn()/Lock() are entered the way the compiler expands co_await: await_ready, then await_suspend
#define MX(n, M)                                                                                     \
  ENTRY void mx##n##_make(M* out) { new (out) M(); }                                                 \
  ENTRY bool mx##n##_trylock(M& m) { return m.TryLock(); }                                           \
  ENTRY bool mx##n##_lock_ready(M& m) { auto a = m.Lock(); return a.await_ready(); }                 \
  ENTRY bool mx##n##_lock_suspend(M& m, H h) { auto a = m.Lock(); return a.await_suspend(h); }       \
  ENTRY void mx##n##_unlock_here(M& m) { m.UnlockHere(); }                                           \
  ENTRY void* mx##n##_unlock(M& m, H h) {                                                            \
    auto a = m.Unlock();                                                                             \
    if (a.await_ready()) return nullptr;                                                             \
    return a.await_suspend(h).address();                                                             \
  }                                                                                                  \
  ENTRY void* mx##n##_unlock_on(M& m, H h, IExecutor& e) {                                           \
    auto a = m.UnlockOn(e);                                                                          \
    if (a.await_ready()) return nullptr;                                                             \
    return a.await_suspend(h).address();                                                             \
  }                                                                                                  \
  ENTRY void* mx##n##_sticky_unlock(StickyGuard<M>& g, H h) {                                        \
    auto a = g.Unlock();                                                                             \
    if (a.await_ready()) return nullptr;                                                             \
    return a.await_suspend(h).address();                                                             \
  }                                                                                                  \
  ENTRY bool mx##n##_sticky_lock(StickyGuard<M>& g, H h) {                                           \
    auto a = g.Lock();                                                                               \
    if (a.await_ready()) return false;                                                               \
    return a.await_suspend(h);                                                                       \
  }                                                                                                  \
  ENTRY void mx##n##_sticky_guard(M& m, H h, StickyGuard<M>* out) {                                  \
    auto a = m.GuardSticky();                                                                        \
    if (!a.await_ready()) a.await_suspend(h);                                                        \
    new (out) StickyGuard<M>(a.await_resume());                                                      \
  }                                                                                                  \
  ENTRY void mx##n##_guard(M& m, H h, UniqueGuard<M>* out) {                                         \
    auto a = m.Guard();                                                                              \
    if (!a.await_ready()) a.await_suspend(h);                                                        \
    new (out) UniqueGuard<M>(a.await_resume());                                                      \
  }                                                                                                  \
  ENTRY void mx##n##_tryguard(M& m, UniqueGuard<M>* out) { new (out) UniqueGuard<M>(m.TryGuard()); }
using M00 = Mutex<false, false>;
using M01 = Mutex<false, true>;
using M10 = Mutex<true, false>;
using M11 = Mutex<true, true>;
MX(00, M00)
MX(01, M01)
MX(10, M10)
MX(11, M11)
// guards
using UG = UniqueGuard<M10>;
using SG = StickyGuard<M10>;
ENTRY void g_dtor(UG& g) { g.~UG(); }
ENTRY bool g_trylock(UG& g) { return g.TryLock(); }
ENTRY void g_unlock_here(UG& g) { g.UnlockHere(); }
ENTRY M10* g_release(UG& g) { return g.Release(); }
ENTRY M10* g_mutex(UG& g) { return g.Mutex(); }
ENTRY bool g_owns(UG& g) { return g.OwnsLock(); }
ENTRY void g_move(UG& g, UG* out) { new (out) UG(std::move(g)); }
ENTRY void g_assign(UG& g, UG& o) { g = std::move(o); }
ENTRY void g_swap(UG& g, UG& o) { g.Swap(o); }
ENTRY void g_defer(M10& m, UG* out) { new (out) UG(m, std::defer_lock); }
ENTRY void g_adopt(M10& m, UG* out) { new (out) UG(m, std::adopt_lock); }
ENTRY void g_try(M10& m, UG* out) { new (out) UG(m, std::try_to_lock); }
ENTRY void* g_unlock(UG& g, H h) {
  auto a = g.Unlock();
  if (a.await_ready()) return nullptr;
  return a.await_suspend(h).address();
}
ENTRY bool g_lock(UG& g, H h) {
  auto a = g.Lock();
  if (a.await_ready()) return false;
  return a.await_suspend(h);
}
ENTRY void sg_dtor(SG& g) { g.~SG(); }
ENTRY void sg_move(SG& g, SG* out) { new (out) SG(std::move(g)); }
ENTRY void sg_assign(SG& g, SG& o) { g = std::move(o); }
// shared mutex
#define SM(n, M)                                                                                          \
  ENTRY void sm##n##_make(M* out) { new (out) M(); }                                                      \
  ENTRY bool sm##n##_trylock(M& m) { return m.TryLock(); }                                                \
  ENTRY bool sm##n##_trylock_shared(M& m) { return m.TryLockShared(); }                                   \
  ENTRY bool sm##n##_lock_ready(M& m) { auto a = m.Lock(); return a.await_ready(); }                      \
  ENTRY bool sm##n##_lock_suspend(M& m, H h) { auto a = m.Lock(); return a.await_suspend(h); }            \
  ENTRY bool sm##n##_shared_ready(M& m) { auto a = m.LockShared(); return a.await_ready(); }              \
  ENTRY bool sm##n##_shared_suspend(M& m, H h) { auto a = m.LockShared(); return a.await_suspend(h); }    \
  ENTRY void sm##n##_unlock(M& m) { m.UnlockHere(); }                                                     \
  ENTRY void sm##n##_unlock_shared(M& m) { m.UnlockHereShared(); }                                        \
  ENTRY void sm##n##_tryguard(M& m, UniqueGuard<M>* out) { new (out) UniqueGuard<M>(m.TryGuard()); }      \
  ENTRY void sm##n##_tryguard_shared(M& m, SharedGuard<M>* out) { new (out) SharedGuard<M>(m.TryGuardShared()); } \
  ENTRY void sm##n##_guard(M& m, H h, UniqueGuard<M>* out) {                                              \
    auto a = m.Guard();                                                                                   \
    if (!a.await_ready()) a.await_suspend(h);                                                             \
    new (out) UniqueGuard<M>(a.await_resume());                                                           \
  }                                                                                                       \
  ENTRY void sm##n##_guard_shared(M& m, H h, SharedGuard<M>* out) {                                       \
    auto a = m.GuardShared();                                                                             \
    if (!a.await_ready()) a.await_suspend(h);                                                             \
    new (out) SharedGuard<M>(a.await_resume());                                                           \
  }
using S00 = SharedMutex<false, false>;
using S01 = SharedMutex<false, true>;
using S10 = SharedMutex<true, false>;
using S11 = SharedMutex<true, true>;
SM(00, S00)
SM(01, S01)
SM(10, S10)
SM(11, S11)
using SUG = UniqueGuard<S10>;
using SSG = SharedGuard<S10>;
ENTRY void sug_dtor(SUG& g) { g.~SUG(); }
ENTRY void ssg_dtor(SSG& g) { g.~SSG(); }
ENTRY bool ssg_trylock(SSG& g) { return g.TryLock(); }
ENTRY void ssg_unlock_here(SSG& g) { g.UnlockHere(); }
// intrusive stack
ENTRY void stack_lifo(detail::Node& a, detail::Node& b, detail::Node& c, detail::Node** out, bool* empty) {
  detail::Stack l;
  empty[0] = l.Empty();
  l.PushBack(a);
  empty[1] = l.Empty();
  l.PushBack(b);
  detail::Stack m{std::move(l)};
  empty[2] = l.Empty();
  out[0] = &m.PopFront();
  m.PushBack(c);
  out[1] = &m.PopFront();
  out[2] = &m.PopFront();
  empty[3] = m.Empty();
}
// spinlock
using SL = detail::Spinlock<std::uint32_t>;
ENTRY void spin_lock(SL& s) { s.lock(); }
ENTRY void spin_unlock(SL& s) { s.unlock(); }
ENTRY void spin_make(SL* out) { new (out) SL(); }
