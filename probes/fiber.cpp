#include "opaque.hpp"
#include <yaclib_std/atomic>
#include <yaclib_std/chrono>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/random>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/inject.hpp>
#include <yaclib/fault/injector.hpp>
#include <fault/util.hpp>
#include <new>
using Clk = yaclib_std::chrono::steady_clock;
using ns = std::chrono::nanoseconds;
using tp = Clk::time_point;
#define LK(n, M)                                              \
  ENTRY void lk_##n##_make(M* out) { new (out) M(); }         \
  ENTRY void lk_##n##_lock(M& m) { m.lock(); }                \
  ENTRY bool lk_##n##_try_lock(M& m) { return m.try_lock(); } \
  ENTRY void lk_##n##_unlock(M& m) { m.unlock(); }
#define TL(n, M)                                                                      \
  LK(n, M)                                                                            \
  ENTRY bool lk_##n##_try_lock_for(M& m, long d) { return m.try_lock_for(ns(d)); }    \
  ENTRY bool lk_##n##_try_lock_until(M& m, long d) { return m.try_lock_until(tp(ns(d))); }
#define SL(n, M)                                                            \
  ENTRY void lk_##n##_lock_shared(M& m) { m.lock_shared(); }                \
  ENTRY bool lk_##n##_try_lock_shared(M& m) { return m.try_lock_shared(); } \
  ENTRY void lk_##n##_unlock_shared(M& m) { m.unlock_shared(); }
#define STL(n, M)                                                                                \
  SL(n, M)                                                                                       \
  ENTRY bool lk_##n##_try_lock_shared_for(M& m, long d) { return m.try_lock_shared_for(ns(d)); } \
  ENTRY bool lk_##n##_try_lock_shared_until(M& m, long d) { return m.try_lock_shared_until(tp(ns(d))); }
LK(mutex, yaclib_std::mutex)
TL(timed_mutex, yaclib_std::timed_mutex)
LK(recursive_mutex, yaclib_std::recursive_mutex)
TL(recursive_timed_mutex, yaclib_std::recursive_timed_mutex)
LK(shared_mutex, yaclib_std::shared_mutex)
SL(shared_mutex, yaclib_std::shared_mutex)
TL(shared_timed_mutex, yaclib_std::shared_timed_mutex)
STL(shared_timed_mutex, yaclib_std::shared_timed_mutex)
// condition variable
using CV = yaclib_std::condition_variable;
using Lk = std::unique_lock<yaclib_std::mutex>;
struct Pred {
  bool operator()() const noexcept;
  long p;
};
ENTRY void cv_make(CV* out) { new (out) CV(); }
ENTRY void cv_wait(CV& c, Lk& l) { c.wait(l); }
ENTRY void cv_wait_p(CV& c, Lk& l, Pred& p) { c.wait(l, p); }
ENTRY int cv_wait_for(CV& c, Lk& l, long d) { return c.wait_for(l, ns(d)) == std::cv_status::timeout; }
ENTRY int cv_wait_until(CV& c, Lk& l, long d) { return c.wait_until(l, tp(ns(d))) == std::cv_status::timeout; }
ENTRY bool cv_wait_for_p(CV& c, Lk& l, long d, Pred& p) { return c.wait_for(l, ns(d), p); }
ENTRY bool cv_wait_until_p(CV& c, Lk& l, long d, Pred& p) { return c.wait_until(l, tp(ns(d)), p); }
ENTRY void cv_notify_one(CV& c) { c.notify_one(); }
ENTRY void cv_notify_all(CV& c) { c.notify_all(); }
// wait queue
using Q = yaclib::detail::fiber::FiberQueue;
using FB = yaclib::detail::fiber::FiberBase;
using Sch = yaclib::fault::Scheduler;
ENTRY void q_make(Q* out) { new (out) Q(); }
ENTRY bool q_wait(Q& q) { return q.Wait(yaclib::detail::fiber::NoTimeoutTag{}) == yaclib::detail::WaitStatus::Timeout; }
ENTRY bool q_wait_for(Q& q, long d) { return q.Wait(ns(d)) == yaclib::detail::WaitStatus::Timeout; }
ENTRY bool q_wait_until(Q& q, long d) { return q.Wait(tp(ns(d))) == yaclib::detail::WaitStatus::Timeout; }
ENTRY void q_notify_one(Q& q) { q.NotifyOne(); }
ENTRY void q_notify_all(Q& q) { q.NotifyAll(); }
ENTRY bool q_empty(Q& q) { return q.Empty(); }
ENTRY void fb_make(FB* out) { new (out) FB(); }
ENTRY void sch_make(Sch* out) { new (out) Sch(); }
ENTRY void sch_set(Sch* s) { Sch::Set(s); }
ENTRY void sch_sleep(Sch& s, unsigned long t) { s.Sleep(t); }
ENTRY void sch_schedule(Sch& s, FB* f) { s.Schedule(f); }
ENTRY void sch_yield() { yaclib_std::this_thread::yield(); }
ENTRY void sch_sleep_for(long d) { yaclib_std::this_thread::sleep_for(ns(d)); }
ENTRY void sch_sleep_until(long d) { yaclib_std::this_thread::sleep_until(tp(ns(d))); }
// thread
using T = yaclib_std::thread;
using F0 = probe::Fn<void>;
ENTRY void th_make(T* out, F0&& f) { new (out) T(std::move(f)); }
ENTRY void th_empty(T* out) { new (out) T(); }
ENTRY void th_move(T* out, T& o) { new (out) T(std::move(o)); }
ENTRY void th_assign(T& a, T& b) { a = std::move(b); }
ENTRY bool th_joinable(T& t) { return t.joinable(); }
ENTRY void th_join(T& t) { t.join(); }
ENTRY void th_detach(T& t) { t.detach(); }
ENTRY void th_dtor(T& t) { t.~T(); }
// thread local pointers
using TP = YACLIB_THREAD_LOCAL_PTR(long);
ENTRY void tl_make(TP* out) { new (out) TP(); }
ENTRY void tl_make_v(TP* out, long* v) { new (out) TP(v); }
ENTRY void tl_copy(TP* out, TP& o) { new (out) TP(o); }
ENTRY void tl_move(TP* out, TP& o) { new (out) TP(std::move(o)); }
ENTRY void tl_set(TP& a, long* v) { a = v; }
ENTRY void tl_assign(TP& a, TP& b) { a = b; }
ENTRY void tl_assign_m(TP& a, TP& b) { a = std::move(b); }
ENTRY long* tl_get(TP& a) { return a.Get(); }
ENTRY bool tl_bool(TP& a) { return static_cast<bool>(a); }
ENTRY long* tl_arrow(TP& a) { return a.operator->(); }
ENTRY long* tl_deref(TP& a) { return &*a; }
ENTRY void cfg_pick(unsigned k) { yaclib::fiber::SetFaultRandomListPick(k); }
ENTRY void cfg_tick(unsigned k) { yaclib::fiber::SetFaultTickLength(k); }
ENTRY unsigned long sch_time(Sch& s) { return s.GetTimeNs(); }
ENTRY bool th_completed(FB& f) { return f.GetState() == yaclib::detail::fiber::Completed; }
// injection, seeds and replay
ENTRY void inj() { yaclib::InjectFault(); }
ENTRY bool weak_fail() { return yaclib::detail::ShouldFailAtomicWeak(); }
ENTRY unsigned long rnd(unsigned long max) { return yaclib::detail::GetRandNumber(max); }
ENTRY void cfg_seed(unsigned s) { yaclib::SetSeed(s); }
ENTRY void cfg_freq(unsigned k) { yaclib::SetFaultFrequency(k); }
ENTRY void cfg_sleep(unsigned k) { yaclib::SetFaultSleepTime(k); }
ENTRY void cfg_weak(unsigned k) { yaclib::SetAtomicFailFrequency(k); }
ENTRY void cfg_pause() { yaclib::GetInjector()->Disable(); }
ENTRY void cfg_resume() { yaclib::GetInjector()->Enable(); }
ENTRY unsigned long rec_count() { return yaclib::fiber::GetFaultRandomCount(); }
ENTRY unsigned rec_state() { return yaclib::fiber::GetInjectorState(); }
ENTRY void rep_count(unsigned long n) { yaclib::fiber::ForwardToFaultRandomCount(n); }
ENTRY void rep_state(unsigned s) { yaclib::fiber::SetInjectorState(s); }
using RD = yaclib_std::random::random_device;
ENTRY void rd_make(RD* out) { new (out) RD(); }
ENTRY unsigned long rd_call(RD& d) { return d(); }
template <typename A, typename B>
constexpr bool kSame = std::is_same_v<A, B>;
static_assert(!kSame<yaclib_std::chrono::steady_clock, std::chrono::steady_clock>, "virtual clock");
static_assert(!kSame<yaclib_std::chrono::system_clock, std::chrono::system_clock>, "virtual clock");
static_assert(!kSame<yaclib_std::chrono::high_resolution_clock, std::chrono::high_resolution_clock>, "virtual clock");
ENTRY long now_steady() { return yaclib_std::chrono::steady_clock::now().time_since_epoch().count(); }
ENTRY long now_system() { return yaclib_std::chrono::system_clock::now().time_since_epoch().count(); }
ENTRY long now_high() { return yaclib_std::chrono::high_resolution_clock::now().time_since_epoch().count(); }
