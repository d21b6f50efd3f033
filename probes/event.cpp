#include "opaque.hpp"
#include <chrono>
#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/algo/wait_group.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/coro/future.hpp>
using namespace yaclib;
using probe::V;
using probe::Er;
using F = Future<V, Er>;
using FO = FutureOn<V, Er>;
using SF = SharedFuture<V, Er>;
using Dur = std::chrono::nanoseconds;
using Tp = std::chrono::steady_clock::time_point;
using detail::InlineCore;
// Wait
ENTRY void w_wait1(F& a) { Wait(a); }
ENTRY void w_wait2(F& a, FO& b) { Wait(a, b); }
ENTRY void w_wait3(F& a, F& b, F& c) { Wait(a, b, c); }
ENTRY void w_waits1(SF& a) { Wait(a); }
ENTRY void w_waitus(F& a, SF& b) { Wait(a, b); }
ENTRY void w_waitss(SF& a, SF& b) { Wait(a, b); }
ENTRY void w_waitsus(SF& a, F& b, SF& c) { Wait(a, b, c); }
ENTRY void w_waitn(F* a, std::size_t n) { Wait(a, n); }
ENTRY void w_waitit(F* a, F* e) { Wait(a, e); }
ENTRY void w_waitsn(SF* a, std::size_t n) { Wait(a, n); }
ENTRY bool w_for1(const Dur& d, F& a) { return WaitFor(d, a); }
ENTRY bool w_for2(const Dur& d, F& a, FO& b) { return WaitFor(d, a, b); }
ENTRY bool w_for3(const Dur& d, F& a, F& b, F& c) { return WaitFor(d, a, b, c); }
ENTRY bool w_forn(const Dur& d, F* a, std::size_t n) { return WaitFor(d, a, n); }
ENTRY bool w_forit(const Dur& d, F* a, F* e) { return WaitFor(d, a, e); }
ENTRY bool w_until1(const Tp& d, F& a) { return WaitUntil(d, a); }
ENTRY bool w_until2(const Tp& d, F& a, F& b) { return WaitUntil(d, a, b); }
ENTRY bool w_untiln(const Tp& d, F* a, std::size_t n) { return WaitUntil(d, a, n); }
ENTRY bool w_untilit(const Tp& d, F* a, F* e) { return WaitUntil(d, a, e); }
// callbacks of the wait events
using E1 = detail::MultiEvent<detail::DefaultEvent, detail::OneCounter, detail::CallCallback>;
using EN = detail::MultiEvent<detail::DefaultEvent, detail::AtomicCounter, detail::CallCallback>;
using WG = WaitGroup<>;
using ME = detail::MultiEvent<OneShotEvent, detail::AtomicCounter, detail::CallCallback, detail::DropCallback>;
ENTRY InlineCore* cb_one_here(E1& e, InlineCore& c) { return e.GetCall().Here(c); }
ENTRY void* cb_one_next(E1& e, InlineCore& c) { return e.GetCall().Next(c).address(); }
ENTRY InlineCore* cb_many_here(EN& e, InlineCore& c) { return e.GetCall().Here(c); }
ENTRY void* cb_many_next(EN& e, InlineCore& c) { return e.GetCall().Next(c).address(); }
using HS = detail::EventHelperCallback<EN>;
ENTRY InlineCore* cb_help_here(HS& e, InlineCore& c) { return e.Here(c); }
ENTRY void* cb_help_next(HS& e, InlineCore& c) { return e.Next(c).address(); }
ENTRY InlineCore* cb_wgcall_here(ME& e, InlineCore& c) { return e.GetCall().Here(c); }
ENTRY void* cb_wgcall_next(ME& e, InlineCore& c) { return e.GetCall().Next(c).address(); }
ENTRY InlineCore* cb_wgdrop_here(ME& e, InlineCore& c) { return e.GetDrop().Here(c); }
ENTRY void* cb_wgdrop_next(ME& e, InlineCore& c) { return e.GetDrop().Next(c).address(); }
// events
ENTRY void me_set(detail::MutexEvent& e) { e.Set(); }
ENTRY void me_wait(detail::MutexEvent& e) { auto t = e.Make(); e.Wait(t); }
ENTRY bool me_for(detail::MutexEvent& e, const Dur& d) { auto t = e.Make(); return e.Wait(t, d); }
ENTRY bool me_until(detail::MutexEvent& e, const Tp& d) { auto t = e.Make(); return e.Wait(t, d); }
ENTRY void me_new(detail::MutexEvent* e) { new (e) detail::MutexEvent(); }
ENTRY void me_reset(detail::MutexEvent& e) { e.Reset(); }
// OneShotEvent
using Pr = detail::PromiseType<V, Er, false, false>;
using H = yaclib_std::coroutine_handle<Pr>;
ENTRY void oe_new(OneShotEvent* e) { new (e) OneShotEvent(); }
ENTRY bool oe_tryadd(OneShotEvent& e, Job& j) { return e.TryAdd(j); }
ENTRY bool oe_ready(OneShotEvent& e) { return e.Ready(); }
ENTRY void oe_wait(OneShotEvent& e) { e.Wait(); }
ENTRY bool oe_for(OneShotEvent& e, const Dur& d) { return e.WaitFor(d); }
ENTRY bool oe_until(OneShotEvent& e, const Tp& d) { return e.WaitUntil(d); }
ENTRY void oe_set(OneShotEvent& e) { e.Set(); }
ENTRY void oe_call(OneShotEvent& e) { e.Call(); }
ENTRY void oe_reset(OneShotEvent& e) { e.Reset(); }
ENTRY void oe_waiter_call(OneShotEvent::Waiter& w) { w.Call(); }
ENTRY void oe_timed_call(OneShotEvent::TimedWaiter& w) { w.Call(); }
using os_t = decltype(std::declval<OneShotEvent&>().AwaitSticky());
using oo_t = decltype(std::declval<OneShotEvent&>().AwaitOn(std::declval<IExecutor&>()));
template <typename A>
static bool suspend(A& a, H h) {
  if constexpr (std::is_void_v<decltype(a.await_suspend(h))>) {
    a.await_suspend(h);
    return true;
  } else {
    return a.await_suspend(h);
  }
}
// false: the coroutine goes on at once; true: it stays suspended
#define AWAIT(n, Arg, expr) ENTRY bool n(Arg e, IExecutor& ex, H h, void* frame) { \
  using A = decltype(expr); A& a = *new (frame) A(expr); (void)ex; \
  if (a.await_ready()) return false; return suspend(a, h); }
AWAIT(oa_inline, OneShotEvent&, e.AwaitInline())
AWAIT(oa_sticky, OneShotEvent&, e.AwaitSticky())
AWAIT(oa_on, OneShotEvent&, e.AwaitOn(ex))
AWAIT(oa_op, OneShotEvent&, e.operator co_await())
AWAIT(ga_inline, WG&, e.AwaitInline())
AWAIT(ga_sticky, WG&, e.AwaitSticky())
AWAIT(ga_on, WG&, e.AwaitOn(ex))
AWAIT(ga_op, WG&, e.operator co_await())
ENTRY void os_call(os_t& a) { a.Call(); }
ENTRY void oo_call(oo_t& a) { a.Call(); }
// WaitGroup
ENTRY void wg_new(WG* g, std::size_t n) { new (g) WG(n); }
ENTRY void wg_add(WG& g, std::size_t n) { g.Add(n); }
ENTRY void wg_add1(WG& g) { g.Add(); }
ENTRY void wg_done(WG& g, std::size_t n) { g.Done(n); }
ENTRY void wg_done1(WG& g) { g.Done(); }
ENTRY std::size_t wg_count(WG& g) { return g.Count(); }
ENTRY void wg_wait(WG& g) { g.Wait(); }
ENTRY bool wg_for(WG& g, const Dur& d) { return g.WaitFor(d); }
ENTRY bool wg_until(WG& g, const Tp& d) { return g.WaitUntil(d); }
ENTRY void wg_reset(WG& g, std::size_t n) { g.Reset(n); }
ENTRY void wgc_1(WG& g, F& a) { g.Consume(std::move(a)); }
ENTRY void wgc_2(WG& g, F& a, FO& b) { g.Consume(std::move(a), std::move(b)); }
ENTRY void wgc_n(WG& g, F* a, std::size_t n) { g.Consume(a, n); }
ENTRY void wgc_it(WG& g, F* a, F* e) { g.Consume(a, e); }
ENTRY void wgcx_1(WG& g, F& a) { g.Consume<false>(std::move(a)); }
ENTRY void wgcx_n(WG& g, F* a, std::size_t n) { g.Consume<false>(a, n); }
ENTRY void wga_1(WG& g, F& a) { g.Attach(a); }
ENTRY void wga_2(WG& g, F& a, FO& b) { g.Attach(a, b); }
ENTRY void wga_n(WG& g, F* a, std::size_t n) { g.Attach(a, n); }
ENTRY void wga_it(WG& g, F* a, F* e) { g.Attach(a, e); }
ENTRY void wgax_1(WG& g, F& a) { g.Attach<false>(a); }
ENTRY void wgax_n(WG& g, F* a, std::size_t n) { g.Attach<false>(a, n); }
