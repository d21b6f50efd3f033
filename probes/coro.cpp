// Real coroutines around every kind of co_await: the coroutine is lowered by the compiler's own passes, so the analysis
// sees the body, the awaiter, the promise and the frame together.
#include "opaque.hpp"
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_inline.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
using namespace yaclib;
using probe::V;
using probe::Er;
using F = Future<V, Er>;
using FO = FutureOn<V, Er>;
using S = SharedFuture<V, Er>;
using T = Task<V, Er>;
using FV = Future<void, Er>;
using SV = SharedFuture<void, Er>;
using TV = Task<void, Er>;
using E = IExecutor;
namespace probe {
void mark(int);             // may throw
V use(int, const V&);       // may throw
V make(int);
void exe(IExecutor&);
// a live local of the coroutine
struct Gd { Gd() noexcept; ~Gd(); long p[1]; };
}  // namespace probe
// body(name, result, parameters): mark(1), the await, the use of its outcome
#define VAL(n, R, P, A, EXPR)                                                                                    \
  static R c_##n P { probe::Gd g; probe::mark(1); V v = co_await EXPR; co_return probe::use(2, v); }             \
  ENTRY R co_##n A
#define UNIT(n, R, P, A, ...)                                                                                    \
  static R c_##n P { probe::Gd g; probe::mark(1); __VA_ARGS__; probe::mark(2); co_return{}; }                    \
  ENTRY R co_##n A
VAL(fut, F, (F f), (F& f), std::move(f)) { return c_fut(std::move(f)); }
VAL(futon, F, (FO f), (FO& f), std::move(f)) { return c_futon(std::move(f)); }
VAL(sfut, F, (S f), (S& f), f) { return c_sfut(f); }
VAL(sref, F, (S& f), (S& f), f) { return c_sref(f); }
VAL(task, F, (T f), (T& f), std::move(f)) { return c_task(std::move(f)); }
VAL(tfut, T, (F f), (F& f), std::move(f)) { return c_tfut(std::move(f)); }
VAL(tsfut, T, (S f), (S& f), f) { return c_tsfut(f); }
VAL(ttask, T, (T f), (T& f), std::move(f)) { return c_ttask(std::move(f)); }
VAL(hfut, S, (F f), (F& f), std::move(f)) { return c_hfut(std::move(f)); }
VAL(hsfut, S, (S f), (S& f), f) { return c_hsfut(f); }
UNIT(awt1, FV, (F& f), (F& f), co_await Await(f)) { return c_awt1(f); }
UNIT(awt1on, FV, (FO& f), (FO& f), co_await Await(f)) { return c_awt1on(f); }
UNIT(awts1, FV, (S& f), (S& f), co_await Await(f)) { return c_awts1(f); }
UNIT(awttask, FV, (T& f), (T& f), co_await Await(f)) { return c_awttask(f); }
UNIT(awt2, FV, (F& f, FO& h), (F& f, FO& h), co_await Await(f, h)) { return c_awt2(f, h); }
UNIT(awtus, FV, (F& f, S& h), (F& f, S& h), co_await Await(f, h)) { return c_awtus(f, h); }
UNIT(awtss, FV, (S& f, S& h), (S& f, S& h), co_await Await(f, h)) { return c_awtss(f, h); }
UNIT(awtn, FV, (F* f), (F* f), co_await Await(f, 2)) { return c_awtn(f); }
UNIT(awtit, FV, (F* f), (F* f), co_await Await(f, f + 2)) { return c_awtit(f); }
UNIT(awtsn, FV, (S* f), (S* f), co_await Await(f, 2)) { return c_awtsn(f); }
UNIT(ste1, FV, (F& f, E& e), (F& f, E& e), co_await On(e); co_await AwaitSticky(f)) { return c_ste1(f, e); }
UNIT(stes1, FV, (S& f, E& e), (S& f, E& e), co_await On(e); co_await AwaitSticky(f)) { return c_stes1(f, e); }
UNIT(ste2, FV, (F& f, F& h, E& e), (F& f, F& h, E& e), co_await On(e); co_await AwaitSticky(f, h)) { return c_ste2(f, h, e); }
UNIT(steus, FV, (F& f, S& h, E& e), (F& f, S& h, E& e), co_await On(e); co_await AwaitSticky(f, h)) { return c_steus(f, h, e); }
UNIT(sten, FV, (F* f, E& e), (F* f, E& e), co_await On(e); co_await AwaitSticky(f, 2)) { return c_sten(f, e); }
UNIT(stesn, FV, (S* f, E& e), (S* f, E& e), co_await On(e); co_await AwaitSticky(f, f + 2)) { return c_stesn(f, e); }
UNIT(aon1, FV, (F& f, E& e), (F& f, E& e), co_await AwaitOn(e, f)) { return c_aon1(f, e); }
UNIT(aons1, FV, (S& f, E& e), (S& f, E& e), co_await AwaitOn(e, f)) { return c_aons1(f, e); }
UNIT(aon2, FV, (F& f, F& h, E& e), (F& f, F& h, E& e), co_await AwaitOn(e, f, h)) { return c_aon2(f, h, e); }
UNIT(aonus, FV, (F& f, S& h, E& e), (F& f, S& h, E& e), co_await AwaitOn(e, f, h)) { return c_aonus(f, h, e); }
UNIT(aonn, FV, (F* f, E& e), (F* f, E& e), co_await AwaitOn(e, f, 2)) { return c_aonn(f, e); }
UNIT(aonsn, FV, (S* f, E& e), (S* f, E& e), co_await AwaitOn(e, f, f + 2)) { return c_aonsn(f, e); }
UNIT(on, FV, (E& e), (E& e), co_await On(e)) { return c_on(e); }
UNIT(ton, TV, (E& e), (E& e), co_await On(e)) { return c_ton(e); }
UNIT(hon, SV, (E& e), (E& e), co_await On(e)) { return c_hon(e); }
UNIT(yld, FV, (E& e), (E& e), co_await On(e); co_await Yield()) { return c_yld(e); }
UNIT(kyld, FV, (E& e), (E& e), co_await On(e); co_await kYield) { return c_kyld(e); }
UNIT(cur, FV, (E& e), (E& e), co_await On(e); auto& x = co_await CurrentExecutor(); probe::exe(x)) { return c_cur(e); }
UNIT(ycur, FV, (E& e), (E& e), co_await On(e); auto& x = co_await Yield(); probe::exe(x)) { return c_ycur(e); }
UNIT(curf, FV, (F f), (F& f), co_await std::move(f); auto& x = co_await CurrentExecutor(); probe::exe(x)) { return c_curf(std::move(f)); }
UNIT(cura, FV, (F& f), (F& f), co_await Await(f); auto& x = co_await CurrentExecutor(); probe::exe(x)) { return c_cura(f); }
UNIT(aonc, FV, (F& f, E& e), (F& f, E& e), co_await AwaitOn(e, f); auto& x = co_await CurrentExecutor(); probe::exe(x)) { return c_aonc(f, e); }
UNIT(aonc2, FV, (F& f, S& h, E& e), (F& f, S& h, E& e), co_await AwaitOn(e, f, h); auto& x = co_await CurrentExecutor(); probe::exe(x)) { return c_aonc2(f, h, e); }
UNIT(stec, FV, (F& f, E& e), (F& f, E& e), co_await On(e); co_await AwaitSticky(f); auto& x = co_await CurrentExecutor(); probe::exe(x)) { return c_stec(f, e); }
UNIT(stec2, FV, (F& f, F& h, E& e), (F& f, F& h, E& e), co_await On(e); co_await AwaitSticky(f, h); auto& x = co_await CurrentExecutor(); probe::exe(x)) { return c_stec2(f, h, e); }
// co_return forms
#define RET(n, R, P, A, ...) static R c_##n P { probe::Gd g; probe::mark(1); __VA_ARGS__; } ENTRY R co_##n A
RET(rval, F, (), (), co_return probe::make(2)) { return c_rval(); }
RET(rexc, F, (std::exception_ptr x), (std::exception_ptr& x), co_return std::move(x)) { return c_rexc(std::move(x)); }
RET(rstop, F, (), (), co_return StopTag{}) { return c_rstop(); }
RET(rerr, F, (Er& x), (Er& x), co_return std::move(x)) { return c_rerr(x); }
RET(runit, FV, (), (), co_return{}) { return c_runit(); }
RET(hval, S, (), (), co_return probe::make(2)) { return c_hval(); }
RET(tval, T, (), (), co_return probe::make(2)) { return c_tval(); }
// what the owner of a returned handle does with it
#define OWNER(n, T_) ENTRY void own_##n(T_& f) { f.~T_(); }
OWNER(f, F) OWNER(fv, FV) OWNER(s, S) OWNER(sv, SV) OWNER(t, T) OWNER(tv, TV)
