#include "opaque.hpp"
#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/shared_promise.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/lazy/task.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
using namespace yaclib;
using probe::Fn;
using probe::V;
using probe::Er;
using F = Future<V>;
using FO = FutureOn<V>;
using P = Promise<V>;
using SF = SharedFuture<V>;
using SFO = SharedFutureOn<V>;
using SP = SharedPromise<V>;
using T = Task<V>;
#define OUT(TT, x) new (out) TT(x)
// ---- producer side
ENTRY void set_value(P& p, V& v) { std::move(p).Set(std::move(v)); }
ENTRY void set_error(P& p) { std::move(p).Set(StopTag{}); }
ENTRY void set_exception(P& p, std::exception_ptr& e) { std::move(p).Set(std::move(e)); }
ENTRY void set_result(P& p, Result<V>& r) { std::move(p).Set(std::move(r)); }
ENTRY void set_void(Promise<>& p) { std::move(p).Set(); }
ENTRY void set_int(Promise<int>& p, int v) { std::move(p).Set(v); }
ENTRY void set_custom(Promise<V, Er>& p, V& v) { std::move(p).Set(std::move(v)); }
ENTRY void drop_promise(P& p) { p.~P(); }
ENTRY void drop_promise_void(Promise<>& p) { p.~Promise(); }
ENTRY void sset_value(SP& p, V& v) { std::move(p).Set(std::move(v)); }
ENTRY void sset_error(SP& p) { std::move(p).Set(StopTag{}); }
ENTRY void sdrop_promise(SP& p) { p.~SP(); }
// ---- consumer side
ENTRY void drop_future(F& f) { f.~F(); }
ENTRY void drop_future_on(FO& f) { f.~FO(); }
ENTRY void detach_future(F& f) { std::move(f).Detach(); }
ENTRY bool ready_future(const F& f) { return f.Ready(); }
ENTRY bool ready_future_on(const FO& f) { return f.Ready(); }
ENTRY bool ready_shared(const SF& f) { return f.Ready(); }
ENTRY bool ready_task(const T& f) { return f.Ready(); }
ENTRY const Result<V>* peek_future(const F& f) { return f.Get(); }
ENTRY void get_future(F& f, Result<V>* out) { OUT(Result<V>, std::move(f).Get()); }
ENTRY void get_future_on(FO& f, Result<V>* out) { OUT(Result<V>, std::move(f).Get()); }
ENTRY void touch_future(F& f, Result<V>* out) { OUT(Result<V>, std::move(f).Touch()); }
ENTRY void connect_uu(F& f, P& p) { Connect(std::move(f), std::move(p)); }
ENTRY void connect_su(const SF& f, P& p) { Connect(f, std::move(p)); }
ENTRY void connect_us(F& f, SP& p) { Connect(std::move(f), std::move(p)); }
ENTRY void connect_ss(const SF& f, SP& p) { Connect(f, std::move(p)); }
ENTRY void connect_pu(SP& f, P& p) { Connect(f, std::move(p)); }
ENTRY void connect_ps(SP& f, SP& p) { Connect(f, std::move(p)); }
ENTRY void make_contract(std::pair<F, P>* out) { new (out) std::pair<F, P>(MakeContract<V>()); }
ENTRY void make_contract_on(IExecutor& e, std::pair<FO, P>* out) { new (out) std::pair<FO, P>(MakeContractOn<V>(e)); }
ENTRY void make_shared_contract(std::pair<SF, SP>* out) { new (out) std::pair<SF, SP>(MakeSharedContract<V>()); }
ENTRY void make_shared_contract_on(IExecutor& e, std::pair<SFO, SP>* out) { new (out) std::pair<SFO, SP>(MakeSharedContractOn<V>(e)); }
ENTRY void make_future_value(V& v, F* out) { OUT(F, MakeFuture<V>(std::move(v))); }
ENTRY void make_future_error(F* out) { OUT(F, (MakeFuture<V, StopError>(StopTag{}))); }
ENTRY void make_future_void(Future<>* out) { OUT(Future<>, MakeFuture()); }
ENTRY void make_task_value(V& v, T* out) { OUT(T, MakeTask<V>(std::move(v))); }
// ---- signature value
ENTRY void att_uinl_value(F& f, Fn<V, V>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_value(F& f, IExecutor& e, Fn<V, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_value(T& f, IExecutor& e, Fn<V, V>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_value(T& f, Fn<V, V>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uoninh_value(FO& f, Fn<V, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(std::move(fn))); }
ENTRY void att_uoninl_value(FO& f, Fn<V, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_son_value(const SF& f, IExecutor& e, Fn<V, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(e, std::move(fn))); }
ENTRY void att_sinl_value(const SF& f, Fn<V, V>& fn, Future<V>* out) { OUT(Future<V>, f.ThenInline(std::move(fn))); }
ENTRY void att_soninh_value(const SFO& f, Fn<V, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(std::move(fn))); }
// ---- signature vref
ENTRY void att_uinl_vref(F& f, Fn<V, V&&>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_vref(F& f, IExecutor& e, Fn<V, V&&>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_vref(T& f, IExecutor& e, Fn<V, V&&>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_vref(T& f, Fn<V, V&&>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
// ---- signature result
ENTRY void att_uinl_result(F& f, Fn<V, Result<V>>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_result(F& f, IExecutor& e, Fn<V, Result<V>>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_result(T& f, IExecutor& e, Fn<V, Result<V>>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_result(T& f, Fn<V, Result<V>>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uoninh_result(FO& f, Fn<V, Result<V>>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(std::move(fn))); }
ENTRY void att_uoninl_result(FO& f, Fn<V, Result<V>>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_son_result(const SF& f, IExecutor& e, Fn<V, Result<V>>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(e, std::move(fn))); }
ENTRY void att_sinl_result(const SF& f, Fn<V, Result<V>>& fn, Future<V>* out) { OUT(Future<V>, f.ThenInline(std::move(fn))); }
ENTRY void att_soninh_result(const SFO& f, Fn<V, Result<V>>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(std::move(fn))); }
// ---- signature rref
ENTRY void att_uinl_rref(F& f, Fn<V, Result<V>&&>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_rref(F& f, IExecutor& e, Fn<V, Result<V>&&>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_rref(T& f, IExecutor& e, Fn<V, Result<V>&&>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_rref(T& f, Fn<V, Result<V>&&>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
// ---- signature rcref
ENTRY void att_uinl_rcref(F& f, Fn<V, const Result<V>&>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_rcref(F& f, IExecutor& e, Fn<V, const Result<V>&>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_rcref(T& f, IExecutor& e, Fn<V, const Result<V>&>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_rcref(T& f, Fn<V, const Result<V>&>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uoninh_rcref(FO& f, Fn<V, const Result<V>&>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(std::move(fn))); }
ENTRY void att_uoninl_rcref(FO& f, Fn<V, const Result<V>&>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_son_rcref(const SF& f, IExecutor& e, Fn<V, const Result<V>&>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(e, std::move(fn))); }
ENTRY void att_sinl_rcref(const SF& f, Fn<V, const Result<V>&>& fn, Future<V>* out) { OUT(Future<V>, f.ThenInline(std::move(fn))); }
ENTRY void att_soninh_rcref(const SFO& f, Fn<V, const Result<V>&>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(std::move(fn))); }
// ---- signature error
ENTRY void att_uinl_error(F& f, Fn<V, StopError>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_error(F& f, IExecutor& e, Fn<V, StopError>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_error(T& f, IExecutor& e, Fn<V, StopError>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_error(T& f, Fn<V, StopError>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uoninh_error(FO& f, Fn<V, StopError>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(std::move(fn))); }
ENTRY void att_uoninl_error(FO& f, Fn<V, StopError>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_son_error(const SF& f, IExecutor& e, Fn<V, StopError>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(e, std::move(fn))); }
ENTRY void att_sinl_error(const SF& f, Fn<V, StopError>& fn, Future<V>* out) { OUT(Future<V>, f.ThenInline(std::move(fn))); }
ENTRY void att_soninh_error(const SFO& f, Fn<V, StopError>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(std::move(fn))); }
// ---- signature exc
ENTRY void att_uinl_exc(F& f, Fn<V, std::exception_ptr>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_exc(F& f, IExecutor& e, Fn<V, std::exception_ptr>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_exc(T& f, IExecutor& e, Fn<V, std::exception_ptr>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_exc(T& f, Fn<V, std::exception_ptr>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uoninh_exc(FO& f, Fn<V, std::exception_ptr>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(std::move(fn))); }
ENTRY void att_uoninl_exc(FO& f, Fn<V, std::exception_ptr>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_son_exc(const SF& f, IExecutor& e, Fn<V, std::exception_ptr>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(e, std::move(fn))); }
ENTRY void att_sinl_exc(const SF& f, Fn<V, std::exception_ptr>& fn, Future<V>* out) { OUT(Future<V>, f.ThenInline(std::move(fn))); }
ENTRY void att_soninh_exc(const SFO& f, Fn<V, std::exception_ptr>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(std::move(fn))); }
// ---- signature retres
ENTRY void att_uinl_retres(F& f, Fn<Result<V>, V>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_retres(F& f, IExecutor& e, Fn<Result<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_retres(T& f, IExecutor& e, Fn<Result<V>, V>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_retres(T& f, Fn<Result<V>, V>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
// ---- signature retvoid
ENTRY void att_uinl_retvoid(F& f, Fn<void, V>& fn, Future<void>* out) { OUT(Future<void>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_retvoid(F& f, IExecutor& e, Fn<void, V>& fn, FutureOn<void>* out) { OUT(FutureOn<void>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_retvoid(T& f, IExecutor& e, Fn<void, V>& fn, Task<void>* out) { OUT(Task<void>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_retvoid(T& f, Fn<void, V>& fn, Task<void>* out) { OUT(Task<void>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uoninh_retvoid(FO& f, Fn<void, V>& fn, FutureOn<void>* out) { OUT(FutureOn<void>, std::move(f).Then(std::move(fn))); }
ENTRY void att_uoninl_retvoid(FO& f, Fn<void, V>& fn, FutureOn<void>* out) { OUT(FutureOn<void>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_son_retvoid(const SF& f, IExecutor& e, Fn<void, V>& fn, FutureOn<void>* out) { OUT(FutureOn<void>, f.Then(e, std::move(fn))); }
ENTRY void att_sinl_retvoid(const SF& f, Fn<void, V>& fn, Future<void>* out) { OUT(Future<void>, f.ThenInline(std::move(fn))); }
ENTRY void att_soninh_retvoid(const SFO& f, Fn<void, V>& fn, FutureOn<void>* out) { OUT(FutureOn<void>, f.Then(std::move(fn))); }
// ---- signature retvoidres
ENTRY void att_uinl_retvoidres(F& f, Fn<void, Result<V>>& fn, Future<void>* out) { OUT(Future<void>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_retvoidres(F& f, IExecutor& e, Fn<void, Result<V>>& fn, FutureOn<void>* out) { OUT(FutureOn<void>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_retvoidres(T& f, IExecutor& e, Fn<void, Result<V>>& fn, Task<void>* out) { OUT(Task<void>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_retvoidres(T& f, Fn<void, Result<V>>& fn, Task<void>* out) { OUT(Task<void>, std::move(f).ThenInline(std::move(fn))); }
// ---- signature errres
ENTRY void att_uinl_errres(F& f, Fn<Result<V>, StopError>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_errres(F& f, IExecutor& e, Fn<Result<V>, StopError>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_errres(T& f, IExecutor& e, Fn<Result<V>, StopError>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_errres(T& f, Fn<Result<V>, StopError>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
// ---- signature fut
ENTRY void att_uinl_fut(F& f, Fn<Future<V>, V>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_fut(F& f, IExecutor& e, Fn<Future<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_fut(T& f, IExecutor& e, Fn<Future<V>, V>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_fut(T& f, Fn<Future<V>, V>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uoninh_fut(FO& f, Fn<Future<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(std::move(fn))); }
ENTRY void att_uoninl_fut(FO& f, Fn<Future<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_son_fut(const SF& f, IExecutor& e, Fn<Future<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(e, std::move(fn))); }
ENTRY void att_sinl_fut(const SF& f, Fn<Future<V>, V>& fn, Future<V>* out) { OUT(Future<V>, f.ThenInline(std::move(fn))); }
ENTRY void att_soninh_fut(const SFO& f, Fn<Future<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(std::move(fn))); }
// ---- signature futon
ENTRY void att_uinl_futon(F& f, Fn<FutureOn<V>, Result<V>>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_futon(F& f, IExecutor& e, Fn<FutureOn<V>, Result<V>>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_futon(T& f, IExecutor& e, Fn<FutureOn<V>, Result<V>>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_futon(T& f, Fn<FutureOn<V>, Result<V>>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
// ---- signature sfut
ENTRY void att_uinl_sfut(F& f, Fn<SharedFuture<V>, V>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_sfut(F& f, IExecutor& e, Fn<SharedFuture<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_sfut(T& f, IExecutor& e, Fn<SharedFuture<V>, V>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_sfut(T& f, Fn<SharedFuture<V>, V>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uoninh_sfut(FO& f, Fn<SharedFuture<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(std::move(fn))); }
ENTRY void att_uoninl_sfut(FO& f, Fn<SharedFuture<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_son_sfut(const SF& f, IExecutor& e, Fn<SharedFuture<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(e, std::move(fn))); }
ENTRY void att_sinl_sfut(const SF& f, Fn<SharedFuture<V>, V>& fn, Future<V>* out) { OUT(Future<V>, f.ThenInline(std::move(fn))); }
ENTRY void att_soninh_sfut(const SFO& f, Fn<SharedFuture<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(std::move(fn))); }
// ---- signature task
ENTRY void att_uinl_task(F& f, Fn<Task<V>, V>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_task(F& f, IExecutor& e, Fn<Task<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_task(T& f, IExecutor& e, Fn<Task<V>, V>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_task(T& f, Fn<Task<V>, V>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uoninh_task(FO& f, Fn<Task<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(std::move(fn))); }
ENTRY void att_uoninl_task(FO& f, Fn<Task<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_son_task(const SF& f, IExecutor& e, Fn<Task<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(e, std::move(fn))); }
ENTRY void att_sinl_task(const SF& f, Fn<Task<V>, V>& fn, Future<V>* out) { OUT(Future<V>, f.ThenInline(std::move(fn))); }
ENTRY void att_soninh_task(const SFO& f, Fn<Task<V>, V>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, f.Then(std::move(fn))); }
// ---- signature taskerr
ENTRY void att_uinl_taskerr(F& f, Fn<Task<V>, StopError>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_taskerr(F& f, IExecutor& e, Fn<Task<V>, StopError>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_taskerr(T& f, IExecutor& e, Fn<Task<V>, StopError>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_taskerr(T& f, Fn<Task<V>, StopError>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
// ---- signature futexc
ENTRY void att_uinl_futexc(F& f, Fn<Future<V>, std::exception_ptr>& fn, Future<V>* out) { OUT(Future<V>, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_futexc(F& f, IExecutor& e, Fn<Future<V>, std::exception_ptr>& fn, FutureOn<V>* out) { OUT(FutureOn<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_futexc(T& f, IExecutor& e, Fn<Future<V>, std::exception_ptr>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazyinl_futexc(T& f, Fn<Future<V>, std::exception_ptr>& fn, Task<V>* out) { OUT(Task<V>, std::move(f).ThenInline(std::move(fn))); }
// ---- client error type
using FE = Future<V, Er>;
using TE = Task<V, Er>;
ENTRY void att_uinl_cerr(FE& f, Fn<V, Er>& fn, FE* out) { OUT(FE, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_cerr(FE& f, IExecutor& e, Fn<V, Er>& fn, FutureOn<V, Er>* out) { new (out) FutureOn<V, Er>(std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_cerr(TE& f, IExecutor& e, Fn<V, Er>& fn, TE* out) { OUT(TE, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_uinl_cval(FE& f, Fn<V, V>& fn, FE* out) { OUT(FE, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_cval(FE& f, IExecutor& e, Fn<V, V>& fn, FutureOn<V, Er>* out) { new (out) FutureOn<V, Er>(std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_cval(TE& f, IExecutor& e, Fn<V, V>& fn, TE* out) { OUT(TE, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_uinl_cres(FE& f, Fn<V, Result<V, Er>>& fn, FE* out) { OUT(FE, std::move(f).ThenInline(std::move(fn))); }
ENTRY void att_uon_cres(FE& f, IExecutor& e, Fn<V, Result<V, Er>>& fn, FutureOn<V, Er>* out) { new (out) FutureOn<V, Er>(std::move(f).Then(e, std::move(fn))); }
ENTRY void att_lazy_cres(TE& f, IExecutor& e, Fn<V, Result<V, Er>>& fn, TE* out) { OUT(TE, std::move(f).Then(e, std::move(fn))); }
ENTRY void att_udetinl_retvoid(F& f, Fn<void, V>& fn) { std::move(f).DetachInline(std::move(fn)); }
ENTRY void att_udeton_retvoid(F& f, IExecutor& e, Fn<void, V>& fn) { std::move(f).Detach(e, std::move(fn)); }
ENTRY void att_uondet_retvoid(FO& f, Fn<void, V>& fn) { std::move(f).Detach(std::move(fn)); }
ENTRY void att_ssubinl_retvoid(const SF& f, Fn<void, V>& fn) { f.SubscribeInline(std::move(fn)); }
ENTRY void att_ssubon_retvoid(const SF& f, IExecutor& e, Fn<void, V>& fn) { f.Subscribe(e, std::move(fn)); }
ENTRY void att_udetinl_retvoidres(F& f, Fn<void, Result<V>>& fn) { std::move(f).DetachInline(std::move(fn)); }
ENTRY void att_udeton_retvoidres(F& f, IExecutor& e, Fn<void, Result<V>>& fn) { std::move(f).Detach(e, std::move(fn)); }
ENTRY void att_uondet_retvoidres(FO& f, Fn<void, Result<V>>& fn) { std::move(f).Detach(std::move(fn)); }
ENTRY void att_ssubinl_retvoidres(const SF& f, Fn<void, Result<V>>& fn) { f.SubscribeInline(std::move(fn)); }
ENTRY void att_ssubon_retvoidres(const SF& f, IExecutor& e, Fn<void, Result<V>>& fn) { f.Subscribe(e, std::move(fn)); }
ENTRY void run_on_v(IExecutor& e, Fn<V>& fn, FO* out) { OUT(FO, Run(e, std::move(fn))); }
ENTRY void run_inl_v(Fn<V>& fn, F* out) { OUT(F, Run(std::move(fn))); }
ENTRY void sched_on_v(IExecutor& e, Fn<V>& fn, T* out) { OUT(T, Schedule(e, std::move(fn))); }
ENTRY void sched_inl_v(Fn<V>& fn, T* out) { OUT(T, Schedule(std::move(fn))); }
ENTRY void run_on_r(IExecutor& e, Fn<Result<V>>& fn, FO* out) { OUT(FO, Run(e, std::move(fn))); }
ENTRY void run_inl_r(Fn<Result<V>>& fn, F* out) { OUT(F, Run(std::move(fn))); }
ENTRY void sched_on_r(IExecutor& e, Fn<Result<V>>& fn, T* out) { OUT(T, Schedule(e, std::move(fn))); }
ENTRY void sched_inl_r(Fn<Result<V>>& fn, T* out) { OUT(T, Schedule(std::move(fn))); }
ENTRY void run_on_f(IExecutor& e, Fn<Future<V>>& fn, FO* out) { OUT(FO, Run(e, std::move(fn))); }
ENTRY void run_inl_f(Fn<Future<V>>& fn, F* out) { OUT(F, Run(std::move(fn))); }
ENTRY void sched_on_f(IExecutor& e, Fn<Future<V>>& fn, T* out) { OUT(T, Schedule(e, std::move(fn))); }
ENTRY void sched_inl_f(Fn<Future<V>>& fn, T* out) { OUT(T, Schedule(std::move(fn))); }
ENTRY void run_on_sf(IExecutor& e, Fn<SharedFuture<V>>& fn, FO* out) { OUT(FO, Run(e, std::move(fn))); }
ENTRY void run_inl_sf(Fn<SharedFuture<V>>& fn, F* out) { OUT(F, Run(std::move(fn))); }
ENTRY void sched_on_sf(IExecutor& e, Fn<SharedFuture<V>>& fn, T* out) { OUT(T, Schedule(e, std::move(fn))); }
ENTRY void sched_inl_sf(Fn<SharedFuture<V>>& fn, T* out) { OUT(T, Schedule(std::move(fn))); }
ENTRY void run_on_t(IExecutor& e, Fn<Task<V>>& fn, FO* out) { OUT(FO, Run(e, std::move(fn))); }
ENTRY void run_inl_t(Fn<Task<V>>& fn, F* out) { OUT(F, Run(std::move(fn))); }
ENTRY void sched_on_t(IExecutor& e, Fn<Task<V>>& fn, T* out) { OUT(T, Schedule(e, std::move(fn))); }
ENTRY void sched_inl_t(Fn<Task<V>>& fn, T* out) { OUT(T, Schedule(std::move(fn))); }

ENTRY void async_on(IExecutor& e, Fn<void, Promise<V>>& fn, FO* out) { OUT(FO, (AsyncContract<V>(e, std::move(fn)))); }
ENTRY void async_on_ref(IExecutor& e, Fn<void, Promise<V>&&>& fn, FO* out) { OUT(FO, (AsyncContract<V>(e, std::move(fn)))); }
ENTRY void lazy_on_ref(IExecutor& e, Fn<void, Promise<V>&&>& fn, T* out) { OUT(T, (LazyContract<V>(e, std::move(fn)))); }
ENTRY void async_inl(Fn<void, Promise<V>>& fn, F* out) { OUT(F, (AsyncContract<V>(std::move(fn)))); }
ENTRY void lazy_on(IExecutor& e, Fn<void, Promise<V>>& fn, T* out) { OUT(T, (LazyContract<V>(e, std::move(fn)))); }
ENTRY void lazy_inl(Fn<void, Promise<V>>& fn, T* out) { OUT(T, (LazyContract<V>(std::move(fn)))); }
// ---- task
ENTRY void task_drop(T& t) { t.~T(); }
ENTRY void task_cancel(T& t) { std::move(t).Cancel(); }
ENTRY void task_detach(T& t) { std::move(t).Detach(); }
ENTRY void task_detach_e(T& t, IExecutor& e) { std::move(t).Detach(e); }
ENTRY void task_tofuture(T& t, F* out) { OUT(F, std::move(t).ToFuture()); }
ENTRY void task_tofuture_e(T& t, IExecutor& e, FO* out) { OUT(FO, std::move(t).ToFuture(e)); }
ENTRY void task_get(T& t, Result<V>* out) { OUT(Result<V>, std::move(t).Get()); }
ENTRY void task_touch(T& t, Result<V>* out) { OUT(Result<V>, std::move(t).Touch()); }
// ---- shared
ENTRY void sh_copy(const SF& f, SF* out) { OUT(SF, f); }
ENTRY void sh_drop(SF& f) { f.~SF(); }
ENTRY void sh_get_const(const SF& f, const Result<V>** out) { *out = &f.Get(); }
ENTRY void sh_get_move(SF& f, Result<V>* out) { OUT(Result<V>, std::move(f).Get()); }
ENTRY void sh_touch_move(SF& f, Result<V>* out) { OUT(Result<V>, std::move(f).Touch()); }
ENTRY void sh_split(const SF& f, F* out) { OUT(F, Share(f)); }
ENTRY void sh_share_f(F& f, SF* out) { OUT(SF, Split(std::move(f))); }
// ---- submit
ENTRY void submit_fn(IExecutor& e, Fn<void>& fn) { Submit(e, std::move(fn)); }
