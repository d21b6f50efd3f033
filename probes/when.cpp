#include "opaque.hpp"
#include <yaclib/async/contract.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/future.hpp>
namespace probe {
struct W {
  W() noexcept;
  W(W&&) noexcept;
  W(const W&) noexcept;
  W& operator=(W&&) noexcept;
  W& operator=(const W&) noexcept;
  ~W();
  long p[3];
};
}  // namespace probe
using namespace yaclib;
using probe::Er;
using probe::V;
using probe::W;
using F = Future<V, Er>;
using FO = FutureOn<V, Er>;
using S = SharedFuture<V, Er>;
using FV = Future<void, Er>;
using FW = Future<W, Er>;
using SW = SharedFuture<W, Er>;
using SV = SharedFuture<void, Er>;
constexpr auto FF = FailPolicy::FirstFail;
constexpr auto LF = FailPolicy::LastFail;
constexpr auto NO = FailPolicy::None;
#define M std::move
// the handles of three inputs: two are used by the quick tier
#define STATIC(name, A, B, what) ENTRY auto name(A& a, B& b) { return what(M(a), M(b)); }
#define STATIC3(name, A, B, D, what) ENTRY auto name##_3(A& a, B& b, D& d) { return what(M(a), M(b), M(d)); }
#define DYN(name, A, what) ENTRY auto name##_it(A* a) { return what(a, 2); } 
#define DYN3(name, A, what) ENTRY auto name##_it3(A* a) { return what(a, a + 3); }
#define ALL4(name, A, what) STATIC(name, A, A, what) STATIC3(name, A, A, A, what) DYN(name, A, what) DYN3(name, A, what)
// WhenAll
ALL4(all_f_v, F, WhenAll)
ALL4(all_n_v, F, WhenAll<NO>)
ALL4(all_f_s, S, WhenAll)
ALL4(all_n_s, S, WhenAll<NO>)
ALL4(all_f_void, FV, WhenAll)
ALL4(all_n_void, FV, WhenAll<NO>)
STATIC(all_f_mix, F, S, WhenAll)
STATIC(all_n_mix, S, FO, WhenAll<NO>)
STATIC(all_f_w, FW, SW, WhenAll)
// tuples
STATIC(tup_f, FW, FV, WhenAll)
STATIC(tup_n, FW, FV, WhenAll<NO>)
STATIC(tup_n2, F, SW, WhenAll<NO>)
STATIC(tup_fs, SW, FV, WhenAll)
STATIC3(tup_f, FV, FW, FV, WhenAll)
STATIC3(tup_n, F, FV, SW, WhenAll<NO>)
// Join
ALL4(join_n, F, Join)
ALL4(join_f, F, Join<FF>)
ALL4(join_ns, S, Join)
ALL4(join_fs, S, Join<FF>)
STATIC(join_nmix, F, SV, Join)
STATIC(join_fmix, SV, F, Join<FF>)
STATIC3(join_fmix, FW, S, FV, Join<FF>)
// WhenAny
ALL4(any_l, F, WhenAny)
ALL4(any_f, F, WhenAny<FF>)
ALL4(any_n, F, WhenAny<NO>)
ALL4(any_ls, S, WhenAny)
ALL4(any_fs, S, WhenAny<FF>)
ALL4(any_ns, S, WhenAny<NO>)
ALL4(any_lvoid, FV, WhenAny)
STATIC(any_lmix, F, SW, WhenAny)
STATIC(any_fmix, FW, F, WhenAny<FF>)
STATIC(any_nmix, S, FW, WhenAny<NO>)
STATIC(any_lvs, F, S, WhenAny)
// degenerate
ENTRY auto all_f_one(F& a) { return WhenAll(M(a)); }
ENTRY auto all_n_one(S& a) { return WhenAll<NO>(M(a)); }
ENTRY auto any_l_one(F& a) { return WhenAny(M(a)); }
ENTRY auto any_l_one_it(F* a) { return WhenAny(a, 1); }
ENTRY auto any_f_one_its(S* a) { return WhenAny<FF>(a, 1); }
ENTRY auto join_n_one(F& a) { return Join(M(a)); }
ENTRY auto zero_all(F* a) { return WhenAll(a, a); }
ENTRY auto zero_all_n(S* a) { return WhenAll<NO>(a, 0); }
ENTRY auto zero_any(F* a) { return WhenAny(a, a); }
ENTRY auto zero_join(FV* a) { return Join(a, 0); }
ENTRY auto zero_join_f(SV* a) { return Join<FF>(a, 0); }
// copies of shared inputs
ENTRY auto all_f_copy(S& a, S& b) { return WhenAll(a, b); }
ENTRY auto all_n_copy(S& a, S& b) { return WhenAll<NO>(a, b); }
ENTRY auto any_l_copy(S& a, S& b) { return WhenAny(a, b); }
ENTRY auto join_f_copy(S& a, S& b) { return Join<FF>(a, b); }
// the kinds of state the inputs may have (their operations are virtual)
ENTRY void when_states(Future<V, Er>* a, Future<W, Er>* b, Future<void, Er>* c, SharedFuture<V, Er>* d, SharedFuture<W, Er>* e,
                       SharedFuture<void, Er>* f) {
  *a = MakeContract<V, Er>().first;
  *b = MakeContract<W, Er>().first;
  *c = MakeContract<void, Er>().first;
  *d = MakeSharedContract<V, Er>().first;
  *e = MakeSharedContract<W, Er>().first;
  *f = MakeSharedContract<void, Er>().first;
}
