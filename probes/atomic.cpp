// Equivalence obligations of yaclib_std::atomic against std::atomic: every function below must fold to `true`.
#include <yaclib_std/atomic>
#include <yaclib/fault/config.hpp>

#include <atomic>
#include <cstring>
#include <new>
#include <type_traits>

#define INL __attribute__((always_inline)) static inline

struct alignas(8) Pair {
  int key;
  int tag;
  // a class whose own equality is coarser than its representation
  bool operator==(const Pair& o) const {
    return key == o.key;
  }
};
struct Obj {
  int x[3];
};
enum class En : short { A, B };

template <typename T>
INL bool Same(const T& a, const T& b) {
  return __builtin_memcmp(&a, &b, sizeof(T)) == 0;
}

extern "C" void verif_bad();
// an obligation: the call must be unreachable after optimization
INL void Must(bool c) {
  if (!c) {
    verif_bad();
  }
}

template <typename A>
struct Box {
  alignas(A) unsigned char b[sizeof(A)];
};

template <typename A, typename T>
INL void Dirty(Box<A>& b, T junk) {
  if constexpr (sizeof(A) == sizeof(T)) {
    __builtin_memcpy(b.b, &junk, sizeof(T));
  } else {
    std::memset(b.b, 0x5a, sizeof(b.b));
  }
}

struct None {};

template <typename T>
struct Cas {
  T e;
  bool ok;
};

template <typename T>
INL bool Eq(const T& a, const T& b) {
  return Same(a, b);
}
template <>
inline bool Eq(const None&, const None&) {
  return true;
}
template <typename T>
INL bool Eq(const Cas<T>& a, const Cas<T>& b) {
  return Same(a.e, b.e) & (a.ok == b.ok);
}

// Runs f on both kinds with the same initial value; equal result, equal stored value, and the object is left exactly as a
// freshly constructed one holding that value (so the equality carries over to sequences).
template <bool V, typename T, typename F>
INL void Eqv(T init, T junk, F f) {
  if constexpr (V && std::is_class_v<T>) {
    return;  // the standard type gives no volatile access to a class value
  } else {
  using Y = yaclib_std::atomic<T>;
  using S = std::atomic<T>;
  Box<Y> yb, zb;
  Box<S> sb;
  Dirty(yb, junk);
  Dirty(zb, junk);
  Dirty(sb, junk);
  Y* y = ::new (yb.b) Y{init};
  S* s = ::new (sb.b) S{init};
  if constexpr (V) {
    auto r = f(const_cast<volatile Y&>(*y));
    auto q = f(const_cast<volatile S&>(*s));
    static_assert(std::is_same_v<decltype(r), decltype(q)>);
    Must(Eq(r, q));
  } else {
    auto r = f(*y);
    auto q = f(*s);
    static_assert(std::is_same_v<decltype(r), decltype(q)>);
    Must(Eq(r, q));
  }
  T a = y->load();
  T b = s->load();
  ::new (zb.b) Y{b};
  Must(Same(a, b));
  Must(Same(yb, zb));
  }
}

// compare_exchange_weak: fails spuriously at most in the way std allows
template <bool V, typename T, typename F>
INL void Weak(T init, T exp, T des, T junk, bool nofault, F f) {
  if constexpr (V && std::is_class_v<T>) {
    return;
  } else {
  using Y = yaclib_std::atomic<T>;
  Box<Y> yb, zb;
  Dirty(yb, junk);
  Dirty(zb, junk);
  Y* y = ::new (yb.b) Y{init};
  T e = exp;
  bool r;
  if constexpr (V) {
    r = f(const_cast<volatile Y&>(*y), e);
  } else {
    r = f(*y, e);
  }
  T a = y->load();
  ::new (zb.b) Y{a};
  if (r) {
    Must(Same(init, exp));
    Must(Same(a, des));
    Must(Same(e, exp));
  } else {
    if (nofault) {
      Must(!Same(init, exp));
    }
    Must(Same(a, init));
    Must(Same(e, init));
  }
  Must(Same(yb, zb));
  }
}

#define FN(T, op, v, ...) extern "C" void m__##T##__##op##__##v(__VA_ARGS__)
#define ONE(T, op, expr)                                                                              \
  FN(T, op, n, t_##T x, t_##T u, t_##T w, t_##T junk) {                                       \
    Eqv<false, t_##T>(x, junk, [&](auto& a) { return expr; });                                 \
  }                                                                                                   \
  FN(T, op, v, t_##T x, t_##T u, t_##T w, t_##T junk) {                                       \
    Eqv<true, t_##T>(x, junk, [&](auto& a) { return expr; });                                  \
  }
#define CAS(T, op, meth, ...)                                                                         \
  ONE(T, op, ([&] {                                                                                   \
        t_##T e = u;                                                                                  \
        bool b = a.compare_exchange_strong(e, w __VA_OPT__(, ) __VA_ARGS__);                          \
        return Cas<t_##T>{e, b};                                                                      \
      })())
#define WEAK(T, op, ...)                                                                              \
  FN(T, op, n, t_##T x, t_##T u, t_##T w, t_##T junk) {                                       \
    Weak<false, t_##T>(x, u, w, junk, false, [&](auto& a, auto& e) { return a.compare_exchange_weak(e, w __VA_OPT__(, ) __VA_ARGS__); }); \
  }                                                                                                   \
  FN(T, op, v, t_##T x, t_##T u, t_##T w, t_##T junk) {                                       \
    Weak<true, t_##T>(x, u, w, junk, false, [&](auto& a, auto& e) { return a.compare_exchange_weak(e, w __VA_OPT__(, ) __VA_ARGS__); }); \
  }                                                                                                   \
  FN(T, op##_nofault, n, t_##T x, t_##T u, t_##T w, t_##T junk) {                             \
    yaclib::SetAtomicFailFrequency(0);                                                                \
    Weak<false, t_##T>(x, u, w, junk, true, [&](auto& a, auto& e) { return a.compare_exchange_weak(e, w __VA_OPT__(, ) __VA_ARGS__); }); \
  }                                                                                                   \
  FN(T, op##_nofault, v, t_##T x, t_##T u, t_##T w, t_##T junk) {                             \
    yaclib::SetAtomicFailFrequency(0);                                                                \
    Weak<true, t_##T>(x, u, w, junk, true, [&](auto& a, auto& e) { return a.compare_exchange_weak(e, w __VA_OPT__(, ) __VA_ARGS__); }); \
  }
#define N(...) ((__VA_ARGS__), None{})
using mo = std::memory_order;

#define DEFAULTED(T)                                                                                  \
  FN(T, default_ctor, n, t_##T x, t_##T junk) {                                               \
    using Y = yaclib_std::atomic<t_##T>;                                                              \
    Box<Y> yb;                                                                                        \
    Dirty(yb, junk);                                                            \
    Y* y = ::new (yb.b) Y;                                                                            \
    t_##T z{};                                                                                        \
    Must(Same(static_cast<t_##T>(y->load()), z));                                                   \
  }

#define BASE(T)                                                                                       \
  DEFAULTED(T)                                                                                        \
  ONE(T, ctor, None{})                                                                                \
  ONE(T, load, a.load())                                                                              \
  ONE(T, load_order, a.load(mo::acquire))                                                             \
  ONE(T, conversion, static_cast<t_##T>(a))                                                           \
  ONE(T, store, N(a.store(u)))                                                                        \
  ONE(T, store_order, N(a.store(u, mo::release)))                                                     \
  ONE(T, assign, (a = u))                                                                             \
  ONE(T, exchange, a.exchange(u))                                                                     \
  ONE(T, exchange_order, a.exchange(u, mo::acq_rel))                                                  \
  CAS(T, cas_strong, strong)                                                                          \
  CAS(T, cas_strong_relaxed, strong, mo::relaxed)                                                     \
  CAS(T, cas_strong_acquire, strong, mo::acquire)                                                     \
  CAS(T, cas_strong_release, strong, mo::release)                                                     \
  CAS(T, cas_strong_acq_rel, strong, mo::acq_rel)                                                     \
  CAS(T, cas_strong_2, strong, mo::acq_rel, mo::acquire)                                              \
  CAS(T, cas_strong_2r, strong, mo::release, mo::relaxed)                                             \
  WEAK(T, cas_weak)                                                                                   \
  WEAK(T, cas_weak_relaxed, mo::relaxed)                                                              \
  WEAK(T, cas_weak_acquire, mo::acquire)                                                              \
  WEAK(T, cas_weak_release, mo::release)                                                              \
  WEAK(T, cas_weak_acq_rel, mo::acq_rel)                                                              \
  WEAK(T, cas_weak_2, mo::acq_rel, mo::acquire)                                                       \
  WEAK(T, cas_weak_2r, mo::release, mo::relaxed)

#define ARITH(T)                                                                                      \
  ONE(T, fetch_add, a.fetch_add(u))                                                                   \
  ONE(T, fetch_add_order, a.fetch_add(u, mo::relaxed))                                                \
  ONE(T, fetch_sub, a.fetch_sub(u))                                                                   \
  ONE(T, fetch_sub_order, a.fetch_sub(u, mo::acq_rel))                                                \
  ONE(T, add_assign, (a += u))                                                                        \
  ONE(T, sub_assign, (a -= u))

#define STEP(T)                                                                                       \
  ONE(T, pre_inc, ++a)                                                                                \
  ONE(T, post_inc, a++)                                                                               \
  ONE(T, pre_dec, --a)                                                                                \
  ONE(T, post_dec, a--)

#define BITS(T)                                                                                       \
  ONE(T, fetch_and, a.fetch_and(u))                                                                   \
  ONE(T, fetch_or, a.fetch_or(u))                                                                     \
  ONE(T, fetch_xor, a.fetch_xor(u))                                                                   \
  ONE(T, fetch_and_order, a.fetch_and(u, mo::release))                                                \
  ONE(T, fetch_or_order, a.fetch_or(u, mo::release))                                                  \
  ONE(T, fetch_xor_order, a.fetch_xor(u, mo::release))                                                \
  ONE(T, and_assign, (a &= u))                                                                        \
  ONE(T, or_assign, (a |= u))                                                                         \
  ONE(T, xor_assign, (a ^= u))

#define INT(T) BASE(T) ARITH(T) STEP(T) BITS(T)

#define PONE(T, op, expr)                                                                             \
  FN(T, op, n, t_##T x, std::ptrdiff_t u, t_##T junk) {                                       \
    Eqv<false, t_##T>(x, junk, [&](auto& a) { return expr; });                                 \
  }                                                                                                   \
  FN(T, op, v, t_##T x, std::ptrdiff_t u, t_##T junk) {                                       \
    Eqv<true, t_##T>(x, junk, [&](auto& a) { return expr; });                                  \
  }
#define PTR(T)                                                                                        \
  BASE(T)                                                                                             \
  PONE(T, fetch_add, a.fetch_add(u))                                                                  \
  PONE(T, fetch_add_order, a.fetch_add(u, mo::relaxed))                                               \
  PONE(T, fetch_sub, a.fetch_sub(u))                                                                  \
  PONE(T, fetch_sub_order, a.fetch_sub(u, mo::acq_rel))                                               \
  PONE(T, add_assign, (a += u))                                                                       \
  PONE(T, sub_assign, (a -= u))                                                                       \
  STEP(T)

using t_bool = bool;
using t_char = char;
using t_schar = signed char;
using t_uchar = unsigned char;
using t_short = short;
using t_ushort = unsigned short;
using t_int = int;
using t_uint = unsigned;
using t_long = long;
using t_ulong = unsigned long;
using t_llong = long long;
using t_ullong = unsigned long long;
using t_char16 = char16_t;
using t_char32 = char32_t;
using t_wchar = wchar_t;
using t_float = float;
using t_double = double;
using t_pint = int*;
using t_pobj = const Obj*;
using t_ppint = int**;
using t_enum = En;
using t_pair = Pair;

#ifndef FLAG_ONLY
BASE(bool)
INT(char)
INT(schar)
INT(uchar)
INT(short)
INT(ushort)
INT(int)
INT(uint)
INT(long)
INT(ulong)
INT(llong)
INT(ullong)
INT(char16)
INT(char32)
INT(wchar)
BASE(float) ARITH(float)
BASE(double) ARITH(double)
PTR(pint)
PTR(pobj)
PTR(ppint)
BASE(enum)
BASE(pair)
#endif

// ---------------------------------------------------------------- atomic_flag: two steps from either state
template <bool V, typename A, typename F>
INL auto Flag(unsigned char junk, bool set, bool& after, F f) {
  Box<A> b;
  Dirty(b, junk);
  A* a = ::new (b.b) A{};
  if (set) {
    a->test_and_set();
  }
  auto r = [&] {
    if constexpr (V) {
      return f(const_cast<volatile A&>(*a));
    } else {
      return f(*a);
    }
  }();
  after = a->test_and_set();
  return r;
}

#define FLAG(op, expr)                                                                                \
  FN(flag, op, n, bool set, unsigned char junk) {                                                     \
    bool u, w;                                                                                        \
    auto r = Flag<false, yaclib_std::atomic_flag>(junk, set, u, [&](auto& a) { return expr; });       \
    auto q = Flag<false, std::atomic_flag>(junk, set, w, [&](auto& a) { return expr; });              \
    Must(Eq(r, q) & (u == w));                                                                     \
  }                                                                                                   \
  FN(flag, op, v, bool set, unsigned char junk) {                                                     \
    bool u, w;                                                                                        \
    auto r = Flag<true, yaclib_std::atomic_flag>(junk, set, u, [&](auto& a) { return expr; });        \
    auto q = Flag<true, std::atomic_flag>(junk, set, w, [&](auto& a) { return expr; });               \
    Must(Eq(r, q) & (u == w));                                                                     \
  }
FLAG(init, None{})
FLAG(test_and_set, a.test_and_set())
FLAG(test_and_set_order, a.test_and_set(mo::acquire))
FLAG(clear, N(a.clear()))
FLAG(clear_order, N(a.clear(mo::release)))
#if YACLIB_FUTEX != 0
FLAG(test, a.test())
FLAG(test_order, a.test(mo::acquire))
#endif
extern "C" void m__flag__default_init__n(unsigned char junk) {
  Box<yaclib_std::atomic_flag> b;
  Dirty(b, junk);
  auto* a = ::new (b.b) yaclib_std::atomic_flag;
  Must(!a->test_and_set());
}

// ---------------------------------------------------------------- fences leave every value alone
extern "C" void m__fence__thread__n(int x, int u, unsigned char junk) {
  yaclib_std::atomic<int> a{x};
  yaclib_std::atomic_thread_fence(mo::seq_cst);
  a.store(u, mo::relaxed);
  yaclib_std::atomic_thread_fence(mo::release);
  Must(a.load() == u);
}
extern "C" void m__fence__signal__n(int x, int u, unsigned char junk) {
  yaclib_std::atomic<int> a{x};
  yaclib_std::atomic_signal_fence(mo::seq_cst);
  a.store(u, mo::relaxed);
  yaclib_std::atomic_signal_fence(mo::acquire);
  Must(a.load() == u);
}
