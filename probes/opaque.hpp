#pragma once
// Opaque client types: every special member is an external symbol, so each construction, copy, move and
// destruction of a client value is visible to the analysis as a call.
#include <exception>
#include <yaclib/util/result.hpp>
#include <utility>
namespace probe {
struct V {
  V(int) noexcept;
  V(V&&) noexcept;
  V(const V&) noexcept;
  V& operator=(V&&) noexcept;
  V& operator=(const V&) noexcept;
  ~V();
  long p[2];
};
struct Er {
  Er(yaclib::StopTag) noexcept;
  static const char* What() noexcept;
  Er(Er&&) noexcept;
  Er(const Er&) noexcept;
  Er& operator=(Er&&) noexcept;
  Er& operator=(const Er&) noexcept;
  ~Er();
  long p[1];
};
template <typename Ret, typename... Args>
struct Fn {
  Fn(Fn&&) noexcept;
  Fn(const Fn&) noexcept;
  ~Fn();
  Ret operator()(Args...);
  long cap[2];
};
}  // namespace probe
#define ENTRY extern "C" __attribute__((noinline, used, visibility("default")))
