// std::async/std::future with the library's own bookkeeping (reference counts, once flags, condition
// variables) removed: starting, finishing and waiting for the task are the only synchronisation left.
#pragma once
#include <execution>
#include <future>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include <tuple>
namespace std {
template <class R> struct mc_future {
  using V = std::conditional_t<std::is_void_v<R>, char, std::conditional_t<std::is_reference_v<R>, std::add_pointer_t<R>, R>>;
  struct St { std::thread t; std::function<void()> late; std::exception_ptr ex; std::optional<V> r; ~St() { if (t.joinable()) t.join(); } };
  std::unique_ptr<St> s;
  mc_future() = default; mc_future(mc_future&&) = default; mc_future& operator=(mc_future&&) = default;
  bool valid() const { return bool(s); }
  void wait() const { if (s->t.joinable()) s->t.join(); if (s->late) { auto f = std::move(s->late); s->late = nullptr; f(); } }
  template <class D> std::future_status wait_for(const D&) const { wait(); return std::future_status::ready; }
  R get() { wait(); auto k = std::move(s); if (k->ex) std::rethrow_exception(k->ex); if constexpr (std::is_reference_v<R>) return **k->r; else if constexpr (!std::is_void_v<R>) return std::move(*k->r); }
  template <class F> static void mc_run(St* p, F& f) { try { if constexpr (std::is_void_v<R>) { f(); p->r.emplace(0); } else if constexpr (std::is_reference_v<R>) p->r.emplace(&f()); else p->r.emplace(f()); } catch (...) { p->ex = std::current_exception(); } }
};
template <class F, class... A> auto mc_async(std::launch l, F&& f, A&&... a) {
  using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>;
  mc_future<R> u; u.s = std::make_unique<typename mc_future<R>::St>(); auto* p = u.s.get();
  struct Call {
    std::decay_t<F> f; std::tuple<std::decay_t<A>...> t;
    R operator()() { return std::apply([&](auto&... x) -> R { return std::invoke(std::move(f), std::move(x)...); }, t); }
  };
  auto c = std::make_shared<Call>(Call{std::decay_t<F>(std::forward<F>(f)), std::tuple<std::decay_t<A>...>(std::forward<A>(a)...)});
  auto* q = c.get();
  if (l == std::launch::deferred) p->late = [p, c] { mc_future<R>::mc_run(p, *c); };
  else { p->late = [c] {}; p->t = std::thread([p, q] { mc_future<R>::mc_run(p, *q); }); }    // `late` keeps the callable alive
  return u;
}
template <class F, class... A, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, std::launch>>> auto mc_async(F&& f, A&&... a) { return mc_async(std::launch::async, std::forward<F>(f), std::forward<A>(a)...); }
}
#define future mc_future
#define async(...) mc_async(__VA_ARGS__)
