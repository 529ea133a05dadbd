// Force-included (-include) ahead of everything else.  Supplies
//  * the execution back end of the C++17 parallel algorithms (replaces the TBB
//    back end of libstdc++'s PSTL), and
//  * the task primitives the stand-in <tbb/...> headers in mc/shadow are made of.
// Two ways of running tasks: inline (deterministic, order chosen by `policy`) and,
// when a controlled scheduler is linked and active, as fibers it interleaves.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <numeric>
#include <type_traits>
#include <utility>
#include <vector>

#define MC_NOTSAN __attribute__((no_sanitize("thread")))

namespace mc { namespace rt {

// 0: never split; 1: split, leaves run left to right; 2: split, right to left;
// 3: split, odd leaves first.
inline int policy = 0;
inline int max_leaves = 64;     // inline mode
inline int worker_index = 0;    // inline mode: index of the leaf being executed
inline long tasks_run = 0;      // statistics

struct Sched {    // implemented by the controlled scheduler
  virtual bool active() = 0;    // tasks started now become fibers
  virtual int  width() = 0;     // max leaves per region
  virtual void run(std::size_t n, void (*f)(void*, std::size_t), void* arg) = 0;
  virtual int  worker() = 0;
  virtual void touch(const void* p, bool write) = 0;    // scheduling point on a named object
  virtual void atomic(int d) = 0;       // +1/-1: inside an operation the stand-in library promises to be indivisible
  virtual void block_until(bool (*pred)(void*), void* arg) = 0;
};
inline Sched* sched = nullptr;

MC_NOTSAN inline void touch(const void* p, bool w) { if (sched) sched->touch(p, w); }
struct Atomically {    // one indivisible library operation on object p: a scheduling point, then no others inside
  MC_NOTSAN Atomically(const void* p, bool w) { if (sched) { sched->touch(p, w); sched->atomic(1); } }
  MC_NOTSAN ~Atomically() { if (sched) sched->atomic(-1); }
};

template <class F>
MC_NOTSAN void run_tasks(std::size_t n, F&& f) {
  if (n == 0) return;
  if (n > 1 && sched && sched->active()) {
    using FF = std::remove_reference_t<F>;
    sched->run(n, [](void* a, std::size_t i) { (*static_cast<FF*>(a))(i); }, const_cast<void*>(static_cast<const void*>(&f)));
    return;
  }
  if (n == 1) { f(std::size_t(0)); return; }
  int save = worker_index;
  tasks_run += n;
  auto go = [&](std::size_t i) { worker_index = policy == 3 ? 7 - int(i % 8) : int(i % 8); f(i); };    // any slot of the arena may serve a task
  if (policy == 2) { for (std::size_t i = n; i-- > 0;) go(i); }
  else if (policy == 3) { for (std::size_t i = 1; i < n; i += 2) go(i); for (std::size_t i = 0; i < n; i += 2) go(i); }
  else { for (std::size_t i = 0; i < n; ++i) go(i); }
  worker_index = save;
}

MC_NOTSAN inline int leaf_limit() {
  if (sched && sched->active()) return sched->width();
  return policy == 0 ? 1 : max_leaves;
}
MC_NOTSAN inline int current_worker() { return sched && sched->active() ? sched->worker() : worker_index; }

struct Quietly {    // per-worker bookkeeping of the stand-in library: no scheduling points inside
  MC_NOTSAN Quietly() { if (sched) sched->atomic(1); }
  MC_NOTSAN ~Quietly() { if (sched) sched->atomic(-1); }
};
// chunk [0,n) into at most leaf_limit() pieces
MC_NOTSAN inline std::vector<std::size_t> cuts(std::size_t n) {
  std::size_t k = std::min<std::size_t>(n, (std::size_t)leaf_limit());
  Quietly q;
  if (k == 0) k = 1;
  std::vector<std::size_t> c(k + 1);
  for (std::size_t i = 0; i <= k; ++i) c[i] = n * i / k;
  return c;
}

struct Mutex {    // blocking mutex usable inline and under the scheduler
  volatile int held = 0;
  MC_NOTSAN static bool freep(void* a) { return static_cast<Mutex*>(a)->held == 0; }
  MC_NOTSAN void lock() {
    touch(this, true);
    while (held) {
      if (sched) sched->block_until(&freep, this); else __builtin_trap();
    }
    held = 1;
  }
  MC_NOTSAN bool try_lock() { touch(this, true); if (held) return false; held = 1; return true; }
  MC_NOTSAN void unlock() { touch(this, true); held = 0; }
};
}}    // namespace mc::rt

// ---------------------------------------------------------------- PSTL back end
#ifndef MC_REAL_TBB
#define _PSTL_PARALLEL_BACKEND_H
namespace __pstl { namespace __mc_backend {
template <typename _Tp>
class __buffer {
  std::allocator<_Tp> __allocator_; _Tp* __ptr_; const std::size_t __buf_size_;
  __buffer(const __buffer&) = delete; void operator=(const __buffer&) = delete;
public:
  __buffer(std::size_t __n) : __allocator_(), __ptr_(__allocator_.allocate(__n)), __buf_size_(__n) {}
  operator bool() const { return __ptr_ != nullptr; }
  _Tp* get() const { return __ptr_; }
  ~__buffer() { __allocator_.deallocate(__ptr_, __buf_size_); }
};
inline void __cancel_execution() {}

template <class _Ex, class _Index, class _Fp>
void __parallel_for(_Ex&&, _Index first, _Index last, _Fp f) {
  auto n = last - first;
  if (n <= 0) { f(first, last); return; }
  auto c = ::mc::rt::cuts(std::size_t(n));
  ::mc::rt::run_tasks(c.size() - 1, [&](std::size_t i) { f(first + c[i], first + c[i + 1]); });
}
template <class _Ex, class _Value, class _Index, typename _RealBody, typename _Reduction>
_Value __parallel_reduce(_Ex&&, _Index first, _Index last, const _Value& identity, const _RealBody& body, const _Reduction& red) {
  if (first == last) return identity;
  auto c = ::mc::rt::cuts(std::size_t(last - first));
  std::vector<_Value> part(c.size() - 1, identity);
  ::mc::rt::run_tasks(c.size() - 1, [&](std::size_t i) { part[i] = body(first + c[i], first + c[i + 1], identity); });
  _Value r = part[0];
  for (std::size_t i = 1; i < part.size(); ++i) r = red(r, part[i]);
  return r;
}
template <class _Ex, class _Index, class _UnaryOp, class _Tp, class _BinaryOp, class _Reduce>
_Tp __parallel_transform_reduce(_Ex&&, _Index first, _Index last, _UnaryOp, _Tp init, _BinaryOp, _Reduce red) {
  return red(first, last, init);
}
template <class _Ex, typename _Index, typename _Tp, typename _Rp, typename _Cp, typename _Sp, typename _Ap>
void __parallel_strict_scan(_Ex&&, _Index n, _Tp initial, _Rp reduce, _Cp combine, _Sp scan, _Ap apex) {
  _Tp sum = initial;
  if (n) sum = combine(sum, reduce(_Index(0), n));
  apex(sum);
  if (n) scan(_Index(0), n, initial);
}
template <class _Ex, class _Index, class _UnaryOp, class _Tp, class _BinaryOp, class _Reduce, class _Scan>
_Tp __parallel_transform_scan(_Ex&&, _Index n, _UnaryOp, _Tp init, _BinaryOp, _Reduce, _Scan scan) {
  return scan(_Index(0), n, init);
}
template <class _Ex, typename _It, typename _Compare, typename _LeafSort>
void __parallel_stable_sort(_Ex&&, _It first, _It last, _Compare comp, _LeafSort leaf, std::size_t = 0) { leaf(first, last, comp); }
template <class _Ex, typename _I1, typename _I2, typename _I3, typename _Compare, typename _LeafMerge>
void __parallel_merge(_Ex&&, _I1 f1, _I1 l1, _I2 f2, _I2 l2, _I3 o, _Compare comp, _LeafMerge leaf) { leaf(f1, l1, f2, l2, o, comp); }
template <class _Ex, typename _F1, typename _F2>
void __parallel_invoke(_Ex&&, _F1&& f1, _F2&& f2) {
  ::mc::rt::run_tasks(2, [&](std::size_t i) { if (i == 0) f1(); else f2(); });
}
}    // namespace __mc_backend
namespace __par_backend = __mc_backend;
}    // namespace __pstl
#endif
