// Stand-in for the part of oneTBB this code base uses; tasks run through mc::rt.
#pragma once
#include "../rt.hpp"
#include <deque>
#include <iterator>
#include <optional>
#include <queue>
#include <stdexcept>
namespace tbb {
struct split {};
class proportional_split {
  std::size_t l_, r_;
public:
  proportional_split(std::size_t l = 1, std::size_t r = 1) : l_(l), r_(r) {}
  std::size_t left() const { return l_; }
  std::size_t right() const { return r_; }
  explicit operator split() const { return split(); }
};
struct auto_partitioner {}; struct simple_partitioner {}; struct static_partitioner {}; struct affinity_partitioner {};
struct task_group_context {};

template <class V>
class blocked_range {
  V end_, begin_; std::size_t grain_;
public:
  using const_iterator = V; using size_type = std::size_t;
  blocked_range(V b, V e, std::size_t g = 1) : end_(e), begin_(b), grain_(g) {}
  blocked_range(blocked_range& r, split) : end_(r.end_), begin_(r.begin_), grain_(r.grain_) {
    V mid = r.begin_ + (r.end_ - r.begin_) / 2u; begin_ = mid; r.end_ = mid;
  }
  V begin() const { return begin_; }
  V end() const { return end_; }
  size_type size() const { return size_type(end_ - begin_); }
  size_type grainsize() const { return grain_; }
  bool empty() const { return !(begin_ < end_); }
  bool is_divisible() const { return grain_ < size(); }
};

namespace mcdetail {
// split a range the way TBB does, at most leaf_limit() leaves, in order
template <class Range>
std::vector<std::unique_ptr<Range>> leaves(const Range& r0) {
  const std::size_t lim = (std::size_t)::mc::rt::leaf_limit();
  ::mc::rt::Quietly q;
  std::vector<std::unique_ptr<Range>> v;
  v.push_back(std::make_unique<Range>(r0));
  bool again = true;
  while (again && v.size() < lim) {
    again = false;
    for (std::size_t i = 0; i < v.size() && v.size() < lim; ++i)
      if (v[i]->is_divisible()) {
        auto right = std::make_unique<Range>(*v[i], split());
        v.insert(v.begin() + i + 1, std::move(right));
        ++i; again = true;
      }
  }
  return v;
}
}
template <class Range, class Body, class... P>
auto parallel_for(const Range& range, const Body& body, P&&...) -> decltype(range.is_divisible(), void()) {
  if (range.empty()) return;
  auto v = mcdetail::leaves(range);
  ::mc::rt::run_tasks(v.size(), [&](std::size_t i) { Range r(*v[i]); body(r); });
}
template <class I, class F>
auto parallel_for(I first, I last, const F& f) -> std::enable_if_t<std::is_integral_v<I>> {
  parallel_for(blocked_range<I>(first, last), [&](const blocked_range<I>& r) { for (I i = r.begin(); i < r.end(); ++i) f(i); });
}
template <class I, class F>
auto parallel_for(I first, I last, I step, const F& f) -> std::enable_if_t<std::is_integral_v<I>> {
  I n = first < last ? (last - first - 1) / step + 1 : 0;
  parallel_for(I(0), n, [&](I k) { f(first + k * step); });
}
template <class Range, class Value, class Body, class Red, class... P>
Value parallel_reduce(const Range& range, const Value& identity, const Body& body, const Red& red, P&&...) {
  if (range.empty()) return identity;
  auto v = mcdetail::leaves(range);
  std::vector<std::optional<Value>> part(v.size());
  ::mc::rt::run_tasks(v.size(), [&](std::size_t i) { Range r(*v[i]); part[i].emplace(body(r, Value(identity))); });
  Value acc = std::move(*part[0]);
  for (std::size_t i = 1; i < part.size(); ++i) acc = red(acc, *part[i]);
  return acc;
}
template <class Range, class Value, class Body, class Red, class... P>
Value parallel_deterministic_reduce(const Range& r, const Value& id, const Body& b, const Red& red, P&&... p) { return parallel_reduce(r, id, b, red); }
template <class It, class F>
auto parallel_for_each(It first, It last, const F& f) -> decltype(*first, void()) {
  std::vector<It> its;
  for (; first != last; ++first) its.push_back(first);
  auto c = ::mc::rt::cuts(its.size());
  if (its.empty()) return;
  ::mc::rt::run_tasks(c.size() - 1, [&](std::size_t k) { for (auto i = c[k]; i < c[k + 1]; ++i) f(*its[i]); });
}
template <class C, class F>
auto parallel_for_each(C&& c, const F& f) -> decltype(c.begin(), void()) { parallel_for_each(c.begin(), c.end(), f); }
template <class... F>
void parallel_invoke(const F&... f) {
  std::vector<std::function<void()>> v{std::function<void()>(std::cref(f))...};
  ::mc::rt::run_tasks(v.size(), [&](std::size_t i) { v[i](); });
}
template <class It> void parallel_sort(It a, It b) { std::sort(a, b); }
template <class It, class C> void parallel_sort(It a, It b, const C& c) { std::sort(a, b, c); }
template <class Cn> void parallel_sort(Cn&& c) { std::sort(c.begin(), c.end()); }

namespace this_task_arena {
inline int current_thread_index() { return ::mc::rt::current_worker(); }
inline int max_concurrency() { return ::mc::rt::sched && ::mc::rt::sched->active() ? ::mc::rt::sched->width() : 8; }
template <class F> auto isolate(F&& f) { return f(); }
}
class task_arena {
public:
  static const int automatic = -1;
  task_arena(int = -1, unsigned = 1) {}
  void initialize() {} void initialize(int) {} void terminate() {}
  template <class F> auto execute(F&& f) { return f(); }
  int max_concurrency() const { return this_task_arena::max_concurrency(); }
};
class global_control {
public:
  enum parameter { max_allowed_parallelism, thread_stack_size, terminate_on_exception };
  global_control(parameter, std::size_t) {}
  static std::size_t active_value(parameter) { return 8; }
};
class task_group {
  std::vector<std::function<void()>> f_;
public:
  template <class F> void run(F&& f) { f_.emplace_back(std::forward<F>(f)); }
  template <class F> void run_and_wait(F&& f) { run(std::forward<F>(f)); wait(); }
  int wait() { auto f = std::move(f_); f_.clear(); ::mc::rt::run_tasks(f.size(), [&](std::size_t i) { f[i](); }); return 0; }
};

template <class M> struct mc_scoped_lock {
  M* m = nullptr;
  mc_scoped_lock() = default;
  mc_scoped_lock(M& x, bool = true) : m(&x) { m->lock(); }
  ~mc_scoped_lock() { if (m) m->unlock(); }
  void acquire(M& x, bool = true) { m = &x; m->lock(); }
  bool try_acquire(M& x, bool = true) { if (x.try_lock()) { m = &x; return true; } return false; }
  void release() { m->unlock(); m = nullptr; }
  mc_scoped_lock(const mc_scoped_lock&) = delete;
};
struct queuing_mutex : ::mc::rt::Mutex { using scoped_lock = mc_scoped_lock<queuing_mutex>; };
struct spin_mutex : ::mc::rt::Mutex { using scoped_lock = mc_scoped_lock<spin_mutex>; };
struct mutex : ::mc::rt::Mutex { using scoped_lock = mc_scoped_lock<mutex>; };
struct speculative_spin_mutex : ::mc::rt::Mutex { using scoped_lock = mc_scoped_lock<speculative_spin_mutex>; };
struct null_mutex { void lock() {} void unlock() {} bool try_lock() { return true; } using scoped_lock = mc_scoped_lock<null_mutex>; };

// Segmented like the original: element addresses stay put while others append; push_back and grow are indivisible.
template <class T, class A = std::allocator<T>>
class concurrent_vector {
  static constexpr int NSEG = 24;
  T* seg_[NSEG] = {}; std::size_t n_ = 0;
  using Op = ::mc::rt::Atomically;
  MC_NOTSAN static int seg_of(std::size_t i) { return 63 - __builtin_clzll((i >> 3) + 1); }
  MC_NOTSAN static std::size_t first_of(int k) { return ((std::size_t(1) << k) - 1) << 3; }
  MC_NOTSAN T* slot(std::size_t i) const { int k = seg_of(i); return seg_[k] + (i - first_of(k)); }
  MC_NOTSAN T* raw(std::size_t i) { int k = seg_of(i); if (!seg_[k]) seg_[k] = static_cast<T*>(::operator new(sizeof(T) * (std::size_t(8) << k))); return seg_[k] + (i - first_of(k)); }
  MC_NOTSAN void drop() { ::mc::rt::Quietly q; if constexpr (!std::is_trivially_destructible_v<T>) for (std::size_t i = 0; i < n_; ++i) slot(i)->~T(); for (int k = 0; k < NSEG && seg_[k]; ++k) { ::operator delete(seg_[k]); seg_[k] = nullptr; } n_ = 0; }
  template <bool C> struct It {
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t;
    using reference = std::conditional_t<C, const T&, T&>; using pointer = std::conditional_t<C, const T*, T*>;
    const concurrent_vector* v = nullptr; std::ptrdiff_t i = 0;
    It() = default; It(const concurrent_vector* v, std::ptrdiff_t i) : v(v), i(i) {}
    template <bool D, class = std::enable_if_t<C && !D>> It(const It<D>& o) : v(o.v), i(o.i) {}
    reference operator*() const { return *v->slot(std::size_t(i)); }
    pointer operator->() const { return v->slot(std::size_t(i)); }
    reference operator[](std::ptrdiff_t k) const { return *v->slot(std::size_t(i + k)); }
    It& operator++() { ++i; return *this; } It operator++(int) { It r(*this); ++i; return r; }
    It& operator--() { --i; return *this; } It operator--(int) { It r(*this); --i; return r; }
    It& operator+=(std::ptrdiff_t k) { i += k; return *this; } It& operator-=(std::ptrdiff_t k) { i -= k; return *this; }
    friend It operator+(It a, std::ptrdiff_t k) { return a += k; } friend It operator+(std::ptrdiff_t k, It a) { return a += k; }
    friend It operator-(It a, std::ptrdiff_t k) { return a -= k; } friend std::ptrdiff_t operator-(const It& a, const It& b) { return a.i - b.i; }
    friend bool operator==(const It& a, const It& b) { return a.i == b.i && a.v == b.v; }
    friend auto operator<=>(const It& a, const It& b) { return a.i <=> b.i; }
  };
public:
  using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
  using reference = T&; using const_reference = const T&;
  using iterator = It<false>; using const_iterator = It<true>;
  using pointer = T*; using const_pointer = const T*;
  class range_type : public blocked_range<iterator> { public: using blocked_range<iterator>::blocked_range; };
  concurrent_vector() = default;
  explicit concurrent_vector(std::size_t n) { resize(n); }
  concurrent_vector(std::size_t n, const T& t) { for (std::size_t i = 0; i < n; ++i) add(t); }
  template <class I, class = decltype(*std::declval<I>())> concurrent_vector(I a, I b) { for (; a != b; ++a) add(*a); }
  concurrent_vector(std::initializer_list<T> l) : concurrent_vector(l.begin(), l.end()) {}
  concurrent_vector(const concurrent_vector& o) : concurrent_vector(o.begin(), o.end()) {}
  concurrent_vector(concurrent_vector&& o) noexcept { swap(o); }
  concurrent_vector& operator=(const concurrent_vector& o) { if (this != &o) { clear(); for (auto& x : o) add(x); } return *this; }
  concurrent_vector& operator=(concurrent_vector&& o) noexcept { if (this != &o) { drop(); swap(o); } return *this; }
  ~concurrent_vector() { drop(); }
  MC_NOTSAN iterator push_back(const T& t) { Op a(this, true); return add(t); }
  MC_NOTSAN iterator push_back(T&& t) { Op a(this, true); return add(std::move(t)); }
  template <class... Ar> MC_NOTSAN iterator emplace_back(Ar&&... r) { Op a(this, true); return add(std::forward<Ar>(r)...); }
  MC_NOTSAN iterator grow_by(std::size_t n) { Op a(this, true); auto s = n_; while (n--) add(); return {this, std::ptrdiff_t(s)}; }
  MC_NOTSAN iterator grow_to_at_least(std::size_t n) { Op a(this, true); auto s = n_; while (n_ < n) add(); return {this, std::ptrdiff_t(s)}; }
  MC_NOTSAN void resize(std::size_t n) { Op a(this, true); while (n_ < n) add(); while (n_ > n) slot(--n_)->~T(); }
  void reserve(std::size_t) {}
  void shrink_to_fit() {}
  MC_NOTSAN void clear() { Op a(this, true); while (n_) slot(--n_)->~T(); }
  MC_NOTSAN std::size_t size() const { Op a(this, false); return n_; }
  bool empty() const { return size() == 0; }
  MC_NOTSAN std::size_t capacity() const { return n_; }
  T& operator[](std::size_t i) { return *slot(i); }
  const T& operator[](std::size_t i) const { return *slot(i); }
  T& at(std::size_t i) { if (i >= size()) throw std::out_of_range("at"); return *slot(i); }
  T& front() { return *slot(0); } T& back() { return *slot(size() - 1); }
  iterator begin() { return {this, 0}; } iterator end() { return {this, std::ptrdiff_t(size())}; }
  const_iterator begin() const { return {this, 0}; } const_iterator end() const { return {this, std::ptrdiff_t(size())}; }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  auto rbegin() { return std::reverse_iterator<iterator>(end()); } auto rend() { return std::reverse_iterator<iterator>(begin()); }
  range_type range(std::size_t g = 1) { return range_type(begin(), end(), g); }
  MC_NOTSAN void swap(concurrent_vector& o) { Op a(this, true), b(&o, true); for (int k = 0; k < NSEG; ++k) { T* t = seg_[k]; if (!t && !o.seg_[k]) break; seg_[k] = o.seg_[k]; o.seg_[k] = t; } std::size_t t = n_; n_ = o.n_; o.n_ = t; }
  friend void swap(concurrent_vector& a, concurrent_vector& b) { a.swap(b); }
  friend bool operator==(const concurrent_vector& a, const concurrent_vector& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
private:
  template <class... U> MC_NOTSAN iterator add(U&&... t) { T* p = raw(n_); new (static_cast<void*>(p)) T(std::forward<U>(t)...); return {this, std::ptrdiff_t(n_++)}; }
};
template <class T, class A = std::allocator<T>>
class concurrent_queue {
  std::deque<T> d_;
public:
  using value_type = T; using iterator = typename std::deque<T>::iterator; using const_iterator = typename std::deque<T>::const_iterator;
  concurrent_queue() = default;
  void push(const T& t) { ::mc::rt::Atomically mc_op(this, true); d_.push_back(t); }
  void push(T&& t) { ::mc::rt::Atomically mc_op(this, true); d_.push_back(std::move(t)); }
  template <class... Ar> void emplace(Ar&&... a) { ::mc::rt::Atomically mc_op(this, true); d_.emplace_back(std::forward<Ar>(a)...); }
  bool try_pop(T& t) { ::mc::rt::Atomically mc_op(this, true); if (d_.empty()) return false; t = std::move(d_.front()); d_.pop_front(); return true; }
  bool empty() const { ::mc::rt::Atomically mc_op(this, false); return d_.empty(); }
  std::size_t unsafe_size() const { return d_.size(); }
  void clear() { d_.clear(); }
  iterator unsafe_begin() { return d_.begin(); } iterator unsafe_end() { return d_.end(); }
  const_iterator unsafe_begin() const { return d_.begin(); } const_iterator unsafe_end() const { return d_.end(); }
};
template <class T, class C = std::less<T>, class A = std::allocator<T>>
class concurrent_priority_queue {
  std::priority_queue<T, std::vector<T>, C> q_;
public:
  explicit concurrent_priority_queue(const C& c = C()) : q_(c) {}
  void push(const T& t) { ::mc::rt::Atomically mc_op(this, true); q_.push(t); }
  template <class... Ar> void emplace(Ar&&... a) { ::mc::rt::Atomically mc_op(this, true); q_.emplace(std::forward<Ar>(a)...); }
  bool try_pop(T& t) { ::mc::rt::Atomically mc_op(this, true); if (q_.empty()) return false; t = q_.top(); q_.pop(); return true; }
  bool empty() const { ::mc::rt::Atomically mc_op(this, false); return q_.empty(); } std::size_t size() const { ::mc::rt::Atomically mc_op(this, false); return q_.size(); }
  void clear() { while (!q_.empty()) q_.pop(); }
};
template <class T>
class enumerable_thread_specific {
  std::deque<T> d_; std::vector<int> ix_ = std::vector<int>(64, -1); std::function<T()> mk_ = [] { return T(); };
public:
  enumerable_thread_specific() = default;
  explicit enumerable_thread_specific(const T& t) : mk_([t] { return t; }) {}
  MC_NOTSAN T& local() { ::mc::rt::Quietly mc_q; int w = ::mc::rt::current_worker() & 63; if (ix_[w] < 0) { ix_[w] = int(d_.size()); d_.push_back(mk_()); } return d_[ix_[w]]; }
  auto begin() { return d_.begin(); } auto end() { return d_.end(); } std::size_t size() const { return d_.size(); }
  template <class F> T combine(F f) { if (d_.empty()) return mk_(); T r = d_[0]; for (std::size_t i = 1; i < d_.size(); ++i) r = f(r, d_[i]); return r; }
  template <class F> void combine_each(F f) { for (auto& x : d_) f(x); }
};
template <class T> using combinable = enumerable_thread_specific<T>;
}    // namespace tbb
namespace oneapi { namespace tbb = ::tbb; }
