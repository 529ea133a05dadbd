// Bitmaps, atomic helpers and counting iterators: every operation history, and every interleaving of small concurrent programs.
#if PART == 1
#include "sched.hpp"
#endif
#include "core.hpp"
#include "graphs.hpp"
#include <nwgraph/util/AtomicBitVector.hpp>
#include <nwgraph/util/atomic.hpp>
#include <nwgraph/util/parallel_for.hpp>
#include <nwgraph/util/util.hpp>
#include <nwgraph/util/util_par.hpp>
#include <list>
#include <set>
using namespace mc;
namespace ng = nw::graph;
#if PART == 0
template <class W> struct Bits { using B = ng::AtomicBitVector<W>; };
template <class W> void look(Ctx& X, ng::AtomicBitVector<W>& b, const std::set<size_t>& m, size_t n, bool splits) {
  const size_t BW = sizeof(W) * 8, words = (n + BW - 1) / BW;
  for (size_t i = 0; i < n; ++i) { W want = m.count(i) ? W(W(1) << i % BW) : W(0); X.check(b.get(i) == want && b.atomic_get(i) == want, "get", [&] { return "bit " + str(i) + " of " + str(n) + " reads " + str(uint64_t(b.get(i))) + ", set bits " + show(m); }); }
  std::vector<size_t> v, w(m.begin(), m.end());
  for (auto it = b.begin(); it != b.end(); ++it) { v.push_back(*it); if (v.size() > n) break; }
  X.check(v == w, "iteration", [&] { return show(v) + " expected " + show(w); });
  v.clear(); for (auto it = b.begin(); !(it == b.end());) { auto old = it++; v.push_back(*old); if (v.size() > n) break; }
  X.check(v == w, "post-increment iteration", [&] { return show(v) + " expected " + show(w); });
  if (!splits) return;
  // every sequence of splits of the non-zero range
  for (size_t cut = 0; cut <= 2; ++cut) {
    auto r0 = b.non_zeros(cut); X.check(r0.size() == words && r0.empty() == (words == 0) && r0.is_divisible() == (words > cut), "range size");
    using RL = std::list<decltype(r0)>;
    std::function<void(RL, int)> rec = [&](RL rs, int d) {
      std::vector<size_t> u; size_t tot = 0; for (auto& r : rs) { tot += r.size(); for (auto it = r.begin(), e = r.end(); it != e; ++it) { u.push_back(*it); if (u.size() > n) break; } }
      std::sort(u.begin(), u.end()); X.check(u == w && tot == words, "split-coverage", [&] { return str(rs.size()) + " pieces cover " + show(u) + " expected " + show(w); });
      if (d == 0) return;
      for (size_t k = 0; k < rs.size(); ++k) { RL t(rs); auto it = std::next(t.begin(), long(k)); if (!it->is_divisible() || it->size() < 2) continue; decltype(r0) right(*it, tbb::split{}); t.insert(std::next(it), right); rec(t, d - 1); }
    };
    rec(RL{r0}, words > 4 ? 2 : 3);
  }
  for (int p = 0; p < 4; ++p) { rt::policy = p; std::vector<int> c(n + 1); ng::parallel_for(b.non_zeros(1), [&](auto i) { ++c[i]; }); for (size_t i = 0; i < n; ++i) X.check(c[i] == int(m.count(i)), "parallel iteration"); }
}
template <class W> void histories(Ctx& X, const char* tn) {
  const size_t BW = sizeof(W) * 8;
  for (size_t n : {size_t(1), BW - 1, BW, BW + 1, 2 * BW, 2 * BW + 2, 5 * BW + 3}) {
    std::vector<size_t> bits; for (size_t i : {size_t(0), size_t(1), BW - 1, BW, 2 * BW - 1, 2 * BW, 2 * BW + 1, n - 1}) if (i < n && std::find(bits.begin(), bits.end(), i) == bits.end()) bits.push_back(i);
    const int nb = int(bits.size()), ops = nb * 2 + 3;    // set, atomic_set, clear, move-construct, move-assign
    for (int len = 0; len <= (X.thorough ? (ops <= 13 ? 5 : 4) : (ops <= 13 ? 4 : 3)); ++len) each_seq(ops, len, [&](const std::vector<int>& h) {
      X.state([&] { return std::string(tn) + " bits=" + str(n) + " history " + show(h); }, [&] { X.run("history", [&] {
        std::optional<ng::AtomicBitVector<W>> b(std::in_place, n); std::set<size_t> m; std::optional<ng::AtomicBitVector<W>> old;
        for (int o : h) {
          if (o < 2 * nb) { size_t i = bits[o % nb]; W r = o < nb ? b->set(i) : b->atomic_set(i); W want = m.count(i) ? W(W(1) << i % BW) : W(0); X.check(r == want, "previous value", [&] { return "setting bit " + str(i) + " returned " + str(uint64_t(r)); }); m.insert(i); }
          else if (o == 2 * nb) { b->clear(); m.clear(); }
          else if (o == 2 * nb + 1) { old.reset(); old.emplace(std::move(*b)); b.emplace(std::move(*old)); X.check(!(old->begin() != old->end()), "moved-from object is empty"); }
          else { ng::AtomicBitVector<W> c(BW + 3); c.set(2); c = std::move(*b); *b = std::move(c); }
        }
        look(X, *b, m, n, len <= 2); X.outcome(hash_all(m));
      }); });
    });
  }
}
template <class T> void helpers(Ctx& X, const char* tn, std::vector<T> vals) {
  for (T a : vals) for (T b : vals) for (T c : vals) X.state([&] { return std::string(tn) + " " + str(+a) + " " + str(+b) + " " + str(+c); }, [&] { X.run(std::string("helpers on ") + tn, [&] {
    auto both = [&](auto& v) {
      auto get = [&] { return ng::acquire(v); };
      ng::release(v, a); X.check(get() == a && ng::relaxed(v) == a && ng::load<std::memory_order_seq_cst>(v) == a, "store/load");
      ng::relaxed(v, b); X.check(get() == b, "relaxed store"); ng::store<std::memory_order_seq_cst>(v, a);
      T e = b; bool ok = ng::cas(v, e, c); X.check(ok == (a == b) && get() == (a == b ? c : a) && e == (a == b ? b : a), "cas", [&] { return "returned " + str(ok) + " value " + str(+get()) + " expected operand " + str(+e); });
      ng::store<std::memory_order_seq_cst>(v, a); auto o = ng::fetch_add(v, b); X.check(o == a && get() == T(a + b), "fetch_add", [&] { return "returned " + str(+o) + " value " + str(+get()); });
      if constexpr (std::is_integral_v<T>) { ng::store<std::memory_order_seq_cst>(v, a); auto q = ng::fetch_or(v, b); X.check(q == a && get() == T(a | b), "fetch_or"); }
    };
    alignas(8) T pl{}; both(pl); std::atomic<T> at{}; both(at);
  }); });
}
void mc_main(Ctx& X) {
  X.section("bitmap histories");
  histories<uint64_t>(X, "uint64"); histories<uint32_t>(X, "uint32"); histories<uint8_t>(X, "uint8");
  X.section("every content of two words of eight bits and three more bits");
  for (unsigned k = 0; k < (X.thorough ? 1u << 19 : 1u << 15); ++k) { size_t n = X.thorough ? 19 : 15; X.state([&] { return "content " + str(k); }, [&] { X.run("content", [&] { ng::AtomicBitVector<uint8_t> b(n); std::set<size_t> m; for (size_t i = 0; i < n; ++i) if (k >> i & 1) { b.set(i); m.insert(i); } look(X, b, m, n, (k & 31) == 5); }); }); }
  X.section("atomic helpers");
  helpers<int>(X, "int", {0, 1, -5, 1 << 20}); helpers<uint64_t>(X, "uint64", {0, 3, uint64_t(1) << 40, ~uint64_t(0)}); helpers<uint32_t>(X, "uint32", {0, 7, ~0u}); helpers<uint8_t>(X, "uint8", {0, 6, 255}); helpers<double>(X, "double", {0, 1.5, -2.25, 1e9}); helpers<float>(X, "float", {0, 1.5f, -2.25f});
  X.section("counting iterators");
  for (int n = 0; n <= 40; ++n) X.state([&] { return str(n) + " assignments"; }, [&] { X.run("count", [&] {
    size_t c0 = 3; ng::counting_output_iterator it(c0); size_t c1 = 4; ng::par_counting_output_iterator p(c1); std::atomic<size_t> c2{5}; ng::atomic_counting_output_iterator q(c2);
    for (int i = 0; i < n; ++i) { *it = i; ++it; *p = i; ++p; q[i] = i; q++; p[2]; it[1]; }
    X.check(c0 == size_t(n + 3) && c1 == size_t(n + 4) && c2 == size_t(n + 5) && p.get_count() == c1 && q.get_count() == c2, "count", [&] { return str(c0) + " " + str(c1) + " " + str(size_t(c2)); });
    std::vector<int> a, b; for (int i = 0; i < n; ++i) { a.push_back(i); b.push_back(2 * i); } size_t k = 0; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), ng::counting_output_iterator(k)); X.check(k == size_t((n + 1) / 2), "count of an intersection");
  }); });
}
#else
using sc::Opt;
// a program: per task a list of operations; op = (kind, operand).  The model runs them indivisibly in every order.
using Op = std::array<int, 3>;
using Prog = std::vector<std::vector<Op>>;
static std::string text(const Prog& p) { std::string s; for (auto& t : p) { s += "{"; for (auto& o : t) s += str(o[0]) + ":" + str(o[1]) + "," + str(o[2]) + " "; s += "} "; } return s; }
template <class S, class F> std::set<std::vector<long>> allowed(const Prog& p, S init, F step, std::function<void(const S&, std::vector<long>&)> fin) {
  std::set<std::vector<long>> out; std::vector<size_t> pc(p.size()); std::vector<std::vector<long>> res(p.size());
  std::function<void(S)> rec = [&](S s) {
    bool any = false;
    for (size_t t = 0; t < p.size(); ++t) if (pc[t] < p[t].size()) { any = true; S c = s; long r = step(c, p[t][pc[t]]); res[t].push_back(r); ++pc[t]; rec(c); --pc[t]; res[t].pop_back(); }
    if (!any) { std::vector<long> v; for (auto& x : res) v.insert(v.end(), x.begin(), x.end()); fin(s, v); out.insert(v); }
  };
  rec(init); return out;
}
template <class Body> void check(Ctx& X, const std::string& name, Opt o, const std::set<std::vector<long>>& ok, Body&& body) {
  X.run(name, [&] {
    std::set<std::vector<long>> seen;
    sc::explore(X, o, body, [&](auto& r) -> std::string { seen.insert(r); X.outcome(hash_all(r)); return ok.count(r) ? "" : "results and final value " + show(r) + " match no order of the operations"; });
    X.counters["outcomes the model allows"] += ok.size(); X.counters["outcomes observed"] += seen.size();
  });
}
template <class W> void bitprog(Ctx& X, const Prog& p, size_t n, Opt o) {    // kinds: 0 atomic_set, 1 set, 2 atomic_get, 3 get
  auto ok = allowed<std::set<int>>(p, {}, [](std::set<int>& s, const Op& q) -> long { bool had = s.count(q[1]); if (q[0] < 2) s.insert(q[1]); return had; }, [](const std::set<int>& s, std::vector<long>& v) { for (int x : s) v.push_back(1000 + x); });
  check(X, "bitmap", o, ok, [&] {
    ng::AtomicBitVector<W> b(n); std::vector<std::vector<long>> res(p.size());
    for (size_t t = 0; t < p.size(); ++t) res[t].resize(p[t].size());
    sc::par(p.size(), [&](size_t t) { for (size_t k = 0; k < p[t].size(); ++k) { size_t i = size_t(p[t][k][1]); W r = 0; switch (p[t][k][0]) { case 0: r = b.atomic_set(i); break; case 1: r = b.set(i); break; case 2: r = b.atomic_get(i); break; default: r = b.get(i); } res[t][k] = r != 0; if (r && r != W(W(1) << i % (8 * sizeof(W)))) res[t][k] = 77; } });
    std::vector<long> v; for (auto& x : res) v.insert(v.end(), x.begin(), x.end()); for (auto i : b) v.push_back(1000 + long(i)); return v; });
}
template <class Ref, class T> void varprog(Ctx& X, const std::string& nm, const Prog& p, T x0, Opt o) {    // kinds: 0 load, 1 store, 2 cas(a->b), 3 fetch_add, 4 fetch_or
  using M = std::array<T, 2>;
  auto ok = allowed<M>(p, M{x0, x0}, [](M& m, const Op& q) -> long {
    T& v = m[q[0] >= 10]; T old = v; int k = q[0] % 10;
    if (k == 1) { v = T(q[1]); return 0; } if (k == 2) { if (v == T(q[1])) { v = T(q[2]); return 1; } return 100 + long(old); } if (k == 3) v = T(v + T(q[1])); if constexpr (std::is_integral_v<T>) if (k == 4) v = T(v | T(q[1])); return long(old); },
    [](const M& m, std::vector<long>& v) { v.push_back(long(m[0])); v.push_back(long(m[1])); });
  check(X, nm, o, ok, [&] {
    Ref a{x0}, b{x0}; std::vector<std::vector<long>> res(p.size()); for (size_t t = 0; t < p.size(); ++t) res[t].resize(p[t].size());
    sc::par(p.size(), [&](size_t t) { for (size_t k = 0; k < p[t].size(); ++k) { auto& q = p[t][k]; auto& v = q[0] >= 10 ? b : a; long r = 0; switch (q[0] % 10) {
      case 0: r = long(ng::acquire(v)); break; case 1: ng::release(v, T(q[1])); break; case 2: { T e = T(q[1]); r = ng::cas(v, e, T(q[2])) ? 1 : 100 + long(e); break; } case 3: r = long(ng::fetch_add(v, T(q[1]))); break; default: if constexpr (std::is_integral_v<T>) r = long(ng::fetch_or(v, T(q[1]))); } res[t][k] = r; } });
    std::vector<long> v; for (auto& x : res) v.insert(v.end(), x.begin(), x.end()); v.push_back(long(ng::acquire(a))); v.push_back(long(ng::acquire(b))); return v; });
}
void mc_main(Ctx& X) {
  const Opt o{3, X.thorough ? 6 : 4}, o3{3, X.thorough ? 4 : 3};
  auto programs = [&](int tasks, int len, const std::vector<Op>& ops, auto&& f) { each_seq(int(ops.size()), tasks * len, [&](const std::vector<int>& c) { Prog p(tasks); for (int t = 0; t < tasks; ++t) for (int k = 0; k < len; ++k) p[t].push_back(ops[c[t * len + k]]); bool srt = true; for (int t = 1; t < tasks; ++t) for (int k = 0; k < len; ++k) { int a = c[(t - 1) * len + k], b = c[t * len + k]; if (a < b) break; if (a > b) { srt = false; break; } } if (srt) X.state([&] { return text(p); }, [&] { f(p); }); }); };
  X.section("bitmap, two tasks with two operations");
  { std::vector<Op> ops; for (int k : {0, 1, 2, 3}) for (int b : {0, 1, 63, 64}) if (k == 0 || b < 2) ops.push_back({k, b, 0}); programs(2, 2, ops, [&](const Prog& p) { bitprog<uint64_t>(X, p, 130, o); }); }
  X.section("bitmap of bytes, three tasks with one or two operations");
  { std::vector<Op> ops{{0, 0, 0}, {1, 1, 0}, {2, 0, 0}, {0, 7, 0}, {0, 8, 0}}; programs(3, 1, ops, [&](const Prog& p) { bitprog<uint8_t>(X, p, 17, o); }); if (X.thorough) programs(3, 2, ops, [&](const Prog& p) { bitprog<uint8_t>(X, p, 17, o3); }); else { ops.resize(3); programs(3, 2, ops, [&](const Prog& p) { bitprog<uint32_t>(X, p, 34, o3); }); } }
  X.section("atomic helpers on plain and atomic variables, two tasks");
  { std::vector<Op> ops{{0, 0, 0}, {1, 5, 0}, {2, 0, 2}, {2, 2, 4}, {3, 1, 0}, {3, 2, 0}, {4, 6, 0}, {13, 1, 0}, {10, 0, 0}};
    programs(2, 2, ops, [&](const Prog& p) { varprog<uint32_t, uint32_t>(X, "uint32", p, 0, o); varprog<std::atomic<int>, int>(X, "std::atomic<int>", p, 0, o); varprog<uint64_t, uint64_t>(X, "uint64", p, 0, o); });
    std::vector<Op> fl; for (auto& q : ops) if (q[0] % 10 != 4) fl.push_back(q);
    programs(2, 2, fl, [&](const Prog& p) { varprog<double, double>(X, "double", p, 0.0, o); varprog<std::atomic<float>, float>(X, "std::atomic<float>", p, 0.f, o); varprog<float, float>(X, "float", p, 0.f, o); }); }
  X.section("atomic helpers, three tasks");
  { std::vector<Op> ops{{0, 0, 0}, {2, 0, 2}, {3, 1, 0}, {3, 2, 0}, {1, 1, 0}}; programs(3, 1, ops, [&](const Prog& p) { varprog<uint8_t, uint8_t>(X, "uint8", p, 0, o); varprog<double, double>(X, "double", p, 0.0, o); varprog<std::atomic<double>, double>(X, "std::atomic<double>", p, 0.0, o); }); if (X.thorough) programs(3, 2, ops, [&](const Prog& p) { varprog<size_t, size_t>(X, "size_t", p, 0, o3); varprog<double, double>(X, "double", p, 0.0, Opt{3, 3}); }); }
  X.section("counting iterators");
  for (int t = 2; t <= 3; ++t) for (int k = 1; k <= 3; ++k) X.state([&] { return str(t) + " tasks, " + str(k) + " assignments each"; }, [&] {
    std::set<std::vector<long>> ok{{long(t * k)}};
    check(X, "par_counting_output_iterator", Opt{3, t == 2 ? 4 : 3}, ok, [&] { size_t c = 0; ng::par_counting_output_iterator it(c); sc::par(t, [&](size_t) { auto j = it; for (int i = 0; i < k; ++i) { *j = i; ++j; } }); return std::vector<long>{long(c)}; });
    check(X, "atomic_counting_output_iterator", Opt{3, t == 2 ? 4 : 3}, ok, [&] { std::atomic<size_t> c{0}; ng::atomic_counting_output_iterator it(c); sc::par(t, [&](size_t) { auto j = it; for (int i = 0; i < k; ++i) { *j = i; ++j; } }); return std::vector<long>{long(c.load())}; });
  });
}
#endif
