// Every schedule (up to a preemption bound) of the parallel algorithms on small graphs, real code under the controlled scheduler.
#include "quiet_future.hpp"
#include "sched.hpp"
#include "common.hpp"
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#include <nwgraph/adaptors/cyclic_neighbor_range.hpp>
#include <nwgraph/util/AtomicBitVector.hpp>
#include <nwgraph/util/parallel_for.hpp>
#include <nwgraph/util/atomic.hpp>
#include <nwgraph/util/util.hpp>
#if PART == 0
#include <nwgraph/algorithms/bfs.hpp>
#include <nwgraph/experimental/algorithms/bfs.hpp>
#elif PART == 1
#include <nwgraph/algorithms/delta_stepping.hpp>
#include <nwgraph/experimental/algorithms/delta_stepping.hpp>
#elif PART == 2
#include <nwgraph/adaptors/bfs_edge_range.hpp>
#include <nwgraph/algorithms/connected_components.hpp>
#include <nwgraph/experimental/algorithms/connected_components.hpp>
#elif PART == 3
#include <nwgraph/algorithms/betweenness_centrality.hpp>
#elif PART == 4
#include <nwgraph/algorithms/triangle_count.hpp>
#include <nwgraph/experimental/algorithms/triangle_count.hpp>
#elif PART == 5
#include <nwgraph/algorithms/page_rank.hpp>
#include <nwgraph/experimental/algorithms/page_rank.hpp>
#elif PART == 6
#include <nwgraph/adaptors/splittable_range_adaptor.hpp>
#include <nwgraph/adaptors/cyclic_range_adaptor.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
#endif
using namespace mc;
using sc::Opt;
#ifndef WIDE
#define WIDE 0    // 1: three tasks per region and fewer preemptions
#endif
template <class C> uint64_t hash_bits(const C& c) { uint64_t h = 1; for (auto&& x : c) { uint64_t b = 0; auto v = +x; memcpy(&b, &v, sizeof v < 8 ? sizeof v : 8); h = hmix(h, b); } return h; }
// bounds: two-task quick/thorough, three-task quick/thorough
static Opt opts(Ctx& X, int b2, int t2, int b3, int t3) { return WIDE ? Opt{3, X.thorough ? t3 : b3} : Opt{2, X.thorough ? t2 : b2}; }
template <class F> void each_subset(int m, size_t lo, size_t hi, F&& f) { for (uint64_t b = 0; b < (uint64_t(1) << m); ++b) { size_t c = size_t(__builtin_popcountll(b)); if (c < lo || c > hi) continue; std::vector<int> p; for (int i = 0; i < m; ++i) if (b >> i & 1) p.push_back(i); f(p); } }
static std::vector<int> dist(const std::vector<std::vector<int>>& a, int s) { std::vector<int> d(a.size(), -1), q{s}; d[s] = 0; for (size_t i = 0; i < q.size(); ++i) for (int v : a[q[i]]) if (d[v] < 0) { d[v] = d[q[i]] + 1; q.push_back(v); } return d; }
// body() -> R is explored; ok(result, why) judges each complete execution
template <class B, class O> void all_schedules(Ctx& X, const std::string& name, Opt o, B&& body, O&& ok) {
  X.run(name, [&] {
    std::set<uint64_t> out;
    sc::explore(X, o, body, [&](auto& r) { out.insert(hash_bits(r)); return ok(r); });
    X.counters["programs with more than one outcome"] += out.size() > 1;
    for (auto h : out) X.outcome(h);
  });
}
#if PART == 0
template <class V> std::string valid(const std::vector<std::vector<int>>& a, const std::vector<int>& d, int s, const V& p) {
  constexpr auto null = std::numeric_limits<typename V::value_type>::max();
  auto bad = [&](int v, const char* m) { return "vertex " + str(v) + " " + m + " in parents " + show(p); };
  if (p.size() != a.size()) return "length";
  for (int v = 0; v < int(a.size()); ++v) {
    if (d[v] < 0) { if (p[v] != null) return bad(v, "is unreachable but has a parent"); continue; }
    if (p[v] == null) return bad(v, "is reachable but has no parent");
    if (v == s) { if (p[v] != typename V::value_type(s)) return bad(v, "is the root"); continue; }
    if (p[v] >= a.size() || std::find(a[p[v]].begin(), a[p[v]].end(), v) == a[p[v]].end()) return bad(v, "has no edge from its parent");
    if (d[p[v]] + 1 != d[v]) return bad(v, "has a parent not one level up");
  }
  return "";
}
template <directedness D> void go(Ctx& X, const G& g, const std::vector<int>& src, Opt o, bool more) {
  edge_list<D> el(g.n); el_fill(el, g); auto a = adj(g, D == UND);
  adjacency<0> out(el); adjacency<1> in(el);
  for (int s : src) {
    auto d = dist(a, s); auto ok = [&](auto& p) { return valid(a, d, s, p); };
    all_schedules(X, "bfs top-down", o, [&] { return bfs(out, in, s, 4, 1, 1); }, ok);
    all_schedules(X, "bfs bottom-up", o, [&] { return bfs(out, in, s, 4, 1000000, 1); }, ok);
    all_schedules(X, "bfs switching back", o, [&] { return bfs(out, in, s, 4, 1000000, 1000000); }, ok);
    if (!more) continue;
    all_schedules(X, "bfs default", o, [&] { return bfs(out, in, s); }, ok);
    all_schedules(X, "bfs_v6", o, [&] { return bfs_v6(out, s); }, ok);
    all_schedules(X, "bfs_bottom_up", o, [&] { return bfs_bottom_up(out, in, s); }, ok);
    all_schedules(X, "bfs_v7", o, [&] { return bfs_v7(out, s); }, ok);
    all_schedules(X, "bfs_v8", o, [&] { return bfs_v8(out, s); }, ok);
    all_schedules(X, "bfs_v9", o, [&] { return bfs_v9(out, s); }, ok);
    all_schedules(X, "bfs_top_down", o, [&] { return bfs_top_down(out, s); }, ok);
    all_schedules(X, "bfs_top_down_bitmap", o, [&] { return bfs_top_down_bitmap(out, s); }, ok);
    all_schedules(X, "bfs_v1", o, [&] { return bfs_v1(out, in, s, 16, 1000000, 2); }, ok);
    all_schedules(X, "bfs_v2", o, [&] { return bfs_v2(out, in, s, 16, 1000000, 2); }, ok);
  }
}
void mc_main(Ctx& X) {
  auto o = opts(X, 3, 5, 1, 2);
  if (!WIDE) {
    X.section("undirected graphs on 4 vertices, every search from 0");
    each_ugraph(4, [&](const G& g) { if (g.e.size() < 3) return; X.state([&] { return g.desc(); }, [&] { go<UND>(X, g, {0}, o, true); }); });
    X.section("undirected graphs on 5 vertices");
    each_ugraph(5, [&](const G& g) { if (g.e.size() < 3) return; X.state([&] { return g.desc(); }, [&] { go<UND>(X, g, {0}, Opt{2, X.thorough ? 3 : 2}, X.thorough); }); });
  } else {
    X.section("digraphs on 4 vertices, three tasks");
    each_digraph(4, false, [&](const G& g) { int o0 = 0; for (auto& e : g.e) o0 += !e[0]; if (o0 < 2 || g.e.size() > 5) return; X.state([&] { return g.desc(); }, [&] { go<DIR>(X, g, {0}, o, g.e.size() == 4); }); });
  }
}
#endif
#if PART == 1
static const long INF = 1L << 40;
static std::vector<long> ref(const G& g, bool und, int s) { std::vector<long> d(g.n, INF); d[s] = 0; for (bool ch = true; ch;) { ch = false; for (size_t k = 0; k < g.e.size(); ++k) for (int r = 0; r < (und ? 2 : 1); ++r) { int u = g.e[k][r], v = g.e[k][1 - r]; if (d[u] < INF && d[u] + g.w[k] < d[v]) { d[v] = d[u] + g.w[k]; ch = true; } } } return d; }
template <directedness D> void go(Ctx& X, const G& g, int s, const std::vector<int>& deltas, Opt o, bool more) {
  edge_list<D, int> el(g.n); el.open_for_push_back(); for (size_t k = 0; k < g.e.size(); ++k) el.push_back(g.e[k][0], g.e[k][1], g.w[k]); el.close_for_push_back();
  adjacency<0, int> A(el); auto wt = [](auto&& e) { return std::get<1>(e); };
  auto r = ref(g, D == UND, s);
  auto ok = [&](auto& d) -> std::string {
    if (d.size() != r.size()) return "size";
    for (int v = 0; v < g.n; ++v) { size_t want = r[v] >= INF ? std::numeric_limits<size_t>::max() : size_t(r[v]); if (size_t(d[v]) != want) return "distance from " + str(s) + " to " + str(v) + " is " + str(size_t(d[v])) + ", shortest is " + str(want); }
    return "";
  };
  for (int dl : deltas) {
    size_t delta = dl; std::string t = " delta=" + str(dl);
    all_schedules(X, "delta_stepping" + t, o, [&] { return delta_stepping<size_t>(A, s, delta); }, ok);
    if (!more) continue;
    all_schedules(X, "delta_stepping_v6" + t, o, [&] { return delta_stepping_v6<size_t>(A, (unsigned)s, delta); }, ok);
    all_schedules(X, "delta_stepping_v8" + t, o, [&] { return delta_stepping_v8<size_t>(A, (unsigned)s, delta, wt); }, ok);
    all_schedules(X, "delta_stepping_v9" + t, o, [&] { return delta_stepping_v9<size_t>(A, (unsigned)s, delta, wt); }, ok);
    all_schedules(X, "delta_stepping_v10" + t, o, [&] { return delta_stepping_v10<size_t>(A, (unsigned)s, delta, wt); }, ok);
    all_schedules(X, "delta_stepping_v11" + t, o, [&] { return delta_stepping_v11<size_t>(A, (unsigned)s, delta, wt); }, ok);
  }
}
void mc_main(Ctx& X) {
  auto o = opts(X, 3, 5, 2, 3);
  auto digraphs = [&](int n, size_t lo, size_t hi, std::vector<int> deltas, Opt o, bool more) {
    std::vector<E2> d; for (int i = 0; i < n; ++i) for (int j = 1; j < n; ++j) if (i != j) d.push_back({i, j});
    each_subset(int(d.size()), lo, hi, [&](const std::vector<int>& pick) {
      int o0 = 0; for (int k : pick) o0 += d[k][0] == 0; if (o0 < 2) return;
      each_seq(2, int(pick.size()), [&](const std::vector<int>& w) { G g; g.n = n; for (size_t i = 0; i < pick.size(); ++i) { g.e.push_back(d[pick[i]]); g.w.push_back(w[i] ? 4 : 1); } X.state([&] { return g.desc(); }, [&] { go<DIR>(X, g, 0, deltas, o, more); }); });
    });
  };
  if (!WIDE) {
    X.section("digraphs on 4 vertices, source 0 with at least two out-edges, weights 1 and 4"); digraphs(4, 2, X.thorough ? 9 : 5, {1, 3}, o, true);
    X.section("digraphs on 5 vertices, source 0 with at least two out-edges, weights 1 and 4"); digraphs(5, 4, X.thorough ? 6 : 5, {3}, Opt{2, o.bound - 1}, X.thorough);
  } else {
    X.section("digraphs on 4 vertices, three tasks, weights 1 and 4"); digraphs(4, 3, X.thorough ? 6 : 5, {2, 5}, o, true);
    X.section("digraphs on 5 vertices, three tasks, weights 1 and 4"); digraphs(5, 5, X.thorough ? 6 : 5, {4}, o, false);
  }
}
#elif PART == 2
static std::vector<int> ref(const G& g) { std::vector<int> c(g.n); for (int i = 0; i < g.n; ++i) c[i] = i; for (bool ch = true; ch;) { ch = false; for (auto& e : g.e) { int m = std::min(c[e[0]], c[e[1]]); if (c[e[0]] != m || c[e[1]] != m) { c[e[0]] = c[e[1]] = m; ch = true; } } } return c; }
static void go(Ctx& X, const G& g, Opt o, bool more) {
  auto r = ref(g);
  auto ok = [&](auto& c) -> std::string {
    if (c.size() != r.size()) return "size";
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < i; ++j) if ((r[i] == r[j]) != (long(c[i]) == long(c[j]))) { std::string s; for (auto& x : c) s += str(long(x)) + " "; return "vertices " + str(j) + " and " + str(i) + (r[i] == r[j] ? " are connected but labelled differently: " : " are not connected but share a label: ") + s; }
    return "";
  };
  edge_list<UND> el(g.n); el_fill(el, g); adjacency<0> A(el); const adjacency<0> none(0);
  edge_list<DIR> dl(g.n); el_fill(dl, g); adjacency<0> O(dl); adjacency<1> I(dl);
  for (int k : {0, 1, 2}) {
    all_schedules(X, "afforest rounds " + str(k), o, [&] { return afforest(std::execution::par_unseq, A, none, k); }, ok);
    all_schedules(X, "afforest transpose rounds " + str(k), o, [&] { return afforest(std::execution::par_unseq, O, I, k); }, ok);
  }
  if (!more) return;
  all_schedules(X, "ccv1", o, [&] { return ccv1(A); }, ok);
  all_schedules(X, "sv_v6", o, [&] { return sv_v6(A); }, ok);
  all_schedules(X, "sv_v8", o, [&] { return sv_v8(A); }, ok);
  all_schedules(X, "sv_v9", o, [&] { return sv_v9(A); }, ok);
  all_schedules(X, "lpcc", o, [&] { return lpcc(std::execution::par_unseq, A); }, ok);
  all_schedules(X, "lpcc_cyclic", o, [&] { return lpcc_cyclic(std::execution::par_unseq, A, 2); }, ok);
  all_schedules(X, "compute_connected_components_v2", o, [&] { return compute_connected_components_v2(A); }, ok);
  all_schedules(X, "ccv5", o, [&] { return ccv5(A); }, ok);
}
void mc_main(Ctx& X) {
  auto o = opts(X, 3, 4, 2, 3);
  X.section("undirected graphs on 2 to 4 vertices");
  for (int n = 2; n <= 4; ++n) each_ugraph(n, [&](const G& g) { if (WIDE && (n < 4 || g.e.size() < 2)) return; X.state([&] { return g.desc(); }, [&] { go(X, g, o, true); }); });
  if (WIDE) return;
  X.section("undirected graphs on 5 vertices");
  each_ugraph(5, [&](const G& g) { if (g.e.size() < 3 || g.e.size() > (X.thorough ? 10 : 5)) return; X.state([&] { return g.desc(); }, [&] { go(X, g, Opt{2, X.thorough ? 2 : 1}, true); }); });
}
#elif PART == 3
static std::vector<double> ref(const G& g, bool und, const std::vector<int>& src) {
  int n = g.n; auto a = adj(g, und); std::vector<double> r(n);
  std::vector<std::vector<int>> d(n, std::vector<int>(n, -1)); std::vector<std::vector<double>> c(n, std::vector<double>(n, 0));
  for (int s = 0; s < n; ++s) { std::vector<int> q{s}; d[s][s] = 0; c[s][s] = 1; for (size_t h = 0; h < q.size(); ++h) { int u = q[h]; for (int v : a[u]) { if (d[s][v] < 0) { d[s][v] = d[s][u] + 1; q.push_back(v); } if (d[s][v] == d[s][u] + 1) c[s][v] += c[s][u]; } } }
  for (int s : src) for (int t = 0; t < n; ++t) if (t != s && d[s][t] > 0) for (int v = 0; v < n; ++v) if (v != t && d[s][v] >= 0 && d[v][t] >= 0 && d[s][v] + d[v][t] == d[s][t]) r[v] += c[s][v] * c[v][t] / c[s][t];
  return r;
}
template <directedness D> void go(Ctx& X, const G& g, const std::vector<int>& src, const std::vector<int>& srcs, Opt o) {
  edge_list<D> el(g.n); el_fill(el, g); adjacency<0> A(el); using VI = typename decltype(A)::vertex_id_type;
  auto judge = [&](std::vector<double> w) { return [w](auto& c) -> std::string { if (c.size() != w.size()) return "size"; for (size_t i = 0; i < w.size(); ++i) if (!(std::fabs(double(c[i]) - w[i]) < 1e-6)) return "score of " + str(i) + " is " + str(double(c[i])) + ", expected " + str(w[i]); return ""; }; };
  auto S = std::execution::par_unseq; auto Q = std::execution::seq;
  if (src.size()) for (int t : {1, 2}) {
    std::vector<VI> v(src.begin(), src.end()); auto ok = judge(ref(g, D == UND, src));
    all_schedules(X, "brandes_bc one source, both levels parallel, bins " + str(t), o, [&] { return brandes_bc<double, size_t>(A, v, t, S, S, false); }, ok);
    if (t == 2) all_schedules(X, "brandes_bc one source, outer level parallel", o, [&] { return brandes_bc<double, double>(A, v, t, S, Q, false); }, ok);
  }
  if (srcs.size()) { std::vector<VI> v(srcs.begin(), srcs.end()); all_schedules(X, "brandes_bc " + str(v.size()) + " sources, one task each", o, [&] { return brandes_bc<double, size_t>(A, v, 1, Q, Q, false); }, judge(ref(g, D == UND, srcs))); }
}
void mc_main(Ctx& X) {
  auto o = opts(X, 2, 3, 1, 2);
  auto deg0 = [](const G& g) { int d = 0; for (auto& e : g.e) d += !e[0]; return d; };
  if (!WIDE) {
    X.section("undirected graphs on 4 vertices, single source");
    each_ugraph(4, [&](const G& g) { if (deg0(g) >= 2) X.state([&] { return g.desc(); }, [&] { go<UND>(X, g, {0}, {}, o); }); });
    X.section("undirected graphs on 4 vertices, concurrent sources");
    each_ugraph(4, [&](const G& g) { if (g.e.size() >= 2) X.state([&] { return g.desc(); }, [&] { go<UND>(X, g, {}, {0, 3}, o); go<UND>(X, g, {}, {0, 1, 1}, Opt{2, 1}); }); });
    X.section("undirected graphs on 5 vertices, single source");
    each_ugraph(5, [&](const G& g) { if (deg0(g) >= 2 && g.e.size() >= 4 && g.e.size() <= (X.thorough ? 7 : 5)) X.state([&] { return g.desc(); }, [&] { go<UND>(X, g, {0}, {}, Opt{2, 1}); }); });
  } else {
    X.section("digraphs on 4 vertices, three tasks");
    each_digraph(4, false, [&](const G& g) { if (deg0(g) < 2 || g.e.size() < 4 || g.e.size() > 5) return; X.state([&] { return g.desc(); }, [&] { go<DIR>(X, g, {0}, {0, 1}, o); }); });
  }
}
#elif PART == 4
static size_t ntri(const G& g) { size_t c = 0; auto nb = adj(g, true); std::set<E2> s; for (auto& e : g.e) { s.insert(e); s.insert({e[1], e[0]}); } for (auto& e : g.e) for (int w : nb[e[0]]) if (w > std::max(e[0], e[1]) && s.count({e[1], w})) ++c; return c; }
static void go(Ctx& X, const G& g, Opt o, bool more) {
  size_t T = ntri(g); edge_list<DIR> el(g.n); el_fill(el, g); adjacency<0> U(el, true);
  auto ok = [&](auto& c) -> std::string { return c[0] == T ? "" : "counted " + str(c[0]) + " of " + str(T); };
  using V = std::vector<size_t>;
  for (size_t t : {2, 3}) {
    auto s = " threads=" + str(t); Opt p = o; if (t == 3 && !X.thorough) p.bound = std::min(p.bound, 2);
    all_schedules(X, "triangle_count" + s, p, [&] { return V{size_t(triangle_count(U, t))}; }, ok);
    if (more) { all_schedules(X, "triangle_count_v4" + s, p, [&] { return V{size_t(triangle_count_v4(U.begin(), U.end(), t))}; }, ok); all_schedules(X, "triangle_count_v5" + s, p, [&] { return V{size_t(triangle_count_v5(U.begin(), U.end(), t))}; }, ok); all_schedules(X, "triangle_count_v6" + s, p, [&] { return V{size_t(triangle_count_v6(U.begin(), U.end(), t))}; }, ok); }
  }
  all_schedules(X, "triangle_count_v7", o, [&] { return V{size_t(triangle_count_v7(U, std::execution::par, std::execution::par))}; }, ok);
  all_schedules(X, "triangle_count_v10", o, [&] { return V{size_t(triangle_count_v10(U, std::execution::par, std::execution::seq, std::execution::par))}; }, ok);
  for (int st : {1, 2}) { all_schedules(X, "triangle_count_v12 stride " + str(st), o, [&] { return V{size_t(triangle_count_v12(U, st))}; }, ok); all_schedules(X, "triangle_count_v13 stride " + str(st), o, [&] { return V{size_t(triangle_count_v13(U, st))}; }, ok); }
  all_schedules(X, "triangle_count_v14", o, [&] { return V{size_t(triangle_count_v14(U))}; }, ok);
}
void mc_main(Ctx& X) {
  auto o = opts(X, 5, 7, 3, 4);
  X.section("graphs on 3 to 5 vertices");
  for (int n = 3; n <= 5; ++n) each_ugraph(n, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go(X, g, n == 5 ? Opt{o.width, o.bound - 1} : o, true); }); });
  X.section("dense graphs on 6 vertices");
  each_ugraph(6, [&](const G& g) { if (g.e.size() >= (X.thorough ? 12 : 13)) X.state([&] { return g.desc(); }, [&] { go(X, g, Opt{o.width, 1}, true); }); });
}
#elif PART == 5
using V = std::vector<double>;
static std::string vec(const V& r) { std::string s; for (auto x : r) s += str(x) + " "; return s; }
static void go(Ctx& X, const G& g, Opt o, int conv_bound) {
  edge_list<DIR> el(g.n); el_fill(el, g); adjacency<1> A(el); std::vector<int> od(g.n); for (auto& e : g.e) ++od[e[0]]; std::vector<default_vertex_id_type> deg(od.begin(), od.end());
  const double d = 0.5; const int N = g.n; std::vector<std::vector<int>> in(N); for (auto& e : g.e) in[e[1]].push_back(e[0]);
  auto step = [&](const V& x) { V y(N, (1 - d) / N); for (auto& e : g.e) y[e[1]] += d * x[e[0]] / od[e[0]]; return y; };
  V x0(N, 1.0 / N), fix = x0; for (int k = 0; k < 500; ++k) fix = step(fix);
  auto off = [&](const V& a, const V& b) { double e = 0; for (int i = 0; i < N; ++i) e += std::fabs(a[i] - b[i]); return e; };
  auto J = [&](const std::string& nm, auto&& f) { V x = x0; for (int k = 1; k <= 2; ++k) { x = step(x); V w = x; all_schedules(X, nm + " " + str(k) + " iterations", o, [&, k] { V r(N, 7.0); f(r, -1.0, size_t(k)); return r; }, [&, w, k](auto& r) -> std::string { return off(r, w) <= 1e-9 ? "" : str(k) + " iterations give " + vec(r) + "expected " + vec(w); }); } };
  // scores updated in place: after one sweep each score was computed from old or new contributions of its in-neighbours
  auto M = [&](const std::string& nm, auto&& f) { all_schedules(X, nm + " 1 iteration in place", o, [&] { V r(N, 7.0); f(r, -1.0, size_t(1)); return r; }, [&](auto& r) -> std::string {
    for (int i = 0; i < N; ++i) { size_t k = in[i].size(); bool hit = false; for (size_t m = 0; m < (size_t(1) << k); ++m) { double z = 0; for (size_t q = 0; q < k; ++q) { int u = in[i][q]; z += ((m >> q & 1) ? r[u] : x0[u]) / od[u]; } if (std::fabs((1 - d) / N + d * z - r[i]) < 1e-9) hit = true; } if (!hit) return "score of " + str(i) + " is not computed from scores of its in-neighbours: " + vec(r); }
    return ""; }); };
  auto L = [&](const std::string& nm, auto&& f) { double th = 0.02; all_schedules(X, nm + " to convergence", Opt{o.width, conv_bound, 3000}, [&] { V r(N, 7.0); f(r, th, size_t(100)); return r; }, [&](auto& r) -> std::string { return off(r, fix) <= th * d / (1 - d) + 1e-9 ? "" : "scores " + vec(r) + "are off by " + str(off(r, fix)); }); };
  auto main_ = [&](V& r, double t, size_t m) { page_rank(A, deg, r, d, t, m, 2); };
  M("page_rank", main_); L("page_rank", main_);
  auto v4 = [&](V& r, double t, size_t m) { page_rank_v4(A, deg, r, d, t, m, 2); }; J("page_rank_v4", v4);
  auto v6 = [&](V& r, double t, size_t m) { page_rank_v6(A, deg, r, d, t, m, 2); }; J("page_rank_v6", v6);
  auto v7 = [&](V& r, double t, size_t m) { page_rank_v7(A, deg, r, d, t, m, 2); }; J("page_rank_v7", v7);
  auto v8 = [&](V& r, double t, size_t m) { page_rank_v8(A, deg, r, d, t, m, 2); }; J("page_rank_v8", v8);
  auto v9 = [&](V& r, double t, size_t m) { page_rank_v9(A, deg, r, d, t, m, 2); }; J("page_rank_v9", v9);
  auto v10 = [&](V& r, double t, size_t m) { page_rank_v10(A, deg, r, d, t, m, 2); }; J("page_rank_v10", v10);
  auto v14 = [&](V& r, double t, size_t m) { page_rank_v14(A, deg, r, d, t, m); }; L("page_rank_v14", v14);
}
void mc_main(Ctx& X) {
  auto o = opts(X, 4, 5, 2, 3);
  X.section("digraphs with loops on 3 vertices");
  each_digraph(3, true, [&](const G& g) { if (!WIDE && g.e.size() >= 2) X.state([&] { return g.desc(); }, [&] { go(X, g, o, 1); }); });
  X.section("digraphs on 4 vertices");
  each_digraph(4, false, [&](const G& g) { if (g.e.size() >= 3 && g.e.size() <= (X.thorough ? 6 : 4)) X.state([&] { return g.desc(); }, [&] { go(X, g, Opt{o.width, o.bound - 1}, 0); }); });
}
#elif PART == 6
using Recs = std::vector<std::vector<long>>;
template <class EL> Recs recs(EL& el) { Recs r; for (auto&& e : el) r.push_back(tup(e)); return r; }
// results are flattened to one vector of longs so that every schedule of a program can be compared with the first
static void put(std::vector<long>& o, const Recs& r) { for (auto& x : r) { o.insert(o.end(), x.begin(), x.end()); o.push_back(-1); } }
template <class A> void rows(std::vector<long>& o, A& a, bool srt) { for (size_t i = 0; i < a.size(); ++i) { auto r = read_row(a[i]); if (srt) std::sort(r.begin(), r.end()); o.push_back(-2); put(o, r); } }
template <class B> void det(Ctx& X, const std::string& n, Opt o, B&& body, std::vector<long> want) {
  all_schedules(X, n, o, body, [&](auto& r) -> std::string { return r == want ? "" : "result " + show(r) + " expected " + show(want); });
}
template <directedness D, class... A> void go(Ctx& X, const G& g, Opt o) {
  const bool und = D == UND; const std::string s = und ? "undirected " : "directed ";
  const int n = g.n; constexpr int na = sizeof...(A);
  Recs rec; for (size_t k = 0; k < g.e.size(); ++k) { std::vector<long> t{g.e[k][0], g.e[k][1]}; for (long x : attr_of(int(k), na)) t.push_back(x); rec.push_back(t); }
  edge_list<D, A...> el(n); el_fill(el, g);
  auto deg = [&](int idx) { std::vector<long> d(n); for (auto& e : g.e) { if (und) { ++d[e[0]]; ++d[e[1]]; } else ++d[e[idx]]; } return d; };
  auto asv = [](auto&& v) { return std::vector<long>(v.begin(), v.end()); };
  det(X, s + "degrees<0>", o, [&] { return asv(degrees<0>(el)); }, deg(0));
  det(X, s + "degrees<1>", o, [&] { return asv(degrees<1>(el)); }, deg(1));
  auto want_rows = [&](int idx) { std::vector<long> w; for (auto& r : ref_rows(g, n, idx, und, na)) { w.push_back(-2); put(w, r); } return w; };
  det(X, s + "adjacency<0>", o, [&] { adjacency<0, A...> a(el); std::vector<long> r; rows(r, a, true); return r; }, want_rows(0));
  if (!und) det(X, s + "adjacency<1>", o, [&] { adjacency<1, A...> a(el, true); std::vector<long> r; rows(r, a, true); return r; }, want_rows(1));
  adjacency<0, A...> A0(el, true);
  { auto d = std::vector<long>(n); auto rr = ref_rows(g, n, 0, und, na); for (int i = 0; i < n; ++i) d[i] = long(rr[i].size());
    det(X, s + "degrees of adjacency", o, [&] { return asv(degrees(A0)); }, d); det(X, s + "compressed degrees", o, [&] { return asv(A0.degrees()); }, d); }
  for (auto dir : {"descending", "ascending"}) {
    auto judged = [&](auto& r) -> std::string {    // r = new-id permutation, -3, rows
      std::vector<long> p; size_t i = 0; for (; i < r.size() && r[i] != -3; ++i) p.push_back(r[i]);
      std::vector<long> q = p; std::sort(q.begin(), q.end()); for (int k = 0; k < n; ++k) if (int(q.size()) != n || q[k] != k) return "not a permutation: " + show(p);
      auto rr = ref_rows(g, n, 0, und, na); Rows w(n); for (int v = 0; v < n; ++v) { for (auto& t : rr[v]) t[0] = p[t[0]]; std::sort(rr[v].begin(), rr[v].end()); w[p[v]] = rr[v]; }
      for (int k = 1; k < n; ++k) if (dir[0] == 'd' ? w[k - 1].size() < w[k].size() : w[k - 1].size() > w[k].size()) return std::string("rows not in degree order");
      std::vector<long> f; for (auto& x : w) { f.push_back(-2); put(f, x); }
      return std::vector<long>(r.begin() + i + 1, r.end()) == f ? "" : "rows " + show(r) + " expected " + show(f);
    };
    all_schedules(X, s + "permute_by_degree " + dir, o, [&] { adjacency<0, A...> a(A0); auto p = a.permute_by_degree(dir); a.relabel_to_be_indexed(p); auto r = asv(p); r.push_back(-3); rows(r, a, true); return r; }, judged);
    all_schedules(X, s + "relabel_by_degree " + dir, o, [&] { auto e(el); auto f = relabel_by_degree<0>(e, dir); auto r = asv(f); r.push_back(-3); put(r, recs(e)); return r; }, [&](auto& r) -> std::string {
      std::vector<long> w(r.begin(), r.begin() + std::min<size_t>(n, r.size())); auto p = w; w.push_back(-3); for (auto& x : rec) { auto t = x; if (size_t(t[0]) >= p.size() || size_t(t[1]) >= p.size()) return "short permutation"; t[0] = p[t[0]]; t[1] = p[t[1]]; Recs one{t}; put(w, one); }
      return r == w ? "" : "relabelled records " + show(r) + " expected " + show(w); });
  }
}
template <class R, class F> void loops(Ctx& X, const std::string& n, Opt o, size_t N, R mk, F ix) {
  std::vector<long> ones(N, 1);
  det(X, "parallel_for over " + n, o, [&] { auto r = mk(); std::vector<long> c(N); nw::graph::parallel_for(r, [&](auto&&... e) { ++c[ix(e...)]; }); return c; }, ones);
  det(X, "parallel_reduce over " + n, o, [&] { auto r = mk(); return std::vector<long>{long(nw::graph::parallel_reduce(r, [&](auto&&... e) { return long(1) << ix(e...); }, std::plus<long>{}, 0l))}; }, {(1l << N) - 1});
}
void mc_main(Ctx& X) {
  auto o = opts(X, 4, 5, 3, 3);
  X.section("edge sequences over 3 vertices");
  for (int k = 1; k <= (WIDE && !X.thorough ? 3 : 4); ++k) each_edge_seq(3, 3, k, [&](G g) { g.n = 3; X.state([&] { return g.desc(); }, [&] { go<DIR>(X, g, o); go<UND, int>(X, g, o); if (k < 3) { go<DIR, double, short>(X, g, o); go<UND>(X, g, o); } }); });
  X.section("graphs on 4 vertices");
  each_ugraph(4, [&](const G& g) { if (g.e.size() >= 3) X.state([&] { return g.desc(); }, [&] { go<UND>(X, g, o); go<DIR, int>(X, g, o); }); });
  X.section("bipartite edge sequences");
  for (int k = 2; k <= 3; ++k) each_edge_seq(2, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] {
    bi_edge_list<DIR, int> el(2, 3); el_fill(el, g); std::vector<long> d0(2), d1(3); for (auto& e : g.e) { ++d0[e[0]]; ++d1[e[1]]; }
    det(X, "bipartite degrees<0>", o, [&] { auto d = degrees<0>(el); return std::vector<long>(d.begin(), d.end()); }, d0);
    det(X, "bipartite degrees<1>", o, [&] { auto d = degrees<1>(el); return std::vector<long>(d.begin(), d.end()); }, d1);
    auto want = [&](int idx) { std::vector<long> w; for (auto& r : ref_rows(g, idx ? 3 : 2, idx, false, 1)) { w.push_back(-2); put(w, r); } return w; };
    det(X, "biadjacency<0>", o, [&] { biadjacency<0, int> a(el); std::vector<long> r; rows(r, a, true); return r; }, want(0));
    det(X, "biadjacency<1>", o, [&] { biadjacency<1, int> a(el); std::vector<long> r; rows(r, a, true); return r; }, want(1));
  }); });
  X.section("parallel loops");
  for (int n = 0; n <= 6; ++n) X.state([&] { return "length " + str(n); }, [&] {
    std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i;
    for (size_t cut : {1, 2, 4}) { loops(X, "splittable range", o, n, [&] { return nw::graph::splittable_range_adaptor(v, cut); }, [&](auto x) { return x; }); loops(X, "cyclic range", o, n, [&] { return nw::graph::cyclic(v, cut); }, [&](auto x) { return x; }); }
    G g = g_path(std::max(n, 1)); edge_list<DIR> el(g.n); el_fill(el, g); adjacency<0> A(el);
    loops(X, "edge range", o, g.e.size(), [&] { return edge_range(A); }, [&](auto u, auto) { return u; });
    nw::graph::AtomicBitVector<> bits(300); for (int i = 0; i < n; ++i) bits.set(size_t(i) * 47);
    loops(X, "non-zero bits", o, n, [&] { return bits.non_zeros(1); }, [&](auto i) { return i / 47; });
  });
}
#endif
