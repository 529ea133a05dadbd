// Experimental betweenness variants: every small graph (PART 0) and every schedule on small graphs (PART 1).
#if PART == 1
#include "quiet_future.hpp"
#include "sched.hpp"
#endif
#include "common.hpp"
#include <nwgraph/algorithms/betweenness_centrality.hpp>
#include <nwgraph/experimental/algorithms/betweenness_centrality.hpp>
using namespace mc;
struct Ref { std::vector<double> plain, own; };
static Ref ref(const G& g, bool und, const std::vector<int>& src) {
  int n = g.n; auto a = adj(g, und); Ref r{std::vector<double>(n), std::vector<double>(n)};
  std::vector<std::vector<int>> d(n, std::vector<int>(n, -1)); std::vector<std::vector<double>> c(n, std::vector<double>(n, 0));
  for (int s = 0; s < n; ++s) { std::vector<int> q{s}; d[s][s] = 0; c[s][s] = 1; for (size_t h = 0; h < q.size(); ++h) { int u = q[h]; for (int v : a[u]) { if (d[s][v] < 0) { d[s][v] = d[s][u] + 1; q.push_back(v); } if (d[s][v] == d[s][u] + 1) c[s][v] += c[s][u]; } } }
  for (int s : src) for (int t = 0; t < n; ++t) if (t != s && d[s][t] > 0) for (int v = 0; v < n; ++v) if (v != t && d[s][v] >= 0 && d[v][t] >= 0 && d[s][v] + d[v][t] == d[s][t]) { double x = c[s][v] * c[v][t] / c[s][t]; r.own[v] += x; if (v != s) r.plain[v] += x; }
  return r;
}
static std::vector<double> norm(std::vector<double> v) { double m = 0; for (double x : v) m = std::max(m, x); if (m > 0) for (double& x : v) x /= m; return v; }
template <class V> std::string diff(const V& got, const std::vector<double>& want, double eps) {
  if (got.size() != want.size()) return "size";
  for (size_t i = 0; i < want.size(); ++i) { double t = eps * std::max(1.0, std::fabs(want[i])); if (!(std::fabs(double(got[i]) - want[i]) <= t)) return "vertex " + str(i) + " scores " + str(double(got[i])) + ", expected " + str(want[i]); }
  return "";
}
#if PART == 0
template <directedness D> void go(Ctx& X, const G& g, bool simple, const std::vector<int>& pols, const std::vector<std::vector<int>>& srcs, bool more) {
  edge_list<D> el(g.n); el_fill(el, g); adjacency<0> A(el); using GR = decltype(A); using VI = typename GR::vertex_id_type;
  auto S = std::execution::par_unseq; auto Q = std::execution::seq;
  auto J = [&](const std::string& nm, const std::vector<double>& w, double eps, auto&& f) { X.run(nm, [&] { auto r = f(); auto e = diff(r, w, eps); X.check(e.empty(), "score", [&] { return e; }); X.outcome(hash_all(r)); }); };
  for (auto& s : srcs) {
    auto R = ref(g, D == UND, s); std::vector<VI> v(s.begin(), s.end()); auto no = norm(R.own), np = norm(R.plain);
    J("approx_betweenness_brandes", np, 1e-9, [&] { return approx_betweenness_brandes<GR, double, size_t>(A, v); });
    if (simple) J("approx_betweenness_worklist_serial", np, 1e-9, [&] { return approx_betweenness_worklist_serial<GR, double, size_t>(A, v); });
    J("bc2_v0", R.own, 1e-9, [&] { return bc2_v0<GR, double, size_t>(A, v, false); });
    J("bc2_v1", R.plain, 1e-9, [&] { return bc2_v1<GR, double, size_t>(A, v, false); });
    if (more) { J("bc2_v0 normalised", no, 1e-9, [&] { return bc2_v0<GR, double, size_t>(A, v); }); J("bc2_v1 normalised", np, 1e-9, [&] { return bc2_v1<GR, double, double>(A, v, true); }); }
    for (int p : pols) {
      rt::policy = p;
      J("bc2_v2", R.plain, 1e-9, [&] { return bc2_v2<GR, double, size_t>(A, v, S, false); });
      J("bc2_v3", R.own, 1e-9, [&] { return bc2_v3<GR, double, size_t>(A, v, S, S, false); });
      for (int th : {1, 3}) J("bc2_v4", R.own, 1e-9, [&] { return bc2_v4<double, size_t>(A, v, th, S, Q, false); });
      if (more) { J("bc2_v2 normalised", np, 1e-3, [&] { return bc2_v2<GR, float, size_t>(A, v); }); J("bc2_v3 normalised", no, 1e-3, [&] { return bc2_v3<GR>(A, v, Q, S, true); }); J("bc2_v4 normalised", no, 1e-9, [&] { return bc2_v4<double, double>(A, v, 4, S, S, true); }); }
    }
  }
}
void mc_main(Ctx& X) {
  X.section("edge sequences (parallel edges, loops) over 3 vertices");
  for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g0) { G g = g0; g.n = 3; X.state([&] { return g.desc(); }, [&] { go<DIR>(X, g, false, {0, 2}, {{0}, {2, 1, 0}}, k < 3); }); });
  X.section("digraphs on 4 vertices");
  each_digraph(4, false, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<DIR>(X, g, true, {1}, {{3}}, false); }); });
  X.section("undirected graphs up to 6 vertices");
  for (int n = 1; n <= 6; ++n) each_ugraph(n, [&](const G& g) { if (n == 6 && !X.thorough && g.e.size() > 6) return; X.state([&] { return g.desc(); }, [&] { go<UND>(X, g, true, {3}, {{0, n - 1}}, n < 5); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) { if (n > (X.thorough ? 200 : 66)) continue; X.state([&] { return f.desc(); }, [&] { go<UND>(X, f, false, {0, 3}, {some_sources(f.n)}, n < 10); go<DIR>(X, f, false, {2}, {{0}}, false); }); }
}
#else
using sc::Opt;
template <directedness D> void go(Ctx& X, const G& g, const std::vector<int>& s, Opt o) {
  edge_list<D> el(g.n); el_fill(el, g); adjacency<0> A(el); using GR = decltype(A); using VI = typename GR::vertex_id_type;
  auto S = std::execution::par_unseq; auto Q = std::execution::seq; std::vector<VI> v(s.begin(), s.end()); auto R = ref(g, D == UND, s);
  auto J = [&](const std::string& nm, const std::vector<double>& w, auto&& f) { X.run(nm, [&] { sc::explore(X, o, f, [&](auto& r) -> std::string { return diff(r, w, 1e-9); }); }); };
  J("bc2_v2", R.plain, [&] { return bc2_v2<GR, double, size_t>(A, v, S, false); });
  J("bc2_v3", R.own, [&] { return bc2_v3<GR, double, size_t>(A, v, Q, S, false); });
  J("bc2_v4", R.own, [&] { return bc2_v4<double, size_t>(A, v, 1, Q, S, false); });
  J("bc2_v4, both levels", R.own, [&] { return bc2_v4<double, double>(A, v, 2, S, S, false); });
}
void mc_main(Ctx& X) {
  const Opt o{2, X.thorough ? 4 : 3};
  auto deg0 = [](const G& g) { int d = 0; for (auto& e : g.e) d += !e[0]; return d; };
  X.section("undirected graphs on 4 vertices");
  each_ugraph(4, [&](const G& g) { if (deg0(g) >= 2) X.state([&] { return g.desc(); }, [&] { go<UND>(X, g, {0}, o); }); });
  X.section("digraphs on 4 vertices");
  each_digraph(4, false, [&](const G& g) { if (deg0(g) >= 2 && g.e.size() >= 3 && g.e.size() <= (X.thorough ? 6 : 5)) X.state([&] { return g.desc(); }, [&] { go<DIR>(X, g, {0}, Opt{o.width, o.bound - 1}); }); });
}
#endif
