// Betweenness centrality: sequential and parallel Brandes (subset of sources / exact), the verifier.
#include "common.hpp"
#include <nwgraph/algorithms/betweenness_centrality.hpp>
using namespace mc;
struct Ref { std::vector<double> plain, own; };    // own: a root's dependency on itself counts too
static Ref ref(const G& g, bool und, const std::vector<int>& src) {
  int n = g.n; auto a = adj(g, und); Ref r{std::vector<double>(n), std::vector<double>(n)};
  if (und) for (auto& e : g.e) if (e[0] == e[1]) { }
  std::vector<std::vector<int>> d(n, std::vector<int>(n, -1)); std::vector<std::vector<double>> c(n, std::vector<double>(n, 0));
  for (int s = 0; s < n; ++s) { std::vector<int> q{s}; d[s][s] = 0; c[s][s] = 1; for (size_t h = 0; h < q.size(); ++h) { int u = q[h]; for (int v : a[u]) { if (d[s][v] < 0) { d[s][v] = d[s][u] + 1; q.push_back(v); } if (d[s][v] == d[s][u] + 1) c[s][v] += c[s][u]; } } }
  for (int s : src) for (int t = 0; t < n; ++t) if (t != s && d[s][t] > 0) for (int v = 0; v < n; ++v) if (v != t && d[s][v] >= 0 && d[v][t] >= 0 && d[s][v] + d[v][t] == d[s][t]) { double x = c[s][v] * c[v][t] / c[s][t]; r.own[v] += x; if (v != s) r.plain[v] += x; }
  return r;
}
// the same by back-propagation, for graphs too big for the definition; compared with the definition on every smaller one
static Ref ref2(const G& g, bool und, const std::vector<int>& src) {
  int n = g.n; auto a = adj(g, und); Ref r{std::vector<double>(n), std::vector<double>(n)};
  for (int s : src) { std::vector<int> q{s}, d(n, -1); std::vector<double> c(n, 0), x(n, 0); d[s] = 0; c[s] = 1; for (size_t h = 0; h < q.size(); ++h) { int u = q[h]; for (int v : a[u]) { if (d[v] < 0) { d[v] = d[u] + 1; q.push_back(v); } if (d[v] == d[u] + 1) c[v] += c[u]; } }
    for (size_t h = q.size(); h-- > 0;) { int u = q[h]; for (int v : a[u]) if (d[v] == d[u] + 1) x[u] += c[u] / c[v] * (1 + x[v]); r.own[u] += x[u]; if (u != s) r.plain[u] += x[u]; } }
  return r;
}
static Ref refx(Ctx& X, const G& g, bool und, const std::vector<int>& src) {
  if (g.n > 200) return ref2(g, und, src);
  auto r = ref(g, und, src), q = ref2(g, und, src); for (int i = 0; i < g.n; ++i) X.check(std::fabs(r.own[i] - q.own[i]) <= 1e-9 * std::max(1.0, r.own[i]) && std::fabs(r.plain[i] - q.plain[i]) <= 1e-9 * std::max(1.0, r.plain[i]), "the two references differ"); return r;
}
static std::vector<double> norm(std::vector<double> v) { double m = 0; for (double x : v) m = std::max(m, x); if (m > 0) for (double& x : v) x /= m; return v; }
template <class V> void cmp(Ctx& X, const V& got, const std::vector<double>& want, double eps, const std::string& how) {
  X.check(got.size() == want.size(), "size");
  for (size_t i = 0; i < want.size(); ++i) { double t = eps * std::max(1.0, std::fabs(want[i])); X.check(std::fabs(double(got[i]) - want[i]) <= t, "score", [&] { return how + " vertex " + str(i) + ": " + str(got[i]) + " expected " + str(want[i]); }); }
  X.outcome(hash_all(got));
}
static std::vector<int> all(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
static void go(Ctx& X, const G& g, bool und, const std::vector<int>& pols, const std::vector<std::vector<int>>& srcs, bool more) {
  auto body = [&](auto& A, const char* t) {
    using GR = std::remove_reference_t<decltype(A)>; auto S = std::execution::par_unseq; auto Q = std::execution::seq;
    std::string T = t; auto R = refx(X, g, und, all(g.n));
    X.run(T + "brandes_bc", [&] { cmp(X, brandes_bc<GR, double, size_t>(A, false), R.plain, 1e-9, "exact "); });
    X.run(T + "brandes_bc normalised", [&] { cmp(X, brandes_bc<GR, double, double>(A, true), norm(R.plain), 1e-9, "exact normalised "); });
    if (more) X.run(T + "brandes_bc float", [&] { cmp(X, brandes_bc(A), norm(R.plain), 1e-3, "default "); });
    for (int p : pols) {
      rt::policy = p;
      for (int th : {1, 3}) if (th > 1 || g.n <= 200) X.run(T + "exact_brandes_bc", [&] { cmp(X, exact_brandes_bc<double, size_t>(A, th, S, S, false), R.own, 1e-9, "par exact policy " + str(p) + " "); });
      if (more) X.run(T + "exact_brandes_bc float normalised", [&] { cmp(X, exact_brandes_bc<float, double>(A, 4, S, Q, true), norm(R.own), 1e-3, "par exact normalised "); });
      for (auto& s : srcs) {
        auto P = refx(X, g, und, s); std::vector<typename GR::vertex_id_type> v(s.begin(), s.end());
        X.run(T + "brandes_bc sources", [&] { auto c = brandes_bc<double, double>(A, v, 2, Q, S, false); cmp(X, c, P.own, 1e-9, "par sources " + show(s) + " "); if (!more) return; X.check(BCVerifier<double, double>(A, v, c, false), "verifier rejects the right scores");
          for (size_t i = 0; i < c.size(); ++i) { auto b = c; b[i] += 0.01; bool o = BCVerifier<double, size_t>(A, v, b, false); b[i] -= 0.02; o = o || BCVerifier<double, double>(A, v, b, false); b[i] += 3.01; o = o || BCVerifier<double, double>(A, v, b, false); X.check(!o, "verifier accepts a wrong score", [&] { return "vertex " + str(i); }); } });
        X.run(T + "brandes_bc sources normalised", [&] { auto c = brandes_bc<double, size_t>(A, v, 2, S, S, true); cmp(X, c, norm(P.own), 1e-9, "par sources normalised " + show(s) + " "); if (more) X.check(BCVerifier<double, size_t>(A, v, c), "verifier rejects the right normalised scores"); });
      }
    }
  };
  if (und) { edge_list<UND> el(g.n); el_fill(el, g); adjacency<0> A(el); body(A, "undirected "); }
  else { edge_list<DIR> el(g.n); el_fill(el, g); adjacency<0> A(el); body(A, "directed "); }
}
void mc_main(Ctx& X) {
  X.section("edge sequences (parallel edges, loops) over 3 vertices");
  for (int k = 0; k <= 4; ++k) each_edge_seq(3, 3, k, [&](const G& g0) { if (k == 4 && !X.thorough && (g0.e[0] > g0.e[1] || g0.e[1] > g0.e[2] || g0.e[2] > g0.e[3])) return; G g = g0; g.n = 3; X.state([&] { return g.desc(); }, [&] { go(X, g, false, {0, 2}, {{0}, {0, 1}, {2, 1, 0}}, k < 3); }); });
  X.section("digraphs on 4 vertices");
  each_digraph(4, false, [&](const G& g) { if (!X.thorough && g.e.size() > 5) return; X.state([&] { return g.desc(); }, [&] { go(X, g, false, {1}, {{3}}, false); }); });
  X.section("undirected graphs up to 6 vertices");
  for (int n = 1; n <= 6; ++n) each_ugraph(n, [&](const G& g) { if (n == 6 && !X.thorough && g.e.size() > 6) return; X.state([&] { return g.desc(); }, [&] { go(X, g, true, {3}, {{0, n - 1}}, n < 5); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) { if (n > (X.thorough ? 200 : 66)) continue; X.state([&] { return f.desc(); }, [&] { go(X, f, true, {0, 3}, {some_sources(f.n)}, n < 10); go(X, f, false, {2}, {{0}}, false); }); }
  X.section("large sizes");
  for (auto& f : huge(false, {1025})) if (f.tag != "two-paths" && f.tag != "revpath" && f.tag != "tree-shuffled2") X.state([&] { return f.desc(); }, [&] { go(X, f, true, {3}, {some_sources(f.n)}, false); });
}
