// Traversal ranges: what they enumerate is a BFS / DFS / topological enumeration of exactly the reachable part.
#include "common.hpp"
#include <nwgraph/vovos.hpp>
#include <nwgraph/volos.hpp>
#if PART == 0
#include <nwgraph/adaptors/bfs_range.hpp>
#include <nwgraph/adaptors/bfs_edge_range.hpp>
#include <nwgraph/adaptors/filtered_bfs_range.hpp>
#elif PART == 1
#include <nwgraph/adaptors/dfs_range.hpp>
#include <nwgraph/adaptors/dag_range.hpp>
#endif
using namespace mc;
using Seq = std::vector<std::vector<long>>;
static std::string sh(const Seq& s) { std::string o; for (size_t i = 0; i < s.size() && i < 60; ++i) { o += "("; for (auto x : s[i]) o += str(x) + " "; o += ")"; } return o; }
static std::vector<int> dist(const G& g, int s, bool und, const std::function<bool(int, int)>& drop = nullptr) {
  auto a = adj(g, und); std::vector<int> d(g.n, -1), q{s}; d[s] = 0;
  for (size_t i = 0; i < q.size(); ++i) for (int v : a[q[i]]) if (d[v] < 0 && !(drop && drop(q[i], v))) { d[v] = d[q[i]] + 1; q.push_back(v); }
  return d;
}
static std::set<std::pair<long, long>> pairs(const G& g, bool und) { std::set<std::pair<long, long>> r; for (auto& e : g.e) { r.insert({e[0], e[1]}); if (und) r.insert({e[1], e[0]}); } return r; }
// the property names the record it came from
template <class T> bool is_record(const G& g, bool und, const T& e) { long k = long(e[2]) - 1000; return k >= 0 && k < long(g.e.size()) && ((g.e[k][0] == e[0] && g.e[k][1] == e[1]) || (und && g.e[k][1] == e[0] && g.e[k][0] == e[1])); }
template <class GR> void bfs_checks(Ctx& X, GR& A, const G& g, int s, bool und, const std::string& nm) {
#if PART == 0
  auto d = dist(g, s, und);
  X.run(nm + "topdown_bfs_range", [&] {
    topdown_bfs_range<GR> r(A, s); std::vector<long> o; for (auto&& v : r) { o.push_back(v); if (o.size() > size_t(2 * g.n + 5)) break; }
    std::set<long> seen; for (size_t i = 0; i < o.size(); ++i) { X.check(o[i] >= 0 && o[i] < g.n && d[o[i]] >= 0, "unreachable-visited", [&] { return show(o); }); X.check(seen.insert(o[i]).second, "visited-twice", [&] { return show(o); }); if (i) X.check(d[o[i - 1]] <= d[o[i]], "bfs-order", [&] { return show(o); }); }
    X.check(!o.empty() && o[0] == s, "starts-at-seed"); for (int v = 0; v < g.n; ++v) X.check(d[v] < 0 || seen.count(v), "not-visited", [&] { return "vertex " + str(v) + " in " + show(o); });
  });
  if constexpr (requires { typename GR::inner_iterator; }) X.run(nm + "bfs_edge_range", [&] {
    bfs_edge_range<GR> r(A, s); Seq o; for (auto&& e : r) { o.push_back(tup(e)); if (o.size() > size_t(2 * g.n + 5)) break; }
    std::set<long> seen{s}; size_t last = 0;
    for (auto& e : o) {
      X.check(seen.count(e[0]), "source-not-visited", [&] { return sh(o); }); X.check(seen.insert(e[1]).second, "target-twice", [&] { return sh(o); });
      X.check(d[e[1]] == d[e[0]] + 1, "not-a-tree-edge", [&] { return sh(o); }); X.check(size_t(d[e[0]]) >= last, "bfs-order", [&] { return sh(o); }); last = d[e[0]];
      bool ok = e.size() == 2 || is_record(g, und, e);
      X.check(ok, "property", [&] { return sh(o); });
    }
    for (int v = 0; v < g.n; ++v) X.check(d[v] < 0 || seen.count(v), "not-visited", [&] { return "vertex " + str(v) + " in " + sh(o); });
  });
  // endpoint pairs only; a seed that reaches nothing is shown once, as a pair with itself
  if constexpr (requires { typename GR::inner_iterator; typename GR::vertex_id_type; }) X.run(nm + "bfs_edge_range3", [&] {
    bfs_edge_range3<GR> r(A, s); Seq o; for (auto&& e : r) { o.push_back(tup(e)); if (o.size() > size_t(2 * g.n + 5)) break; }
    std::set<long> seen{s}; size_t last = 0; auto es = pairs(g, und);
    if (o.size() == 1 && o[0][0] == s && o[0][1] == s) o.clear();
    for (auto& e : o) {
      X.check(seen.count(e[0]) && es.count({e[0], e[1]}), "not-an-edge", [&] { return sh(o); }); X.check(seen.insert(e[1]).second, "target-twice", [&] { return sh(o); });
      X.check(d[e[1]] == d[e[0]] + 1, "not-a-tree-edge", [&] { return sh(o); }); X.check(size_t(d[e[0]]) >= last, "bfs-order", [&] { return sh(o); }); last = d[e[0]];
    }
    for (int v = 0; v < g.n; ++v) X.check(d[v] < 0 || seen.count(v), "not-visited", [&] { return "vertex " + str(v) + " in " + sh(o); });
  });
#endif
}
template <class GR> void dfs_checks(Ctx& X, GR& A, const G& g, int s, bool und, const std::string& nm) {
#if PART == 1
  auto d = dist(g, s, und); auto a = adj(g, und);
  if constexpr (requires { typename GR::inner_iterator; }) X.run(nm + "dfs_edge_range", [&] {
    dfs_edge_range<GR> r(A, s); Seq o; for (auto&& e : r) { o.push_back(tup(e)); if (o.size() > size_t(2 * g.n + 5)) break; }
    std::set<long> seen{s}; std::vector<long> path{s}; auto es = pairs(g, und);
    for (auto& e : o) {
      X.check(seen.count(e[0]), "source-not-visited", [&] { return sh(o); });
      while (path.size() && path.back() != e[0]) {    // backtracking is only allowed from finished vertices
        for (int v : a[path.back()]) X.check(seen.count(v), "not-depth-first", [&] { return "left " + str(path.back()) + " before its neighbour " + str(v) + ": " + sh(o); });
        path.pop_back();
      }
      X.check(!path.empty(), "not-depth-first", [&] { return sh(o); });
      X.check(seen.insert(e[1]).second, "target-twice", [&] { return sh(o); }); path.push_back(e[1]);
      bool ok = e.size() == 2 ? es.count({e[0], e[1]}) : is_record(g, und, e);
      X.check(ok, "not-an-edge", [&] { return sh(o); });
    }
    for (int v = 0; v < g.n; ++v) X.check(d[v] < 0 || seen.count(v), "not-visited", [&] { return "vertex " + str(v) + " in " + sh(o); });
  });
#endif
}
template <class GR> void dag(Ctx& X, GR& A, const G& g, const std::vector<int>& pos) {    // edges oriented by pos
#if PART == 1
  X.run("dag_range", [&] {
    std::vector<std::vector<size_t>> P(g.n), S(g.n);
    for (auto e : g.e) { int u = e[0], v = e[1]; if (pos[u] > pos[v]) std::swap(u, v); S[u].push_back(v); P[v].push_back(u); }
    dag_range<GR> r(A, P, S); std::vector<size_t> got(g.n, 0); size_t cnt = 0; std::set<std::pair<long, long>> seen;
    for (auto&& [u, v, ready] : r) {
      X.check(++cnt <= g.e.size(), "too-many"); X.check(got[u] == P[u].size(), "not-topological", [&] { return "edge " + str(u) + "," + str(v) + " before all predecessors of " + str(u); });
      X.check(std::find(S[u].begin(), S[u].end(), v) != S[u].end() && seen.insert({u, v}).second, "edge"); ++got[v]; X.check((ready == yes) == (got[v] == P[v].size()), "ready-flag");
    }
    X.check(cnt == g.e.size(), "edges", [&] { return str(cnt); });
  });
#endif
}
template <class GR> void filt(Ctx& X, GR& A, const G& g, int s, int t, unsigned banned) {
#if PART == 0
  X.run("filtered_bfs_edge_range", [&] {
    // an edge is dropped when its property says so
    auto drop = [&](long u, auto it) { long k = long(std::get<1>(*it)) - 1000; return k >= 0 && k < 20 && (banned >> k & 1); };
    auto dd = [&] { std::vector<int> d(g.n, -1), q{s}; d[s] = 0; for (size_t i = 0; i < q.size(); ++i) for (size_t k = 0; k < g.e.size(); ++k) if (g.e[k][0] == q[i] && !(k < 20 && (banned >> k & 1)) && d[g.e[k][1]] < 0) { d[g.e[k][1]] = d[q[i]] + 1; q.push_back(g.e[k][1]); } return d; }();
    filtered_bfs::filtered_bfs_edge_range<GR, std::queue<vertex_id_t<GR>>, decltype(drop)> r(A, s, t, drop); std::map<long, long> par; size_t c = 0;
    auto it = r.begin(); 
    for (; it != r.end(); ++it) { X.check(++c < 200 + g.e.size(), "endless"); auto e = *it; long k = long(std::get<1>(e)) - 1000; X.check(k >= 0 && size_t(k) < g.e.size() && !(k < 20 && (banned >> k & 1)), "filtered-edge"); X.check(g.e[k][0] == long(it.get_index()) && g.e[k][1] == long(std::get<0>(e)), "edge"); X.check(par.emplace(std::get<0>(e), it.get_index()).second, "target-twice"); X.check(dd[g.e[k][1]] == dd[g.e[k][0]] + 1, "bfs-edge"); }
    X.check(it.found() == (dd[t] >= 0), "found", [&] { return "target " + str(t) + " distance " + str(dd[t]) + " found " + str(it.found()); });
    if (dd[t] >= 0) { long v = t; int len = 0; while (v != s && len < g.n) { v = par.count(v) ? par[v] : -1; ++len; } X.check(v == s && len == dd[t], "shortest-path"); }
  });
#endif
}
template <directedness D, int idx, class... A> void go(Ctx& X, const G& g, const std::vector<int>& src, bool lists) {
  edge_list<D, A...> el(g.n); el_fill(el, g); constexpr bool und = D == UND; G h = g; if (idx == 1) for (auto& e : h.e) std::swap(e[0], e[1]);
  std::string t = std::string(und ? "undirected" : "directed") + (idx ? " transposed " : " ");
  adjacency<idx, A...> a(el);
  vov<idx, A...> b(el);
  adj_list<idx, A...> c(el);
  for (int s : src) {
    bfs_checks(X, a, h, s, und, "csr " + t); dfs_checks(X, a, h, s, und, "csr " + t);
    if (lists) { bfs_checks(X, b, h, s, und, "vov " + t); dfs_checks(X, b, h, s, und, "vov " + t); bfs_checks(X, c, h, s, und, "vol " + t); dfs_checks(X, c, h, s, und, "vol " + t); }
  }
}
static std::vector<int> all(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
void mc_main(Ctx& X) {
  X.section("edge sequences over 3 vertices, every seed");
  for (int k = 0; k <= (X.thorough ? 5 : 4); ++k) each_edge_seq(3, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<DIR, 0, int>(X, g, all(3), k <= 3); if (k <= 3) { go<DIR, 1, int>(X, g, all(3), false); go<UND, 0, double, unsigned short>(X, g, all(3), false); } }); });
  X.section("digraphs with loops on 3, without on 4 vertices, every seed");
  each_digraph(3, true, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<DIR, 0>(X, g, all(3), true); }); });
  each_digraph(4, false, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<DIR, 0, int>(X, g, all(4), true); }); });
  X.section("undirected graphs on 5/6 vertices, every seed");
  for (int n = 1; n <= (X.thorough ? 6 : 5); ++n) each_ugraph(n, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<UND, 0, int>(X, g, all(n), true); }); });
#if PART == 1
  X.section("acyclic orientations of graphs on 5 vertices");
  for (int n = 1; n <= (X.thorough ? 6 : 5); ++n) each_ugraph(n, [&](const G& g) { X.state([&] { return g.desc(); }, [&] {
    edge_list<UND> el(g.n); el_fill(el, g); adjacency<0> A(el); std::vector<int> p = all(n); int c = 0;
    do { if (n < 6 || c++ % 7 == 0) dag(X, A, g, p); } while (std::next_permutation(p.begin(), p.end())); }); });
#else
  X.section("filtered bfs: digraphs on 3 vertices, every source/target and every set of dropped edges");
  each_digraph(3, false, [&](const G& g) { X.state([&] { return g.desc(); }, [&] {
    edge_list<DIR, int> el(g.n); el_fill(el, g); adjacency<0, int> A(el);
    for (int s = 0; s < 3; ++s) { bool has = false; for (auto& e : g.e) has |= e[0] == s; if (has) for (int t = 0; t < 3; ++t) if (s != t) for (unsigned b = 0; b < (1u << g.e.size()); ++b) filt(X, A, g, s, t, b); } }); });
  X.section("filtered bfs: digraphs on 4 vertices");
  each_digraph(4, false, [&](const G& g) { if (g.e.size() > 6 && !X.thorough) return; X.state([&] { return g.desc(); }, [&] {
    edge_list<DIR, int> el(g.n); el_fill(el, g); adjacency<0, int> A(el);
    bool has = false; for (auto& e : g.e) has |= e[0] == 0; if (has) for (int t = 1; t < 4; ++t) for (unsigned b = 0; b < (1u << g.e.size()); b += 1 + (b > 3)) filt(X, A, g, 0, t, b); }); });
#endif
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) X.state([&] { return f.desc(); }, [&] { go<UND, 0, int>(X, f, some_sources(f.n), false); go<DIR, 0>(X, f, some_sources(f.n), n < 40); });
#if PART == 1
  X.section("size sweep: acyclic orientations");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) X.state([&] { return f.desc(); }, [&] {
    edge_list<UND> el(f.n); el_fill(el, f); adjacency<0> A(el); std::vector<int> p = all(f.n);
    dag(X, A, f, p); std::reverse(p.begin(), p.end()); dag(X, A, f, p);
    for (int m : {1, 2, 3}) { for (int i = 0; i < f.n; ++i) p[i] = int((long(i) * 2654435761u + m * 40503u) % 1000003); dag(X, A, f, p); for (int i = 0; i < f.n; ++i) p[i] = i % (m + 1) * f.n + i; dag(X, A, f, p); }
  });
#else
  X.section("size sweep: filtered bfs");
  for (int n : sweep_sizes(X.thorough)) { if (n > (X.thorough ? 200 : 66)) continue; for (auto& f : families(n)) X.state([&] { return f.desc(); }, [&] {
    edge_list<DIR, int> el(f.n); el_fill(el, f); adjacency<0, int> A(el);
    for (int s : some_sources(f.n)) { bool has = false; for (auto& e : f.e) has |= e[0] == s; if (has) for (int t : some_sources(f.n)) if (s != t) for (unsigned b : {0u, 1u, 0x55u, 0x8000u}) filt(X, A, f, s, t, b); } }); }
#endif
  X.section("large sizes");
  for (auto& f : huge(true, PART ? std::vector<int>{1025, 4097} : std::vector<int>{1025, 4097, 66000})) X.state([&] { return f.desc(); }, [&] { go<UND, 0, int>(X, f, {0, f.n - 1}, false); go<DIR, 0>(X, f, {0}, false); });
}
