// Spanning forests (kruskal, prim) and the disjoint-set forest behind them.
#include "common.hpp"
#include <nwgraph/algorithms/kruskal.hpp>
#include <nwgraph/algorithms/prim.hpp>
#include <nwgraph/vovos.hpp>
using namespace mc;
struct WE { int u, v; long w; };
struct UF { std::vector<int> p; UF(int n) : p(n) { for (int i = 0; i < n; ++i) p[i] = i; } int f(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; } bool u(int a, int b) { a = f(a); b = f(b); if (a == b) return false; p[a] = b; return true; } };
// weight of a minimum spanning forest by exhaustive exchange-free definition: greedy on the reference union-find
static std::pair<long, int> msf(std::vector<WE> e, int n, bool mx) { std::stable_sort(e.begin(), e.end(), [&](auto& a, auto& b) { return mx ? a.w > b.w : a.w < b.w; }); UF u(n); long s = 0; int k = 0; for (auto& x : e) if (u.u(x.u, x.v)) { s += x.w; ++k; } return {s, k}; }
// brute force over all edge subsets, to trust the greedy reference
static std::pair<long, int> brute(const std::vector<WE>& e, int n, bool mx) { long best = 0; int bk = -1; for (unsigned m = 0; m < (1u << e.size()); ++m) { UF u(n); long s = 0; int k = 0; bool ok = true; for (size_t i = 0; i < e.size() && ok; ++i) if (m >> i & 1) { ok = u.u(e[i].u, e[i].v); s += e[i].w; ++k; } if (ok && (k > bk || (k == bk && (mx ? s > best : s < best)))) { bk = k; best = s; } } return {best, bk}; }
template <directedness D, class W> void kr(Ctx& X, const std::vector<WE>& e, int n, const char* t) {
  auto mk = [&] { edge_list<D, W> el(n); el.open_for_push_back(); for (auto& x : e) el.push_back(x.u, x.v, W(x.w)); el.close_for_push_back(); return el; };
  using R = std::array<long, 3>;
  auto ck = [&](auto& el, auto& T, bool mx) {
    auto [w, k] = msf(e, n, mx); if (e.size() <= 5) { auto b = brute(e, n, mx); X.check(b.first == w && b.second == k, "reference"); }
    std::vector<R> in, out, src; for (auto& x : e) src.push_back({x.u, x.v, x.w}); for (auto&& [u, v, x] : el) in.push_back({long(u), long(v), long(x)}); for (auto&& [u, v, x] : T) out.push_back({long(u), long(v), long(x)});
    UF u(n); long s = 0; for (auto& x : out) { X.check(u.u(int(x[0]), int(x[1])), "cycle", [&] { return str(x[0]) + "-" + str(x[1]) + " closes a cycle"; }); s += x[2]; }
    X.check(int(out.size()) == k && s == w, "weight", [&] { return str(out.size()) + " edges of weight " + str(s) + ", expected " + str(k) + " of " + str(w); });
    auto sorted_ = [](std::vector<R> v) { std::sort(v.begin(), v.end()); return v; }; auto so = sorted_(out), si = sorted_(in), ss = sorted_(src);
    X.check(si == ss, "input records changed"); X.check(std::includes(ss.begin(), ss.end(), so.begin(), so.end()), "not input edges");
    X.check(num_vertices(T) >= size_t(n), "vertex count", [&] { return str(num_vertices(T)); }); X.outcome(hmix(s, out.size()));
  };
  X.run(std::string("kruskal ") + t, [&] { auto el = mk(); auto T = kruskal(el); ck(el, T, false); auto T2 = kruskal(el); ck(el, T2, false); });
  X.run(std::string("kruskal maximum ") + t, [&] { auto el = mk(); auto T = kruskal(el, [](auto a, auto b) { return std::get<2>(a) > std::get<2>(b); }); ck(el, T, true); });
}
template <class Gr, class Dist> void pr(Ctx& X, const Gr& A, const std::vector<WE>& e, int n, const char* t) {
  X.run(std::string("prim ") + t, [&] {
    std::map<std::pair<int, int>, long> best; for (auto& x : e) for (int d = 0; d < 2; ++d) { std::pair<int, int> k = d ? std::pair{x.v, x.u} : std::pair{x.u, x.v}; auto it = best.find(k); if (it == best.end() || it->second > x.w) best[k] = x.w; }
    UF comp(n); for (auto& x : e) comp.u(x.u, x.v);
    for (int s = 0; s < n && s < 6; ++s) {
      auto p = prim<Gr, Dist>(A, default_vertex_id_type(s), [](auto&& e) { return Dist(std::get<1>(e)); }); X.check(p.size() == size_t(n), "size");
      std::vector<WE> mine; for (auto& x : e) if (comp.f(x.u) == comp.f(s)) mine.push_back(x); auto [w, k] = msf(mine, n, false); UF u(n); long tot = 0; int cnt = 0;
      for (int v = 0; v < n; ++v) { bool none = p[v] == std::numeric_limits<default_vertex_id_type>::max(); X.check(none == (v == s || comp.f(v) != comp.f(s)), "reached", [&] { return "source " + str(s) + " vertex " + str(v) + " predecessor " + str(p[v]); }); if (none) continue;
        auto it = best.find({int(p[v]), v}); X.check(it != best.end() && u.u(int(p[v]), v), "tree", [&] { return str(p[v]) + "-" + str(v); }); tot += it->second; ++cnt; }
      X.check(tot == w && cnt == k, "weight", [&] { return "source " + str(s) + ": " + str(tot) + " expected " + str(w); }); X.outcome(hmix(tot, s));
    }
  });
}
static void go(Ctx& X, const std::vector<WE>& e, int n, bool all) {
  kr<UND, double>(X, e, n, "undirected"); if (all) { kr<DIR, int>(X, e, n, "directed list, int"); kr<UND, float>(X, e, n, "float"); }
  edge_list<UND, int> el(n); el.open_for_push_back(); for (auto& x : e) el.push_back(x.u, x.v, int(x.w)); el.close_for_push_back(); adjacency<0, int> A(el); pr<adjacency<0, int>, int>(X, A, e, n, "csr");
  if (all) { vov<0, int> V(el); pr<vov<0, int>, double>(X, V, e, n, "vov, double"); }
}
static std::string dsc(const std::vector<WE>& e, int n) { std::string s = "n=" + str(n); for (auto& x : e) s += " (" + str(x.u) + "," + str(x.v) + "," + str(x.w) + ")"; return s; }
void mc_main(Ctx& X) {
  X.section("weighted edge sequences over 3 vertices (loops and parallel edges included)");
  for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g) { each_seq(3, k, [&](const std::vector<int>& w) { std::vector<WE> e; for (int i = 0; i < k; ++i) e.push_back({g.e[i][0], g.e[i][1], w[i] == 2 ? 7 : w[i] + (w[i] ? 0 : 0)}); for (int n : {3, 5}) X.state([&] { return dsc(e, n); }, [&] { go(X, e, n, k < 3); }); }); });
  X.section("every assignment of 3 weights to the graphs on 4 vertices");
  each_ugraph(4, [&](const G& g) { each_seq(3, int(g.e.size()), [&](const std::vector<int>& w) { std::vector<WE> e; for (size_t i = 0; i < g.e.size(); ++i) e.push_back({g.e[i][0], g.e[i][1], w[i] * 2 - 1}); X.state([&] { return dsc(e, 4); }, [&] { go(X, e, 4, X.thorough); }); }); });
  X.section("every order of distinct weights on the complete graph of 4 vertices");
  { std::vector<int> p{1, 2, 3, 4, 5, 6}; do { std::vector<WE> e; int i = 0; for (int u = 0; u < 4; ++u) for (int v = u + 1; v < 4; ++v) e.push_back({u, v, p[i++]}); X.state([&] { return dsc(e, 4); }, [&] { go(X, e, 4, true); }); } while (std::next_permutation(p.begin(), p.end())); }
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) { if (f.e.size() > 3000) continue; for (int mode = 0; mode < 4; ++mode) { std::vector<WE> e; for (size_t i = 0; i < f.e.size(); ++i) e.push_back({f.e[i][0], f.e[i][1], mode == 0 ? 1 : mode == 1 ? long(i) : mode == 2 ? long(f.e.size() - i) : long(i * 2654435761u >> 7) % 17}); X.state([&] { return f.desc() + " weights " + str(mode); }, [&] { go(X, e, f.n, n < 40); }); } }
  X.section("large sizes");
  for (auto& f : huge(true, {1025, 4097})) { std::vector<WE> e; for (size_t i = 0; i < f.e.size(); ++i) e.push_back({f.e[i][0], f.e[i][1], long(i * 2654435761u >> 7) % 1000}); X.state([&] { return f.desc(); }, [&] { go(X, e, f.n, false); }); }
  X.section("every history of union and find operations");
  for (int n = 1; n <= 4; ++n) { int ops = 2 * n * n + n; int D = n <= 2 ? 4 : n == 3 ? 4 : X.thorough ? 4 : 3; for (int d = 1; d <= D; ++d) each_seq(ops, d, [&](const std::vector<int>& h) { X.state([&] { return "n=" + str(n) + " ops " + show(h); }, [&] { X.run("disjoint sets", [&] {
    std::vector<std::pair<nw::graph::vertex_id_type, size_t>> s(n); for (int i = 0; i < n; ++i) s[i] = {nw::graph::vertex_id_type(i), 0}; UF r(n);
    for (int o : h) { if (o < n * n) disjoint_union(s, o / n, o % n), r.u(o / n, o % n); else if (o < 2 * n * n) { int q = o - n * n; bool a = disjoint_union_find(s, q / n, q % n), b = r.u(q / n, q % n); X.check(a == b, "merged", [&] { return str(a); }); } else { auto x = disjoint_find(s, o - 2 * n * n); X.check(r.f(int(x)) == r.f(o - 2 * n * n), "root"); }
      for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { auto t = s; X.check((disjoint_find(t, a) == disjoint_find(t, b)) == (r.f(a) == r.f(b)), "partition", [&] { return str(a) + " and " + str(b); }); } }
    X.outcome(hash_all(h));
  }); }); }); }
}
