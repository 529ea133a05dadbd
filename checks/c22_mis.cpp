// Independent sets and colorings of simple undirected graphs.
#include "common.hpp"
#include <nwgraph/adaptors/dag_range.hpp>
#include <nwgraph/algorithms/dag_based_mis.hpp>
#include <nwgraph/algorithms/maximal_independent_set.hpp>
#include <nwgraph/algorithms/jones_plassmann_coloring.hpp>
#include <nwgraph/vovos.hpp>
#include <nwgraph/volos.hpp>
using namespace mc;
static void valid(Ctx& X, const G& g, const std::vector<char>& in, const char* how) {
  std::vector<int> cov(in.begin(), in.end());
  for (auto& e : g.e) { X.check(!(in[e[0]] && in[e[1]]), "independent", [&] { return std::string(how) + ": both ends of " + str(e[0]) + "-" + str(e[1]); }); if (in[e[0]]) cov[e[1]] = 1; if (in[e[1]]) cov[e[0]] = 1; }
  for (int v = 0; v < g.n; ++v) X.check(cov[v], "maximal", [&] { return std::string(how) + ": " + str(v) + " can be added"; });
}
template <class Ad> void algs(Ctx& X, const G& g, Ad& A, const std::string& t) {
  X.run("maximal_independent_set " + t, [&] {
    std::vector<size_t> s; maximal_independent_set(A, s); std::vector<char> in(g.n); for (size_t k = 0; k < s.size(); ++k) { X.check(s[k] < size_t(g.n) && !in[s[k]], "a set of vertices", [&] { return show(std::vector<int>(s.begin(), s.end())); }); in[s[k]] = 1; }
    valid(X, g, in, "set"); X.outcome(hash_all(s));
  });
  X.run("coloring " + t, [&] {
    for (size_t init : {size_t(0), size_t(3), size_t(0xffffffff)}) {
      std::vector<size_t> c(g.n, init); jones_plassmann_coloring(A, c); X.check(c.size() == size_t(g.n), "size"); size_t mx = 0; std::vector<int> d(g.n); for (auto& e : g.e) { ++d[e[0]]; ++d[e[1]]; } int D = 0; for (int x : d) D = std::max(D, x);
      for (auto& e : g.e) X.check(c[e[0]] != c[e[1]], "proper", [&] { return str(e[0]) + "-" + str(e[1]) + " both have color " + str(c[e[0]]); }); for (auto x : c) mx = std::max(mx, x); X.check(mx <= size_t(D + 1), "colors", [&] { return "color " + str(mx) + " with largest degree " + str(D); });
      X.outcome(hash_all(c));
    }
  });
}
static void go(Ctx& X, const G& g, bool all) {
  edge_list<UND> ul(g.n); el_fill(ul, g); adjacency<0> A(ul); algs(X, g, A, "csr");
  if (all) { vov<0> V(ul); algs(X, g, V, "vov"); edge_list<UND, int> wl(g.n); el_fill(wl, g); adjacency<0, int> W(wl); algs(X, g, W, "weighted"); adjacency<1> B(ul); algs(X, g, B, "index 1"); }
  X.run("dag_based_mis", [&] {
    std::vector<bool> ref;
    for (int init = 0; init < 3; ++init) { std::vector<bool> m(g.n, init == 0); if (init == 2) for (int i = 0; i < g.n; ++i) m[i] = i % 2; dag_based_mis(A, m); X.check(m.size() == size_t(g.n), "size"); valid(X, g, std::vector<char>(m.begin(), m.end()), "dag_based_mis"); if (init == 0) ref = m; else X.check(m == ref, "depends on the initial value"); }
    X.outcome(hmix(g.n, std::count(ref.begin(), ref.end(), true)));
  });
}
void mc_main(Ctx& X) {
  X.section("undirected graphs");
  for (int n = 1; n <= 6; ++n) each_ugraph(n, [&](const G& g) { if (n == 6 && !X.thorough && g.e.size() > 9) return; X.state([&] { return g.desc(); }, [&] { go(X, g, n < 6); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto f : families(n)) {    // simple graphs: drop loops and duplicates
    std::set<E2> s; for (auto e : f.e) { if (e[0] == e[1]) continue; if (e[0] > e[1]) std::swap(e[0], e[1]); s.insert(e); } f.e.assign(s.begin(), s.end()); if (f.e.size() > 3000) continue;
    X.state([&] { return f.desc(); }, [&] { go(X, f, true); });
  }
  X.section("large sizes");
  for (auto& f : huge(true, {1025, 4097, 66000})) X.state([&] { return f.desc(); }, [&] { go(X, f, f.n < 2000); });
}
