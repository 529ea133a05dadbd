// k-cores of undirected graphs: which edges go, how many vertices stay.
#include "common.hpp"
#include <nwgraph/adaptors/new_dfs_range.hpp>
#include <nwgraph/algorithms/k_core.hpp>
#include <nwgraph/vovos.hpp>
#include <nwgraph/volos.hpp>
using namespace mc;
// rows[v][w] = number of entries of w in the row of v
using M = std::vector<std::map<int, int>>;
static M rows(const G& g) { M m(g.n); for (auto& e : g.e) { ++m[e[0]][e[1]]; ++m[e[1]][e[0]]; } return m; }
static int inside(const M& m, const std::vector<char>& in, int v) { int d = 0; for (auto& [w, c] : m[v]) if (in[w]) d += c; return d; }
// the k-core: the union of all vertex sets in which every vertex has at least k neighbors inside the set
static std::vector<char> core(const M& m, int k) {
  const int n = m.size(); std::vector<char> in(n, 0);
  if (n <= 6) { for (int s = 1; s < (1 << n); ++s) { std::vector<char> x(n); for (int v = 0; v < n; ++v) x[v] = s >> v & 1; bool ok = true; for (int v = 0; v < n && ok; ++v) ok = !x[v] || inside(m, x, v) >= k; if (ok) for (int v = 0; v < n; ++v) in[v] |= x[v]; } return in; }
  in.assign(n, 1); for (bool more = true; more;) { more = false; for (int v = 0; v < n; ++v) if (in[v] && inside(m, in, v) < k) { in[v] = 0; more = true; } } return in;
}
template <class A> void one(Ctx& X, A& a, const G& g, const M& m, int k, const std::vector<char>& in, const char* how) {
  X.run(std::string(how) + " k=" + str(k), [&] {
    auto [filter, left] = k_core(a, k);
    size_t stay = std::count(in.begin(), in.end(), 1); X.check(left == stay, "vertices left", [&] { return str(left) + " expected " + str(stay); });
    std::set<std::array<size_t, 2>> got, want; for (auto& [e, on] : filter) { X.check(on && e.first <= e.second, "entry", [&] { return str(e.first) + "-" + str(e.second); }); got.insert({e.first, e.second}); }
    for (auto& e : g.e) if (!in[e[0]] || !in[e[1]]) want.insert({size_t(std::min(e[0], e[1])), size_t(std::max(e[0], e[1]))});
    auto list = [](auto& s) { std::string o; for (auto& e : s) o += str(e[0]) + "-" + str(e[1]) + " "; return o; };
    X.check(got == want && filter.size() == want.size(), "edges removed", [&] { return list(got) + "expected " + list(want); });
    X.outcome(hmix(left, got.size()));
  });
}
static void go(Ctx& X, const G& g, bool all) {
  edge_list<UND> ul(g.n); el_fill(ul, g); adjacency<0> A(ul); M m = rows(g);
  int top = 0; for (auto& r : m) { int d = 0; for (auto& [w, c] : r) d += c; top = std::max(top, d); }
  std::vector<int> ks; for (int k = -1; k <= top + 1; ++k) if (k <= 6 || k >= top - 1 || k % 16 == 0) ks.push_back(k);
  for (int k : ks) {
    auto in = core(m, k); one(X, A, g, m, k, in, "csr"); if (!all) continue;
    adjacency<1> B(ul); one(X, B, g, m, k, in, "index 1"); edge_list<UND, int> wl(g.n); el_fill(wl, g); adjacency<0, int> W(wl); one(X, W, g, m, k, in, "weighted");
    vov<0> V(ul); one(X, V, g, m, k, in, "vov"); adj_list<0> L(g.n); fill_adj_list(ul, L); one(X, L, g, m, k, in, "adj_list");
  }
}
void mc_main(Ctx& X) {
  X.section("undirected graphs");
  for (int n = 1; n <= 6; ++n) each_ugraph(n, [&](const G& g) { if (n == 6 && !X.thorough && g.e.size() > 9) return; X.state([&] { return g.desc(); }, [&] { go(X, g, n < 6); }); });
  X.section("edge sequences with loops and parallel edges");
  for (int k = 1; k <= (X.thorough ? 5 : 4); ++k) each_edge_seq(3, 3, k, [&](const G& g) { G h = g; h.n = 3; X.state([&] { return h.desc(); }, [&] { go(X, h, k < 3); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) if (f.e.size() < (X.thorough ? 20000u : 3000u)) X.state([&] { return f.desc(); }, [&] { go(X, f, n < 20); });
}
