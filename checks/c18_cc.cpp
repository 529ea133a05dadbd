// Connected components: afforest (every neighbour-round setting, with and without transpose), experimental variants, the verifier.
#include "common.hpp"
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#include <nwgraph/adaptors/cyclic_neighbor_range.hpp>
#include <nwgraph/adaptors/bfs_edge_range.hpp>
#include <nwgraph/util/AtomicBitVector.hpp>
#include <nwgraph/algorithms/connected_components.hpp>
#include <nwgraph/experimental/algorithms/connected_components.hpp>
#include <nwgraph/vovos.hpp>
using namespace mc;
static std::vector<int> ref(const G& g) { std::vector<int> c(g.n); for (int i = 0; i < g.n; ++i) c[i] = i; for (bool ch = true; ch;) { ch = false; for (auto& e : g.e) { int m = std::min(c[e[0]], c[e[1]]); if (c[e[0]] != m || c[e[1]] != m) { c[e[0]] = c[e[1]] = m; ch = true; } } } return c; }
template <class V> bool samepart(const V& got, const std::vector<int>& r, std::string& why) {
  if (got.size() != r.size()) { why = "size " + str(got.size()); return false; }
  std::map<long, int> l2r; std::map<int, long> r2l;
  for (size_t i = 0; i < r.size(); ++i) { long l = long(got[i]); if (!r2l.emplace(r[i], l).second && r2l[r[i]] != l) { why = "vertex " + str(i) + " and its component have different labels"; return false; } if (!l2r.emplace(l, r[i]).second && l2r[l] != r[i]) { why = "label " + str(l) + " is used by two components"; return false; } }
  return true;
}
template <class V> std::string lab(const V& v) { std::string s; for (size_t i = 0; i < v.size() && i < 60; ++i) s += str(long(v[i])) + " "; return s; }
static void go(Ctx& X, const G& g, const std::vector<int>& pols, const std::vector<int>& rounds, bool more) {
  auto r = ref(g);
  edge_list<UND> el(g.n); el_fill(el, g); adjacency<0> A(el); const adjacency<0> none(0); adjacency<0> Am(el);
  edge_list<DIR> dl(g.n); el_fill(dl, g); adjacency<0> O(dl); adjacency<1> I(dl);
  edge_list<UND, int> wl(g.n); el_fill(wl, g); adjacency<0, int> W(wl); vov<0> VV(el);
  auto ck = [&](const auto& c, const std::string& how) { std::string why; X.check(samepart(c, r, why), "partition", [&] { return how + why + ": " + lab(c) + " policy " + str(rt::policy); }); X.outcome(hmix(uint64_t(g.n), std::hash<std::string>()(lab(c)))); };
  for (int p : pols) {
    rt::policy = p;
    for (int k : rounds) {
      auto t = "rounds " + str(k) + " ";
      X.run("afforest symmetric", [&] { auto c = afforest(std::execution::par_unseq, A, none, k); ck(c, t); });
      X.run("afforest with transpose", [&] { auto c = afforest(std::execution::par_unseq, O, I, k); ck(c, t); X.check(CCVerifier(O, I, c), "verifier"); });
      if (more) { X.run("afforest symmetric + transpose", [&] { auto c = afforest(std::execution::par, W, W, k); ck(c, t); }); X.run("afforest vov", [&] { vov<0> nv(0); auto c = afforest(std::execution::seq, VV, nv, k); ck(c, t); }); if (g.n) X.run("Afforest", [&] { adjacency<0> e(0); ck(Afforest(A, e, k), t); }); }
    }
    X.run("afforest default", [&] { auto c = afforest(std::execution::par_unseq, A, none); ck(c, ""); X.check(CCVerifier(A, none, c), "verifier"); });
    if (more) {
      X.run("ccv1", [&] { ck(ccv1(A), ""); });
      X.run("sv_v6", [&] { ck(sv_v6(A), ""); });
      X.run("sv_v8", [&] { ck(sv_v8(Am), ""); });
      X.run("sv_v9", [&] { ck(sv_v9(Am), ""); });
      X.run("lpcc", [&] { ck(lpcc(std::execution::par_unseq, Am), ""); });
      for (int b : {1, 2, 3, 40}) X.run("lpcc bins", [&] { ck(lpcc(std::execution::par_unseq, Am, b), str(b)); ck(lpcc_cyclic(std::execution::par_unseq, Am, b), "cyclic " + str(b)); });
      X.run("lpcc_cyclic", [&] { ck(lpcc_cyclic(std::execution::par_unseq, Am), ""); });
      X.run("compute_connected_components_v2", [&] { ck(compute_connected_components_v2(A), ""); });
      X.run("ccv5", [&] { ck(ccv5(A), ""); });
    }
  }
}
void mc_main(Ctx& X) {
  X.section("edge sequences over 3 vertices");
  for (int k = 0; k <= (X.thorough ? 5 : 4); ++k) each_edge_seq(3, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go(X, g, k < 4 ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{3}, {0, 1, 2, 3}, true); }); });
  X.section("digraphs on 4 vertices");
  each_digraph(4, false, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go(X, g, {1, 2}, {0, 1, 2}, X.thorough); }); });
  X.section("undirected graphs on 5 and 6 vertices");
  for (int n = 1; n <= 6; ++n) each_ugraph(n, [&](const G& g) { if (n == 6 && !X.thorough && g.e.size() > 6) return; X.state([&] { return g.desc(); }, [&] { go(X, g, {0, 3}, {0, 1, 2}, n < 6); }); });
  if (X.thorough) { X.section("undirected graphs on 7 vertices with at most 6 edges"); each_ugraph(7, [&](const G& g) { if (g.e.size() > 6) return; X.state([&] { return g.desc(); }, [&] { go(X, g, {2}, {1, 2}, false); }); }); }
  X.section("verifier on every labelling");
  for (int n = 2; n <= 4; ++n) each_ugraph(n, [&](const G& g) { X.state([&] { return g.desc(); }, [&] {
    edge_list<UND> el(n); el_fill(el, g); adjacency<0> A(el); const adjacency<0> none(0); edge_list<DIR> dl(n); el_fill(dl, g); adjacency<0> O(dl); adjacency<1> I(dl); auto r = ref(g);
    X.run("CCVerifier", [&] { each_seq(n, n, [&](const std::vector<int>& q) { std::vector<default_vertex_id_type> c(q.begin(), q.end()); std::string why; bool w = samepart(c, r, why); X.check(CCVerifier(A, none, c) == w && CCVerifier(O, I, c) == w, "verdict", [&] { return show(c) + " expected " + str(w); }); }); }); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(true)) for (auto& f : families(n)) {
    if (!X.thorough && f.e.size() > 2500) continue;
    X.state([&] { return f.desc(); }, [&] { go(X, f, {0, 3}, {0, 1, 2, 5}, n < 34); });
    G s = f; std::vector<int> perm(f.n); for (int i = 0; i < f.n; ++i) perm[i] = int((long(i) * 7919 + 13) % f.n); std::set<int> u(perm.begin(), perm.end()); if (int(u.size()) == f.n) { for (auto& e : s.e) e = {perm[e[0]], perm[e[1]]}; s.tag += "-shuffled"; X.state([&] { return s.desc(); }, [&] { go(X, s, {1, 2}, {0, 2}, false); }); }
  }
  X.section("large sizes");
  for (auto& f : huge(false, {1025, 4097, 66000})) X.state([&] { return f.desc(); }, [&] { go(X, f, {3}, {0, 2}, false); });
}
