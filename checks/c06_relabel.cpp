// Degree permutations and relabelling of edge lists: a bijection of vertices, nothing else.
#include "common.hpp"
using namespace mc;
using Rec = std::vector<long>;
template <class EL> std::vector<Rec> recs(EL& el) { std::vector<Rec> r; for (auto&& e : el) r.push_back(tup(e)); return r; }
static std::vector<long> deg(const std::vector<Rec>& r, size_t n, int idx, bool und) { std::vector<long> d(n, 0); for (auto& x : r) { if (und) { ++d[x[0]]; ++d[x[1]]; } else ++d[x[idx]]; } return d; }
template <class V> bool is_perm(const V& p, size_t n) { std::vector<char> s(n, 0); if (p.size() != n) return false; for (auto x : p) { if (size_t(x) >= n || s[x]) return false; s[x] = 1; } return true; }
template <class V> bool mono(const V& d, bool asc) { for (size_t i = 1; i < d.size(); ++i) if (asc ? d[i - 1] > d[i] : d[i - 1] < d[i]) return false; return true; }

// records of `after` are those of `before` under old->new map `f` on the relabelled ends
template <class V> void mapped(Ctx& X, const std::vector<Rec>& before, const std::vector<Rec>& after, const V& f, bool e0, bool e1) {
  X.check(before.size() == after.size(), "record-count");
  for (size_t k = 0; k < before.size(); ++k) {
    Rec w = before[k]; if (e0) w[0] = f[w[0]]; if (e1) w[1] = f[w[1]];
    X.check(after[k] == w, "relabelled-record", [&] { return "record " + str(k) + ": " + show(after[k]) + " expected " + show(w); });
  }
}
template <directedness D, class... A> void uni(Ctx& X, const G& g) {
  using EL = edge_list<D, A...>;
  const size_t n = g.n;
  EL el0(n); el_fill(el0, g); const auto r0 = recs(el0);
  std::string s = std::string(D == UND ? "undirected " : "directed ") + str(sizeof...(A)) + " ";
  auto each = [&]<int idx>(std::integral_constant<int, idx>) {
    for (int asc = 0; asc < 2; ++asc) {
      std::string dir = asc ? "ascending" : "descending", t = s + "idx=" + str(idx) + " " + dir + " ";
      const auto d0 = deg(r0, n, idx, D == UND);
      X.run(t + "perm_by_degree", [&] {
        auto p = perm_by_degree<idx>(el0, dir); X.check(is_perm(p, n), "not-a-permutation", [&] { return show(p); });
        std::vector<long> along; for (auto v : p) along.push_back(d0[v]); X.check(mono(along, asc), "degree-order", [&] { return show(p) + " degrees " + show(along); });
        X.check(recs(el0) == r0, "edge-list-changed");
        std::vector<int> dd(n); for (size_t i = 0; i < n; ++i) dd[i] = int((i * 5 + 2) % 7); auto q = perm_by_degree<idx>(el0, dd, dir); X.check(is_perm(q, n), "not-a-permutation"); along.clear(); for (auto v : q) along.push_back(dd[v]); X.check(mono(along, asc), "given-degree-order");
      });
      X.run(t + "relabel_by_degree<idx>", [&] {
        EL el(el0); auto f = relabel_by_degree<idx>(el, dir); X.check(is_perm(f, n), "not-a-permutation", [&] { return show(f); });
        mapped(X, r0, recs(el), f, true, true); X.check(el.num_vertices()[0] == n, "num-vertices");
        X.check(mono(deg(recs(el), n, idx, D == UND), asc), "new-labels-by-degree", [&] { return show(deg(recs(el), n, idx, D == UND)); });
      });
      if (idx == 0) X.run(t + "relabel_by_degree", [&] {
        EL el(el0); relabel_by_degree(el, dir);
        X.check(mono(deg(recs(el), n, 0, D == UND), asc), "new-labels-by-degree", [&] { return show(deg(recs(el), n, 0, D == UND)); });
        // a consistent bijection relates old and new ends
        std::map<long, long> f, b; auto r = recs(el); X.check(r.size() == r0.size(), "record-count");
        for (size_t k = 0; k < r.size(); ++k) for (int e = 0; e < 2; ++e) { auto [i, ok] = f.insert({r0[k][e], r[k][e]}); auto [j, ok2] = b.insert({r[k][e], r0[k][e]}); X.check(i->second == r[k][e] && j->second == r0[k][e] && r[k][e] < long(n), "not-a-bijection"); X.check(Rec(r[k].begin() + 2, r[k].end()) == Rec(r0[k].begin() + 2, r0[k].end()), "attributes"); }
        auto d = degrees<0>(el0); EL e2(el0); relabel_by_degree(e2, dir, d); X.check(mono(deg(recs(e2), n, 0, D == UND), asc), "new-labels-by-given-degree");
      });
    }
  };
  each(std::integral_constant<int, 0>{}); each(std::integral_constant<int, 1>{});
}
template <class... A> void perms(Ctx& X, const G& g) {
  using EL = edge_list<DIR, A...>; EL el0(g.n); el_fill(el0, g); const auto r0 = recs(el0);
  each_perm(g.n, [&](const std::vector<int>& p) {
    X.run("relabel by given permutation", [&] {
      EL el(el0); auto f = relabel(el, p); X.check(is_perm(f, g.n), "inverse-not-a-permutation"); for (int i = 0; i < g.n; ++i) X.check(int(f[p[i]]) == i, "inverse", [&] { return show(p) + " -> " + show(f); });
      mapped(X, r0, recs(el), f, true, true);
    });
  });
}
template <int idx, class... A> void bip(Ctx& X, const G& g, int n0, int n1) {
  using EL = bi_edge_list<DIR, A...>; EL el0(n0, n1); el_fill(el0, g); const auto r0 = recs(el0); const size_t n = idx ? n1 : n0;
  for (int asc = 0; asc < 2; ++asc) {
    std::string dir = asc ? "ascending" : "descending";
    X.run("bipartite idx=" + str(idx) + " " + dir, [&] {
      EL el(el0); auto p = perm_by_degree<idx>(el, dir); X.check(is_perm(p, n), "not-a-permutation", [&] { return show(p); });
      auto d0 = deg(r0, n, idx, false); std::vector<long> along; for (auto v : p) along.push_back(d0[v]); X.check(mono(along, asc), "degree-order");
      auto f = relabel<idx>(el, p); for (size_t i = 0; i < n; ++i) X.check(size_t(f[p[i]]) == i, "inverse"); mapped(X, r0, recs(el), f, idx == 0, idx == 1);
      X.check(el.num_vertices()[0] == size_t(n0) && el.num_vertices()[1] == size_t(n1), "num-vertices");
      X.check(mono(deg(recs(el), n, idx, false), asc), "new-labels-by-degree");
    });
  }
}
void mc_main(Ctx& X) {
  auto go = [&](const G& g, std::vector<int> pols) { X.state([&] { return g.desc(); }, [&] { for (int p : pols) { rt::policy = p; uni<DIR>(X, g); uni<UND, int>(X, g); if (p == pols[0]) { uni<DIR, double, unsigned short>(X, g); uni<UND>(X, g); } } if (g.n <= 4) { perms<int>(X, g); } }); };
  X.section("edge sequences over 3 vertices");
  for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g) { go(g, {0, 3}); G h = g; h.n = 4; go(h, {2}); });
  X.section("digraphs on 4 vertices");
  each_digraph(4, false, [&](const G& g) { if (X.thorough || g.e.size() <= 6) go(g, {1}); });
  X.section("bipartite edge sequences");
  for (int k = 0; k <= 3; ++k) { each_edge_seq(2, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { bip<0, int>(X, g, 2, 3); bip<1, int>(X, g, 2, 3); bip<0>(X, g, 4, 3); bip<1>(X, g, 4, 3); }); }); }
  X.section("size sweep");
  for (int n : sweep_sizes(true)) for (auto& f : families(n)) {
    if (!X.thorough && f.e.size() > 1200) continue;
    go(f, {0, 3});
    if (n <= 64 || X.thorough) { int a = n, b = n / 2 + 1; G g; g.tag = "bip"; g.n = n; for (int i = 0; i < 3 * n; ++i) g.e.push_back({(i * i) % a, (i * 5 + i / 7) % b}); X.state([&] { return f.tag + g.desc(); }, [&] { for (int p : {1, 2}) { rt::policy = p; bip<0, int>(X, g, a, b); bip<1>(X, g, a, b); } }); }
  }
  X.section("large sizes");
  for (auto& f : huge(true, {1025, 4097, 66000})) go(f, {2});
}
