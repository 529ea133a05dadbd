// In-place reorganisation of a compressed graph keeps the graph (up to the announced bijection / filter).
#include "common.hpp"
using namespace mc;
template <class A> Rows rows(A& a) { Rows r; for (size_t i = 0; i < size_t(a.size()); ++i) r.push_back(read_row(a[i])); return r; }
static bool asc0(const Row& r) { for (size_t i = 1; i < r.size(); ++i) if (r[i - 1][0] > r[i][0]) return false; return true; }
static Rows srt(Rows r) { for (auto& x : r) std::sort(x.begin(), x.end()); return r; }
template <class V> bool is_perm(const V& p, size_t n) { std::vector<char> s(n, 0); if (p.size() != n) return false; for (auto x : p) { if (size_t(x) >= n || s[x]) return false; s[x] = 1; } return true; }
template <class A> void sane(Ctx& X, A& a, size_t n, size_t m) { X.check(a.size() == n && size_t(a.end() - a.begin()) == n && size_t(a.num_edges()) == m, "shape", [&] { return str(a.size()) + " rows " + str(a.num_edges()) + " entries"; }); }

template <class ADJ, class EL> void one(Ctx& X, EL& el, const std::string& s, bool extra_perms) {
  ADJ a0(el); const Rows r0 = rows(a0); const size_t n = r0.size(); size_t m = 0; for (auto& r : r0) m += r.size();
  auto sr = [](const Rows& r) { return showrows(r); };
  X.run(s + "sort_to_be_indexed", [&] { ADJ a(a0); a.sort_to_be_indexed(); Rows r = rows(a); sane(X, a, n, m); for (auto& x : r) X.check(asc0(x), "not-sorted", [&] { return sr(r); }); X.check(srt(r) == srt(r0), "rows-changed", [&] { return sr(r) + " expected " + sr(r0); }); ADJ b(a0); b.sort_to_be_indexed(std::execution::seq); X.check(srt(rows(b)) == srt(r0), "rows-changed"); });
  auto relabel = [&](const std::vector<typename ADJ::index_t>& p, const char* nm) {
    X.run(s + nm, [&] { ADJ a(a0); a.relabel_to_be_indexed(p); Rows r = rows(a), w = r0; sane(X, a, n, m); for (auto& x : w) for (auto& t : x) t[0] = p[t[0]]; for (auto& x : r) X.check(asc0(x), "not-sorted"); X.check(srt(r) == srt(w), "relabelled", [&] { return "perm " + show(p) + " gives " + sr(r) + " expected " + sr(w); }); });
  };
  size_t width = n; for (auto& r : r0) for (auto& t : r) width = std::max<size_t>(width, t[0] + 1);
  std::vector<typename ADJ::index_t> p(width);
  if (extra_perms && width <= 4) each_perm(int(width), [&](const std::vector<int>& q) { std::copy(q.begin(), q.end(), p.begin()); relabel(p, "relabel_to_be_indexed"); });
  else { for (size_t i = 0; i < width; ++i) p[i] = width - 1 - i; relabel(p, "relabel_to_be_indexed"); for (size_t i = 0; i < width; ++i) p[i] = (i + 1) % width; relabel(p, "relabel_to_be_indexed"); }
  for (int asc = 0; asc < 2; ++asc) {
    std::string dir = asc ? "ascending" : "descending";
    auto permuted = [&](ADJ& a, const auto& f, const Rows& before) {
      Rows r = rows(a); sane(X, a, n, m); X.check(is_perm(f, n), "not-a-permutation", [&] { return show(f); });
      for (size_t v = 0; v < n; ++v) X.check(sorted(r[f[v]]) == sorted(before[v]), "row-moved", [&] { return "vertex " + str(v) + " -> " + str(f[v]) + ": " + sr(r) + " from " + sr(before); });
      for (size_t i = 1; i < n; ++i) X.check(asc ? r[i - 1].size() <= r[i].size() : r[i - 1].size() >= r[i].size(), "degree-order", [&] { return sr(r); });
    };
    X.run(s + "permute_by_degree " + dir, [&] { ADJ a(a0); auto f = a.permute_by_degree(dir); permuted(a, f, r0); });
    if (width == n) X.run(s + "sort_by_degree " + dir, [&] {
      ADJ a(a0); a.sort_by_degree(dir); Rows r = rows(a); sane(X, a, n, m);
      for (size_t i = 1; i < n; ++i) X.check(asc ? r[i - 1].size() <= r[i].size() : r[i - 1].size() >= r[i].size(), "degree-order", [&] { return sr(r); });
      for (auto& x : r) X.check(asc0(x), "not-sorted", [&] { return sr(r); });
      // isomorphic under the bijection the permutation step announces
      ADJ b(a0); auto f = b.permute_by_degree(dir); X.check(is_perm(f, n), "not-a-permutation"); Rows w(n); for (size_t v = 0; v < n; ++v) for (auto t : r0[v]) { t[0] = f[t[0]]; w[f[v]].push_back(t); }
      X.check(srt(r) == srt(w), "isomorphic", [&] { return sr(r) + " expected " + sr(srt(w)) + " under " + show(f); });
    });
  }
  X.run(s + "triangularize predecessor", [&] { ADJ a(a0); a.template triangularize<succession::predecessor>(); Rows w = r0; for (size_t i = 0; i < n; ++i) std::erase_if(w[i], [&](auto& t) { return t[0] >= long(i); }); size_t k = 0; for (auto& x : w) k += x.size(); sane(X, a, n, k); X.check(rows(a) == w, "predecessors", [&] { return sr(rows(a)) + " expected " + sr(w); }); });
  X.run(s + "triangularize successor", [&] { ADJ a(a0); a.template triangularize<succession::successor>(); Rows w = r0; for (size_t i = 0; i < n; ++i) std::erase_if(w[i], [&](auto& t) { return t[0] <= long(i); }); size_t k = 0; for (auto& x : w) k += x.size(); sane(X, a, n, k); X.check(rows(a) == w, "successors", [&] { return sr(rows(a)) + " expected " + sr(w); }); });
}
void mc_main(Ctx& X) {
  auto go = [&](const G& g, std::vector<int> pols) {
    X.state([&] { return g.desc(); }, [&] {
      for (int p : pols) {
        rt::policy = p;
#if PART == 0
        { edge_list<DIR> el(g.n); el_fill(el, g); one<adjacency<0>>(X, el, "directed ", p == pols[0]); one<adjacency<1>>(X, el, "transposed ", false); }
        { edge_list<UND, int> el(g.n); el_fill(el, g); one<adjacency<0, int>>(X, el, "undirected,int ", p == pols[0]); }
#elif PART == 2
        if (g.n < 250) { index_edge_list<uint8_t, unipartite_graph_base, DIR> el(g.n); el_fill(el, g); one<index_adjacency<0, uint32_t, uint8_t>>(X, el, "8/32 ", false); }
        if (g.n < 65000) { index_edge_list<uint16_t, unipartite_graph_base, UND, int> el(g.n); el_fill(el, g); one<index_adjacency<1, uint32_t, uint16_t, int>>(X, el, "16/32 ", false); }
        { index_edge_list<uint32_t, unipartite_graph_base, DIR, int> el(g.n); el_fill(el, g); one<index_adjacency<0, uint64_t, uint32_t, int>>(X, el, "32/64 ", false); }
        { index_edge_list<uint64_t, unipartite_graph_base, DIR> el(g.n); el_fill(el, g); one<index_adjacency<1, uint32_t, uint64_t>>(X, el, "64/32 ", false); }
#else
        { edge_list<DIR, double, unsigned short> el(g.n); el_fill(el, g); one<adjacency<0, double, unsigned short>>(X, el, "directed,double,short ", false); }
        { bi_edge_list<DIR, int> el(g.n, g.n); el_fill(el, g); one<biadjacency<0, int>>(X, el, "bipartite 0 ", p == pols[0]); one<biadjacency<1, int>>(X, el, "bipartite 1 ", false); }
#endif
      }
    });
  };
  X.section("edge sequences over 3 vertices");
  for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g) { go(g, {0, 3}); });
  X.section("digraphs on 4 vertices");
  each_digraph(4, false, [&](const G& g) { if (X.thorough || g.e.size() <= 6) go(g, {2}); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) {
    if (!X.thorough && f.e.size() > 1200) continue;
    go(f, {0, 3});
    G s = f; for (size_t i = 0; i < s.e.size(); ++i) { std::swap(s.e[i], s.e[(i * 7 + 3) % s.e.size()]); if (i & 1) std::swap(s.e[i][0], s.e[i][1]); } s.tag += "-mixed"; go(s, {1});
  }
  X.section("large sizes");
  for (auto& f : huge(true, {1025, 4097})) go(f, {2});
  for (auto& f : huge(true, {66000})) if (f.e.size() < 64000 || PART == 0) go(f, {1});
}
