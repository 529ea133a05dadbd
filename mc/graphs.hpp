// Enumerators of small graphs / edge sequences, and parametrised families for size sweeps.
#pragma once
#include "core.hpp"
#include <array>
#include <set>

namespace mc {
using E2 = std::array<int, 2>;
struct G {
  int n = 0; std::vector<E2> e; std::vector<int> w; std::string tag;
  std::string desc() const {
    std::ostringstream o;
    if (!tag.empty()) o << tag << " ";
    o << "n=" << n << " m=" << e.size();
    if (e.size() <= 60) {
      o << " E=";
      for (size_t i = 0; i < e.size(); ++i) { o << "(" << e[i][0] << "," << e[i][1]; if (i < w.size()) o << ";" << w[i]; o << ")"; }
    }
    return o.str();
  }
};

// every simple digraph on n vertices (each ordered pair present or absent)
template <class F> void each_digraph(int n, bool loops, F&& f) {
  std::vector<E2> p;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (loops || i != j) p.push_back({i, j});
  for (uint64_t m = 0; m < (1ull << p.size()); ++m) {
    G g; g.n = n;
    for (size_t k = 0; k < p.size(); ++k) if (m >> k & 1) g.e.push_back(p[k]);
    f(g);
  }
}
// every simple undirected graph on n vertices, one record per edge (lo,hi)
template <class F> void each_ugraph(int n, F&& f, bool loops = false) {
  std::vector<E2> p;
  for (int i = 0; i < n; ++i) for (int j = loops ? i : i + 1; j < n; ++j) p.push_back({i, j});
  for (uint64_t m = 0; m < (1ull << p.size()); ++m) {
    G g; g.n = n;
    for (size_t k = 0; k < p.size(); ++k) if (m >> k & 1) g.e.push_back(p[k]);
    f(g);
  }
}
// every sequence of length exactly k over [0,a)
template <class F> void each_seq(int a, int k, F&& f) {
  std::vector<int> s(k, 0);
  if (a <= 0 && k > 0) return;
  for (;;) {
    f(s);
    int i = k - 1;
    while (i >= 0 && ++s[i] == a) { s[i] = 0; --i; }
    if (i < 0) return;
  }
}
// every sequence of k edges (duplicates, both orders, self loops) over vertices [0,n0)x[0,n1)
template <class F> void each_edge_seq(int n0, int n1, int k, F&& f) {
  each_seq(n0 * n1, k, [&](const std::vector<int>& s) {
    G g; g.n = std::max(n0, n1);
    for (int x : s) g.e.push_back({x / n1, x % n1});
    f(g);
  });
}
template <class F> void each_perm(int n, F&& f) {
  std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
  do f(p); while (std::next_permutation(p.begin(), p.end()));
}

// ---- families (undirected: one record per edge)
inline G g_path(int n) { G g; g.n = n; g.tag = "path"; for (int i = 0; i + 1 < n; ++i) g.e.push_back({i, i + 1}); return g; }
inline G g_rpath(int n) { G g; g.n = n; g.tag = "revpath"; for (int i = n - 1; i > 0; --i) g.e.push_back({i, i - 1}); return g; }
inline G g_cycle(int n) { G g = g_path(n); g.tag = "cycle"; if (n > 2) g.e.push_back({n - 1, 0}); return g; }
inline G g_star(int n, int c = 0) { G g; g.n = n; g.tag = "star"; for (int i = 0; i < n; ++i) if (i != c) g.e.push_back({c, i}); return g; }
inline G g_clique(int n) { G g; g.n = n; g.tag = "clique"; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) g.e.push_back({i, j}); return g; }
inline G g_bip(int a, int b) { G g; g.n = a + b; g.tag = "bip"; for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) g.e.push_back({i, a + j}); return g; }
inline G g_grid(int a, int b) {
  G g; g.n = a * b; g.tag = "grid";
  for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) { if (j + 1 < b) g.e.push_back({i * b + j, i * b + j + 1}); if (i + 1 < a) g.e.push_back({i * b + j, i * b + j + b}); }
  return g;
}
inline G g_tree(int n) { G g; g.n = n; g.tag = "bintree"; for (int i = 1; i < n; ++i) g.e.push_back({(i - 1) / 2, i}); return g; }
inline G g_matching(int n) { G g; g.n = n; g.tag = "matching"; for (int i = 0; i + 1 < n; i += 2) g.e.push_back({i, i + 1}); return g; }
inline G g_two(int n) { G g; g.n = n; g.tag = "two-paths"; int h = n / 2; for (int i = 0; i + 1 < h; ++i) g.e.push_back({i, i + 1}); for (int i = h; i + 1 < n; ++i) g.e.push_back({i, i + 1}); return g; }
// circulant with fixed strides: deterministic "irregular" bigger graph
inline G g_circ(int n, std::vector<int> strides) {
  G g; g.n = n; g.tag = "circ"; std::set<std::pair<int, int>> s;
  for (int i = 0; i < n; ++i) for (int d : strides) { int j = (i * (1 + (d & 1)) + d) % n; if (i == j) continue; int a = std::min(i, j), b = std::max(i, j); if (s.insert({a, b}).second) g.e.push_back({a, b}); }
  return g;
}
inline G g_wheel(int n) { G g = g_cycle(n - 1); g.tag = "wheel"; g.n = n; for (int i = 0; i < n - 1; ++i) g.e.push_back({n - 1, i}); return g; }
inline G g_lollipop(int n) { G g; g.n = n; g.tag = "lollipop"; int h = std::min(n / 2, 12); for (int i = 0; i < h; ++i) for (int j = i + 1; j < h; ++j) g.e.push_back({i, j}); for (int i = std::max(h, 1); i < n; ++i) g.e.push_back({i - 1, i}); return g; }

// a star whose last leaf starts a path; a path with a leaf at every vertex
inline G g_broom(int n) { G g; g.n = n; g.tag = "broom"; int h = (2 * n + 2) / 3; for (int i = 1; i <= h && i < n; ++i) g.e.push_back({0, i}); for (int i = h; i + 1 < n; ++i) g.e.push_back({i, i + 1}); return g; }
inline G g_caterpillar(int n) { G g; g.n = n; g.tag = "caterpillar"; int h = n / 2; for (int i = 0; i + 1 < h; ++i) g.e.push_back({i, i + 1}); for (int i = h; i < n; ++i) g.e.push_back({i, (i - h) % std::max(h, 1)}); return g; }

inline std::vector<G> families(int n) {
  std::vector<G> v;
  v.push_back(g_path(n)); v.push_back(g_rpath(n)); v.push_back(g_cycle(n)); v.push_back(g_star(n, 0)); v.push_back(g_star(n, n - 1)); v.push_back(g_tree(n));
  v.push_back(g_matching(n)); v.push_back(g_two(n)); v.push_back(g_lollipop(n)); v.push_back(g_broom(n)); if (n >= 4) v.push_back(g_caterpillar(n)); if (n >= 4) v.push_back(g_wheel(n));
  v.push_back(g_circ(n, {1, 7, 13})); v.push_back(g_circ(n, {2, 3, 5, 11, 17})); v.push_back(g_bip(n / 2, n - n / 2)); v.push_back(g_clique(std::min(n, 48)));
  if (n >= 6) v.push_back(g_grid(2, n / 2));
  if (n >= 9) { int r = 3; while ((r + 1) * (r + 1) <= n) ++r; v.push_back(g_grid(r, r)); }
  return v;
}
// beyond the limits of 8, 12 and 16-bit counters, of the default grain sizes and of the 2^15-bit steps
inline std::vector<G> huge(bool deep, std::vector<int> sizes = {1025, 2049, 4097, 33000, 66000}) {
  std::vector<G> v;
  for (int n : sizes) {
    v.push_back(g_star(n, 0)); v.push_back(g_star(n, n - 1)); v.push_back(g_star(n, n / 3)); v.push_back(g_tree(n)); v.push_back(g_broom(std::min(n, deep ? n : 3000))); v.push_back(g_circ(n, {1, 7}));
    v.push_back(g_bip(2, n - 2)); v.push_back(g_matching(n)); if (deep || n < 3000) { v.push_back(g_path(n)); v.push_back(g_rpath(n)); v.push_back(g_two(n)); }
    for (int k = 1; k < 3; ++k) { G g = g_tree(n); g.tag = "tree-shuffled" + std::to_string(k); for (auto& e : g.e) for (auto& x : e) x = int((long(x) * 7919 + 13 * k) % n); if (n % 7919) v.push_back(g); }
  }
  return v;
}
// word and small-vector boundaries
inline std::vector<int> sweep_sizes(bool thorough) {
  std::vector<int> v{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100};
  for (int x : {127, 128, 129, 200}) v.push_back(x);
  if (thorough) for (int x : {10, 11, 12, 13, 14, 24, 40, 48, 95, 96, 97, 191, 192, 193, 255, 256, 257, 320, 511, 512, 513, 600, 1025}) v.push_back(x);
  return v;
}
// sources worth trying on a bigger graph
inline std::vector<int> some_sources(int n) { std::set<int> s{0, 1, n / 2, n - 1}; std::vector<int> v; for (int x : s) if (x >= 0 && x < n) v.push_back(x); return v; }

// both directions of each record (self loops once)
inline std::vector<E2> sym(const G& g) { std::vector<E2> r; for (auto& x : g.e) { r.push_back(x); if (x[0] != x[1]) r.push_back({x[1], x[0]}); } return r; }
inline std::vector<std::vector<int>> adj(const G& g, bool undirected) {
  std::vector<std::vector<int>> a(g.n);
  for (auto& x : g.e) { a[x[0]].push_back(x[1]); if (undirected) a[x[1]].push_back(x[0]); }
  return a;
}
}    // namespace mc
