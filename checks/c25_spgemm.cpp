// PART 0: sparse matrix products.  PART 1: Jaccard coefficients.
#include "common.hpp"
#include <nwgraph/algorithms/spMatspMat.hpp>
#include <nwgraph/algorithms/jaccard.hpp>
#include <nwgraph/vovos.hpp>
#include <nwgraph/volos.hpp>
using namespace mc;
#if PART == 0
using R3 = std::tuple<long, long, double>;
struct M { int r, c; std::vector<R3> e; };    // entries in row-major order
static std::string dm(const M& m) { std::string s = str(m.r) + "x" + str(m.c) + "["; for (auto& [i, j, v] : m.e) s += "(" + str(i) + "," + str(j) + "," + str(v) + ")"; return s + "]"; }
static std::string dr(const std::vector<R3>& e) { std::string s; for (auto& [i, j, v] : e) s += "(" + str(i) + "," + str(j) + "," + str(v) + ")"; return s; }
struct mn { double operator()(double a, double b) const { return std::min(a, b); } };
struct pl { double operator()(double a, double b) const { return a + b; } };
struct fst { double operator()(double a, double) const { return a; } };
template <class Map, class Red> std::vector<R3> prod(const M& A, const M& B) {    // dense reference: structural nonzeros, products reduced in order of the inner index
  std::map<std::pair<long, long>, double> o; for (auto& [i, k, a] : A.e) for (auto& [k2, j, b] : B.e) if (k == k2) { double t = Map()(a, b); auto [it, fresh] = o.insert({{i, j}, t}); if (!fresh) it->second = Red()(it->second, t); }
  std::vector<R3> r; for (auto& [p, v] : o) r.push_back({p.first, p.second, v}); return r;
}
static M tr(const M& m) { M t{m.c, m.r, {}}; for (auto& [i, j, v] : m.e) t.e.push_back({j, i, v}); std::sort(t.e.begin(), t.e.end()); return t; }
template <class T> auto lists(const M& m) { std::vector<std::vector<std::tuple<size_t, T>>> v(m.r); for (auto& [i, j, x] : m.e) v[i].push_back({size_t(j), T(x)}); return v; }
template <class T> auto csr(const M& m) { edge_list<DIR, T> el(m.r); el.open_for_push_back(); for (auto& [i, j, x] : m.e) el.push_back(i, j, T(x)); el.close_for_push_back(); return adjacency<0, T>(el, true); }
template <class T> auto vv(const M& m) { edge_list<DIR, T> el(std::max(m.r, m.c)); el.open_for_push_back(); for (auto& [i, j, x] : m.e) el.push_back(i, j, T(x)); el.close_for_push_back(); return vov<0, T>(el); }
template <class EL> std::vector<R3> recs(EL& el) { std::vector<R3> r; for (auto&& [u, v, x] : el) r.push_back({long(u), long(v), double(x)}); return r; }
static void go(Ctx& X, const M& A, const M& B, bool all) {
  M Bt = tr(B); auto ck = [&](auto&& el, const std::vector<R3>& w, const char* how) { auto g = recs(el); X.check(g == w, "product", [&] { return std::string(how) + ": " + dr(g) + " expected " + dr(w); }); };
  auto la = lists<double>(A), lb = lists<double>(B), lt = lists<double>(Bt);
  auto pt = prod<std::multiplies<double>, std::plus<double>>(A, B); X.outcome(hmix(pt.size(), hash_all(dr(pt))));
  X.run("spMatspMat", [&] { auto a0 = la, b0 = lb; ck(spMatspMat<double>(la, lb), pt, "lists"); X.check(la == a0 && lb == b0, "operands changed"); });
  X.run("spMatspMatT", [&] { ck(spMatspMatT<double>(la, lt), pt, "lists"); });
  if (!all) return;
  X.run("semirings", [&] {
    auto mp = prod<pl, mn>(A, B), tm = prod<std::multiplies<double>, std::multiplies<double>>(A, B), ff = prod<fst, mn>(A, B);
    ck(spMatspMat<double, decltype(la), decltype(lb), pl, mn>(la, lb), mp, "min-plus"); ck(spMatspMat<double, decltype(la), decltype(lb), std::multiplies<double>, std::multiplies<double>>(la, lb), tm, "times-times"); ck(spMatspMat<double, decltype(la), decltype(lb), fst, mn>(la, lb), ff, "min-first");
    ck(spMatspMatT<double, decltype(la), decltype(lt), pl, mn>(la, lt), mp, "min-plus T"); ck(spMatspMatT<double, decltype(la), decltype(lt), std::multiplies<double>, std::multiplies<double>>(la, lt), tm, "times-times T"); ck(spMatspMatT<double, decltype(la), decltype(lt), fst, mn>(la, lt), ff, "min-first T");
  });
  X.run("containers", [&] {
    M B2 = B, A2 = A; auto ca = csr<double>(A), cb = csr<double>(B), ct = csr<double>(Bt); 
    ck(spMatspMat<double>(ca, cb), pt, "csr"); ck(spMatspMatT<double>(ca, ct), pt, "csr T"); ck(spMatspMat<double>(la, cb), pt, "lists x csr"); ck(spMatspMatT<double>(ca, lt), pt, "csr x lists T");
    auto ia = csr<int>(A), ib = csr<int>(B), it = csr<int>(Bt); ck(spMatspMat<int>(ia, ib), pt, "int csr"); ck(spMatspMatT<int>(ia, it), pt, "int csr T"); ck(spMatspMat<double>(ia, ib), pt, "int csr, double product");
    auto va = vv<double>(A), vb = vv<double>(B); ck(spMatspMat<double>(va, vb), pt, "vov");
  });
}
// every r x c matrix over the given values (0 = absent, Z = stored zero)
template <class F> void each_m(int r, int c, const std::vector<double>& vals, F&& f) { each_seq(int(vals.size()) + 1, r * c, [&](const std::vector<int>& s) { M m{r, c, {}}; for (int k = 0; k < r * c; ++k) if (s[k]) m.e.push_back({k / c, k % c, vals[s[k] - 1]}); f(m); }); }
void mc_main(Ctx& X) {
  auto pair = [&](const M& a, const M& b, bool all) { X.state([&] { return dm(a) + " * " + dm(b); }, [&] { go(X, a, b, all); }); };
  X.section("2x2 matrices with entries absent, 1, -2, stored 0");
  each_m(2, 2, {1, -2, 0}, [&](const M& a) { each_m(2, 2, {1, -2, 0}, [&](const M& b) { pair(a, b, true); }); });
  X.section("rectangular patterns");
  auto pat = [](M m, int s) { for (size_t k = 0; k < m.e.size(); ++k) std::get<2>(m.e[k]) = int((k + s) % 5) - 2 + (int((k + s) % 5) >= 2); return m; };
  for (auto [r, k, c] : {std::array{1, 3, 2}, std::array{2, 3, 1}, std::array{3, 2, 3}, std::array{2, 3, 2}, std::array{3, 1, 3}, std::array{2, 4, 1}, std::array{1, 4, 2}}) each_m(r, k, {1}, [&, k = k, c = c](const M& a) { each_m(k, c, {1}, [&](const M& b) { pair(pat(a, 1), pat(b, 3), true); }); });
  X.section("3x3 patterns");
  each_m(3, 3, {1}, [&](const M& a) { each_m(3, 3, {1}, [&](const M& b) { if (!X.thorough && (a.e.size() + b.e.size()) % 2) return; pair(pat(a, 1), pat(b, 3), X.thorough && a.e.size() < 5); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) { if (n > 300) continue; for (auto& f : families(n)) { if (f.e.size() > 1500) continue; std::set<E2> s(f.e.begin(), f.e.end()); M a{f.n, f.n, {}}, b{f.n, f.n, {}}; int k = 0; for (auto& e : s) { a.e.push_back({e[0], e[1], double(k % 7 + 1)}); b.e.push_back({e[0], e[1], double(3 - k % 5)}); ++k; } if (a.e.size() > 400) continue; X.state([&] { return f.desc() + " squared"; }, [&] { go(X, a, b, true); go(X, a, tr(a), n < 20); }); } }
  X.section("every pair of sorted index lists");
  for (int n = 0; n <= 6; ++n) for (unsigned x = 0; x < (1u << n); ++x) for (unsigned y = 0; y < (1u << n); ++y) X.state([&] { return str(x) + " & " + str(y); }, [&] { X.run("set_ewise_intersection", [&] {
    std::vector<std::pair<int, int>> a, b, got, want; for (int i = 0; i < n; ++i) { if (x >> i & 1) a.push_back({i, 10 + i}); if (y >> i & 1) b.push_back({i, 20 + i}); if (x & y & (1u << i)) want.push_back({10 + i, 20 + i}); }
    set_ewise_intersection(a.begin(), a.end(), b.begin(), b.end(), got, [](auto& p, auto& q) { return p.first < q.first; }, [](auto& p, auto& q) { return std::pair{p.second, q.second}; }); X.check(got == want, "elements"); }); });
}
#else
template <class Ad> void jac(Ctx& X, const G& g, Ad& A, const char* t) {
  X.run(std::string("jaccard ") + t, [&] {
    std::vector<std::set<int>> nb(g.n); for (auto& e : g.e) { nb[e[0]].insert(e[1]); nb[e[1]].insert(e[0]); }
    for (auto&& row : A) for (auto&& e : row) std::get<1>(e) = -3;
    size_t c = jaccard_similarity(A, [](auto& e) -> auto& { return std::get<1>(e); }); X.check(c == g.e.size(), "count", [&] { return str(c); });
    long u = 0; for (auto&& row : A) { size_t k = 0; auto it = nb[u].begin(); for (auto&& e : row) { int v = int(std::get<0>(e)); X.check(k < nb[u].size() && *it == v, "row changed"); ++it; ++k; std::vector<int> is; std::set_intersection(nb[u].begin(), nb[u].end(), nb[v].begin(), nb[v].end(), std::back_inserter(is)); double want = u < v ? double(is.size()) / double(nb[u].size() + nb[v].size() - is.size()) : -3; X.check(double(std::get<1>(e)) == double(std::decay_t<decltype(std::get<1>(e))>(want)), "coefficient", [&] { return str(u) + "-" + str(v) + ": " + str(double(std::get<1>(e))) + " expected " + str(want); }); X.outcome(uint64_t(want * 1e6 + 1e7)); } X.check(k == nb[u].size(), "row length"); ++u; }
  });
}
static void go(Ctx& X, const G& g) {
  edge_list<UND, double> el(g.n); el_fill(el, g); adjacency<0, double> A(el, true); jac(X, g, A, "csr");
  edge_list<UND, float> fl(g.n); el_fill(fl, g); adjacency<1, float> F(fl, true); jac(X, g, F, "float csr");
  G s = g; s.e = sym(g); std::sort(s.e.begin(), s.e.end()); edge_list<DIR, double> sl(g.n); el_fill(sl, s); adjacency<0, double> V(sl, true); jac(X, g, V, "csr of a symmetric list"); index_adjacency<0, uint64_t, uint64_t, double> W(g.n); W.open_for_push_back(); for (auto& e : s.e) W.push_back(e[0], e[1], 0.0); W.close_for_push_back(); if (size_t(num_vertices(W)) == size_t(g.n)) jac(X, g, W, "64-bit csr");
}
void mc_main(Ctx& X) {
  X.section("undirected graphs");
  for (int n = 1; n <= 6; ++n) each_ugraph(n, [&](const G& g) { if (n == 6 && !X.thorough && g.e.size() > 8) return; X.state([&] { return g.desc(); }, [&] { go(X, g); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto f : families(n)) { std::set<E2> s; for (auto e : f.e) { if (e[0] == e[1]) continue; if (e[0] > e[1]) std::swap(e[0], e[1]); s.insert(e); } f.e.assign(s.begin(), s.end()); if (f.e.size() > 3000) continue; X.state([&] { return f.desc(); }, [&] { go(X, f); }); }
}
#endif
