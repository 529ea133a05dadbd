// PageRank: every implementation converges to the PageRank vector of the graph, in every leaf order.
#include "common.hpp"
#include <nwgraph/algorithms/page_rank.hpp>
#include <nwgraph/experimental/algorithms/page_rank.hpp>
#include <nwgraph/vovos.hpp>
using namespace mc;
using V = std::vector<long double>;
// pr = (1-d)/N + d * sum over in-neighbours pr/outdegree, dangling mass is dropped
static V step(const G& g, const std::vector<int>& od, const V& x, long double d) { V y(g.n, (1 - d) / g.n); for (auto& e : g.e) y[e[1]] += d * x[e[0]] / od[e[0]]; return y; }
static V fix(const G& g, const std::vector<int>& od, long double d) { V x(g.n, 1.0L / g.n); for (int k = 0; k < 3000; ++k) { V y = step(g, od, x, d); long double e = 0; for (int i = 0; i < g.n; ++i) e += fabsl(y[i] - x[i]); x = y; if (e < 1e-19L) break; } return x; }
template <class R> void go(Ctx& X, const G& g, const std::vector<int>& pols, const std::vector<double>& ds, bool threads, bool more) {
  std::vector<int> od(g.n); for (auto& e : g.e) ++od[e[0]];
  edge_list<DIR> el(g.n); el_fill(el, g); adjacency<1> A(el); vov<1> VV(el); std::vector<default_vertex_id_type> deg(od.begin(), od.end());
  const bool dbl = sizeof(R) == 8; R tight = dbl ? R(1e-13) : R(1e-6f); std::string T = dbl ? "" : "float ";
  for (double d : ds) {
    V f = fix(g, od, R(d)); R loose = R(1e-2);
    for (int p : pols) {
      rt::policy = p;
      auto ck = [&](const std::vector<R>& r, const char* how, long double tol, long double scale = 1) { long double err = 0; for (int i = 0; i < g.n; ++i) err += fabsl(r[i] / scale - f[i]); X.check(r.size() == size_t(g.n) && err <= tol, "scores", [&] { std::string s, w; for (auto x : r) s += str(x) + " "; for (auto x : f) w += str(double(x)) + " "; return std::string(how) + " damping " + str(d) + " policy " + str(p) + ": " + s + "expected " + w + "off by " + str(double(err)); }); };
      long double tol = dbl ? 1e-11L : 2e-5L * (g.n + 1), ltol = R(1e-2) * d / (1 - d) + tol;    // |x - fix| <= d/(1-d) |last change|
      auto F = [&](const char* nm, auto&& f1, long double scale = 1) { X.run(T + nm, [&] { std::vector<R> r(g.n, R(7)); f1(r, tight, size_t(400)); ck(r, nm, tol, scale); }); };
      auto L = [&](const char* nm, auto&& f1) { X.run(T + nm + " coarse threshold", [&] { std::vector<R> r(g.n, R(7)); f1(r, loose, size_t(400)); ck(r, nm, ltol); }); };
      auto J = [&](const char* nm, auto&& f1) { X.run(T + nm + " bounded iterations", [&] { for (int k = 0; k <= 3; ++k) { std::vector<R> r(g.n, R(7)); f1(r, R(-1), size_t(k)); V x(g.n, 1.0L / g.n); for (int i = 0; i < k; ++i) x = step(g, od, x, R(d)); long double err = 0; for (int i = 0; i < g.n; ++i) err += fabsl(r[i] - x[i]); X.check(err <= tol, "iterate", [&] { return str(k) + " iterations: off by " + str(double(err)); }); } }); };
      // in-place iterations have no fixed iterate, but no more rounds than asked for and finite scores
      auto B = [&](const char* nm, auto&& f1) { X.run(T + nm + " iteration limit", [&] { for (int k = 0; k <= 3; ++k) { std::vector<R> r(g.n, R(7)); f1(r, R(-1), size_t(k)); for (auto x : r) X.check(std::isfinite(double(x)) && x >= 0, "finite", [&] { return str(k) + " rounds: " + str(double(x)); }); if (k == 0) for (auto x : r) X.check(std::abs(x - r[0]) < 1e-6, "initial score"); } }); };
      auto main_ = [&](auto& r, R t, size_t m) { page_rank(A, deg, r, R(d), t, m, 1); };
      F("page_rank", main_); L("page_rank", main_);
      if (more) { X.run(T + "page_rank without iterations", [&] { std::vector<R> r(g.n, R(7)); main_(r, tight, 0); for (auto x : r) X.check(std::abs(x - R(1.0 / g.n)) < 1e-6, "initial score"); }); F("page_rank vov", [&](auto& r, R t, size_t m) { page_rank(VV, deg, r, R(d), t, m, 1); }); }
      auto v1 = [&](auto& r, R t, size_t m) { page_rank_v1(A, deg, r, R(d), t, m); };
      auto vc = [&](auto& r, R t, size_t m) { page_rank_vc(A, r, R(d), t, m); };
      auto v2 = [&](auto& r, R t, size_t m) { page_rank_v2(A, deg, r, R(d), t, m); };
      auto v4 = [&](auto& r, R t, size_t m) { page_rank_v4(A, deg, r, R(d), t, m, threads ? 3 : 1); };
      auto v6 = [&](auto& r, R t, size_t m) { page_rank_v6(A, deg, r, R(d), t, m, 1); };
      auto v7 = [&](auto& r, R t, size_t m) { page_rank_v7(A, deg, r, R(d), t, m, 1); };
      auto v8 = [&](auto& r, R t, size_t m) { page_rank_v8(A, deg, r, R(d), t, m, 1); };
      auto v9 = [&](auto& r, R t, size_t m) { page_rank_v9(A, deg, r, R(d), t, m, 1); };
      auto v10 = [&](auto& r, R t, size_t m) { page_rank_v10(A, deg, r, R(d), t, m, 1); };
      auto v12 = [&](auto& r, R t, size_t m) { page_rank_v12(A, deg, r, R(d), t, m, 1); };
      auto v13 = [&](auto& r, R t, size_t m) { page_rank_v13(A, deg, r, R(d), t, m, 1); };
      auto v3 = [&](auto& r, R t, size_t m) { page_rank_v3(A, deg, r, R(d), t, m); };
      auto v14 = [&](auto& r, R t, size_t m) { auto k = page_rank_v14(A, deg, r, R(d), t, m); X.check(k <= m, "iterations reported"); };
      if (p == pols[0]) { F("v1", v1); F("vc", vc); F("v2", v2); F("v3", v3, g.n); if (more) { J("v1", v1); J("vc", vc); L("v1", v1); L("vc", vc); } if (threads) { J("v4", v4); L("v4", v4); } }
      F("v6", v6); F("v8", v8); F("v9", v9); F("v10", v10); F("v14", v14); F("v7", v7); F("v13", v13, g.n); if (dbl) F("v12", v12);
      if (more) { B("v2", v2); B("v3", v3); B("v12", v12); B("v13", v13); B("v14", v14); J("v8", v8); J("v9", v9); J("v10", v10); J("v6", v6); J("v7", v7); L("v10", v10); L("v9", v9); L("v8", v8); L("v7", v7); L("v6", v6); }
    }
    X.outcome(hmix(uint64_t(double(f[0]) * 1e9), g.n));
  }
}
void mc_main(Ctx& X) {
  X.section("edge sequences over 3 vertices");
  for (int n = 1; n <= 3; ++n) for (int k = 0; k <= (X.thorough ? 5 : n == 3 ? 3 : 4); ++k) each_edge_seq(n, n, k, [&](G g) { g.n = n; X.state([&] { return g.desc(); }, [&] { go<double>(X, g, k < 3 ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{3}, k < 3 ? std::vector<double>{0.85, 0.5, 0.0} : std::vector<double>{0.85}, k < 3, k < 3 || X.thorough); go<float>(X, g, {k & 1 ? 2 : 0}, {0.85}, false, false); }); });
  X.section("digraphs on 4 vertices");
  each_digraph(4, false, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<double>(X, g, X.thorough ? std::vector<int>{0, 2, 3} : std::vector<int>{g.e.size() % 2 ? 3 : 1}, {0.85}, false, X.thorough); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto f : families(n)) { if (f.e.size() > 1500) continue; for (int u = 0; u < 2; ++u) { G h = f; if (u) { h.e = sym(f); h.tag += "-symmetric"; } X.state([&] { return h.desc(); }, [&] { go<double>(X, h, {0, 3}, {0.85}, n == 9, n < 18); if (n < 40) go<float>(X, h, {1}, {0.85}, false, false); }); } }
  X.section("large sizes");
  for (auto& f : huge(false, {1025, 4097})) { G h = f; h.e = sym(f); X.state([&] { return h.desc(); }, [&] { go<double>(X, h, {3}, {0.85}, false, false); }); }
}
