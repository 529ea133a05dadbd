// Single-source shortest paths: dijkstra, sequential/parallel delta-stepping (every delta), experimental variants.
#include "common.hpp"
#include <nwgraph/algorithms/delta_stepping.hpp>
#include <nwgraph/algorithms/dijkstra.hpp>
#include <nwgraph/experimental/algorithms/delta_stepping.hpp>
using namespace mc;
struct WG { G g; std::vector<int> w; };
static const long INF = 1L << 40;
static std::vector<long> ref(const G& g, bool und, int s) { std::vector<long> d(g.n, INF); d[s] = 0; for (bool ch = true; ch;) { ch = false; for (size_t k = 0; k < g.e.size(); ++k) for (int r = 0; r < (und ? 2 : 1); ++r) { int u = g.e[k][r], v = g.e[k][1 - r]; if (d[u] < INF && d[u] + g.w[k] < d[v]) { d[v] = d[u] + g.w[k]; ch = true; } } } return d; }
template <directedness D, class W, class Dist> void go(Ctx& X, const G& g, const std::vector<int>& src, const std::vector<int>& pols, const std::vector<int>& deltas, double scale, bool more) {
  edge_list<D, W> el(g.n); el.open_for_push_back(); for (size_t k = 0; k < g.e.size(); ++k) el.push_back(g.e[k][0], g.e[k][1], W(g.w[k] * scale)); el.close_for_push_back();
  constexpr bool und = D == UND; adjacency<0, W> A(el); auto wt = [](auto&& e) { return std::get<1>(e); };
  std::string t = std::string(und ? "undirected " : "directed ") + (std::is_same_v<Dist, double> ? "double " : std::is_same_v<Dist, int> ? "int " : "size_t ");
  for (int s : src) {
    auto r = ref(g, und, s);
    auto ck = [&](auto& d, const std::string& how) { X.check(d.size() == r.size(), "size"); for (int v = 0; v < g.n; ++v) { Dist got = d[v]; Dist want = r[v] >= INF ? std::numeric_limits<Dist>::max() : Dist(r[v] * scale); X.check(got == want, "distance", [&] { return how + " from " + str(s) + " to " + str(v) + ": " + str(got) + " expected " + str(want); }); } };
    X.run(t + "dijkstra", [&] { auto d = dijkstra<Dist>(A, s, wt); ck(d, ""); });
    if (more) X.run(t + "dijkstra default weight", [&] { auto d = dijkstra<Dist>(A, s); ck(d, ""); });
    X.run(t + "delta_stepping_m1", [&] { auto d = delta_stepping_m1<Dist>(A, (unsigned)s, Dist(0), wt); ck(d, ""); });
    for (int dl : deltas) {
      Dist delta = Dist(dl * scale) > 0 ? Dist(dl * scale) : Dist(1);
      X.run(t + "delta_stepping sequential", [&] { auto d = delta_stepping<Dist>(A, s, delta, wt); ck(d, "delta " + str(delta)); });
      for (int p : pols) {
        rt::policy = p;
        X.run(t + "delta_stepping parallel", [&] { auto d = delta_stepping<Dist>(A, s, delta); ck(d, "delta " + str(delta) + " policy " + str(p)); });
        if (more) {
          X.run(t + "delta_stepping_v6", [&] { auto d = delta_stepping_v6<Dist>(A, (unsigned)s, delta); ck(d, "delta " + str(delta) + " policy " + str(p)); });
          X.run(t + "delta_stepping_v8", [&] { auto d = delta_stepping_v8<Dist>(A, (unsigned)s, delta, wt); ck(d, "delta " + str(delta) + " policy " + str(p)); });
          X.run(t + "delta_stepping_v9", [&] { auto d = delta_stepping_v9<Dist>(A, (unsigned)s, delta, wt); ck(d, "delta " + str(delta) + " policy " + str(p)); });
          X.run(t + "delta_stepping_v10", [&] { auto d = delta_stepping_v10<Dist>(A, (unsigned)s, delta, wt); ck(d, "delta " + str(delta) + " policy " + str(p)); });
          X.run(t + "delta_stepping_v11", [&] { auto d = delta_stepping_v11<Dist>(A, (unsigned)s, delta, wt); ck(d, "delta " + str(delta) + " policy " + str(p)); });
        }
      }
    }
  }
}
static std::vector<int> all(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
template <class F> void weighted(int np, const std::vector<E2>& pairs, int n, const std::vector<int>& W, F&& f) {    // each pair absent or with a weight
  each_seq(int(W.size()) + 1, np, [&](const std::vector<int>& c) { G g; g.n = n; for (int i = 0; i < np; ++i) if (c[i]) { g.e.push_back(pairs[i]); g.w.push_back(W[c[i] - 1]); } f(g); });
}
void mc_main(Ctx& X) {
  X.section("weighted digraphs on 3 vertices");
  std::vector<E2> p3, u4, d4, u5; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) p3.push_back({i, j});
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { if (i < j) u4.push_back({i, j}); if (i != j) d4.push_back({i, j}); }
  for (int i = 0; i < 5; ++i) for (int j = i + 1; j < 5; ++j) u5.push_back({i, j});
  weighted(6, p3, 3, X.thorough ? std::vector<int>{0, 1, 2, 5} : std::vector<int>{0, 1, 4}, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<DIR, int, size_t>(X, g, all(3), {0, 2}, {1, 2, 7}, 1, true); go<DIR, int, int>(X, g, {0}, {1, 3}, {1, 3, 100}, 1, false); go<DIR, double, double>(X, g, {0}, {2}, {1, 5}, 0.25, false); }); });
  X.section("edge sequences with parallel edges and loops over 2-3 vertices");
  each_seq(3, 4, [&](const std::vector<int>& w) { each_edge_seq(2, 2, 4, [&](const G& g0) { G g = g0; for (int x : w) g.w.push_back(1 + 3 * x); X.state([&] { return g.desc(); }, [&] { go<DIR, int, size_t>(X, g, {0}, {1}, {1, 4}, 1, false); }); }); });
  X.section("weighted undirected graphs on 4 vertices");
  weighted(6, u4, 4, {1, 2, 5}, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<UND, int, size_t>(X, g, X.thorough ? all(4) : std::vector<int>{0}, {0, 3}, {1, 3, 10}, 1, false); }); });
  X.section("weighted digraphs on 4 vertices");
  weighted(12, d4, 4, {1, 5}, [&](const G& g) { if (g.e.size() > (X.thorough ? 6 : 4)) return; X.state([&] { return g.desc(); }, [&] { go<DIR, int, int>(X, g, {0}, {2}, {1, 4}, 1, false); }); });
  if (X.thorough) { X.section("weighted undirected graphs on 5 vertices"); weighted(10, u5, 5, {1, 4}, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<UND, int, size_t>(X, g, {0}, {3}, {1, 3}, 1, false); }); }); }
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) for (int wmode = 0; wmode < 3; ++wmode) {
    G g = f; for (size_t i = 0; i < g.e.size(); ++i) g.w.push_back(wmode == 0 ? 1 : wmode == 1 ? 1 + int(i * 7 % 11) : 1 + int((i * i * 13 + 5) % 255));
    bool ok = n < 130 || X.thorough; if (!ok) continue;
    X.state([&] { return f.desc() + " weights mode " + str(wmode); }, [&] { go<UND, int, size_t>(X, g, some_sources(g.n), {0, 3}, {1, 3, 40}, 1, n < 34); go<DIR, float, double>(X, g, {0}, {2}, {2, 64}, 0.5, false); });
  }
  X.section("large sizes");
  for (auto& f : huge(false)) { G g = f; for (size_t i = 0; i < g.e.size(); ++i) g.w.push_back(1 + int((i * i * 13 + 5) % 255)); X.state([&] { return f.desc(); }, [&] { go<UND, int, size_t>(X, g, {0, f.n / 2}, {2}, {3, 64}, 1, false); }); }
}
