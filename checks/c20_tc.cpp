// Triangle counting (every implementation, thread count, stride, policy and leaf order) and sorted-set intersection sizes.
#include "common.hpp"
#include <nwgraph/algorithms/triangle_count.hpp>
#include <nwgraph/experimental/algorithms/triangle_count.hpp>
#include <nwgraph/vovos.hpp>
using namespace mc;
static size_t ref(const G& g) { auto nb = adj(g, true); for (auto& x : nb) std::sort(x.begin(), x.end()); size_t c = 0; for (auto& e : g.e) { int x = e[0], y = e[1]; if (nb[x].size() > nb[y].size()) std::swap(x, y); for (int w : nb[x]) if (w > std::max(x, y) && std::binary_search(nb[y].begin(), nb[y].end(), w)) ++c; } return c; }
static void go(Ctx& X, const G& g0, const std::vector<int>& pols, const std::vector<size_t>& th, const std::vector<int>& strides, bool all) {
  G g = g0; for (auto& e : g.e) if (e[0] > e[1]) std::swap(e[0], e[1]); std::sort(g.e.begin(), g.e.end());
  size_t T = ref(g);
  edge_list<DIR> el(g.n); el_fill(el, g); adjacency<0> U(el, true); adjacency<1> L(el, true); edge_list<UND> ul(g.n); el_fill(ul, g); adjacency<0> S(ul, true); vov<0> V(el); edge_list<DIR, int> wl(g.n); el_fill(wl, g); adjacency<0, int> W(wl, true);
  auto ck = [&](size_t got, size_t want, const std::string& how) { X.check(got == want, "count", [&] { return how + ": " + str(got) + " expected " + str(want) + " policy " + str(rt::policy); }); };
  X.outcome(T);
  X.run("triangle_count", [&] { ck(triangle_count(U), T, "upper"); ck(triangle_count(L), T, "lower"); ck(triangle_count(S), 6 * T, "symmetric"); ck(triangle_count(V), T, "vov"); ck(triangle_count(W), T, "weighted"); });
  for (size_t t : th) X.run("triangle_count threads", [&] { auto s = str(t) + " threads"; ck(triangle_count(U, t), T, s); if (all) { ck(triangle_count(V, t), T, s + " vov"); ck(triangle_count(W, t), T, s + " weighted"); ck(triangle_count_v4(U.begin(), U.end(), t), T, s + " v4"); ck(triangle_count_v5(U.begin(), U.end(), t), T, s + " v5"); ck(triangle_count_v6(U.begin(), U.end(), t), T, s + " v6"); ck(triangle_count_v6(L.begin(), L.end(), t), T, s + " v6 lower"); } });
  X.run("sequential variants", [&] { ck(triangle_count_v1(U), T, "v1"); ck(triangle_count_v2(U), T, "v2"); ck(triangle_count_v2(L), T, "v2 lower"); ck(triangle_count_v3(U), T, "v3"); ck(triangle_count_v3(L), T, "v3 lower"); ck(triangle_count_v15(U), T, "v15"); ck(triangle_count_v15(L), T, "v15 lower"); });
  for (int p : pols) {
    rt::policy = p;
    X.run("v7", [&] { ck(triangle_count_v7(U), T, "default"); ck(triangle_count_v7(U, std::execution::seq), T, "seq"); ck(triangle_count_v7(U, std::execution::par, std::execution::par), T, "par inner"); });
    X.run("v10", [&] { ck(triangle_count_v10(U), T, "default"); ck(triangle_count_v10(L), T, "lower"); ck(triangle_count_v10(U, std::execution::par, std::execution::seq, std::execution::par), T, "par set"); });
    for (int s : strides) X.run("cyclic variants", [&] { auto t = "stride " + str(s); ck(triangle_count_v12(U, s), T, t + " v12"); ck(triangle_count_v13(U, s), T, t + " v13"); ck(triangle_count_v13(L, s), T, t + " v13 lower"); });
    X.run("v14", [&] { ck(triangle_count_v14(U), T, "upper"); ck(triangle_count_v14(L), T, "lower"); });
  }
}
using Tup = std::tuple<unsigned>;
void mc_main(Ctx& X) {
  X.section("undirected graphs on up to 6 vertices");
  for (int n = 0; n <= 6; ++n) each_ugraph(n, [&](const G& g) { if (n == 6 && !X.thorough && g.e.size() > 7) return; X.state([&] { return g.desc(); }, [&] { go(X, g, n < 5 ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 3}, n <= 4 ? std::vector<size_t>{1, 2, 3, 5} : std::vector<size_t>{2}, n <= 4 ? std::vector<int>{1, 2, 3, 8} : std::vector<int>{2}, n <= 5); }); });
  if (X.thorough) { X.section("undirected graphs on 7 vertices with 9 to 12 edges on a fixed path"); std::vector<E2> p; for (int i = 0; i < 7; ++i) for (int j = i + 2; j < 7; ++j) p.push_back({i, j}); for (unsigned m = 0; m < (1u << p.size()); ++m) { G g = g_path(7); for (size_t k = 0; k < p.size(); ++k) if (m >> k & 1) g.e.push_back(p[k]); X.state([&] { return g.desc(); }, [&] { go(X, g, {3}, {3}, {2}, false); }); } }
  X.section("size sweep");
  for (int n : sweep_sizes(true)) for (auto& f : families(n)) { if (!X.thorough && f.e.size() > 2000) continue; if (f.n > 700) continue; X.state([&] { return f.desc(); }, [&] { go(X, f, {0, 1, 2, 3}, {1, 2, 3, 4, 7, 16}, {1, 2, 5, 8, 16, 64}, n < 40); }); }
  X.section("large sizes");
  for (auto& f : huge(false, {1025, 4097})) X.state([&] { return f.desc(); }, [&] { go(X, f, {2}, {4}, {5}, false); });
  X.section("every pair of sorted lists");
  int M = X.thorough ? 5 : 4, V = 4;
  std::vector<std::vector<int>> lists; for (int k = 0; k <= M; ++k) each_seq(V, k, [&](const std::vector<int>& s) { if (std::is_sorted(s.begin(), s.end())) lists.push_back(s); });
  for (auto& a : lists) for (auto& b : lists) X.state([&] { return show(a) + " and " + show(b); }, [&] {
    std::vector<Tup> x, y; for (int v : a) x.push_back({unsigned(v)}); for (int v : b) y.push_back({unsigned(v)}); std::vector<int> o; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o)); size_t w = o.size();
    auto ck = [&](size_t g, const char* how) { X.check(g == w, "size", [&] { return std::string(how) + " " + str(g) + " expected " + str(w); }); };
    X.run("intersection_size sequential", [&] { ck(intersection_size(x, y), "ranges"); ck(intersection_size(x.begin(), x.end(), y.begin(), y.end()), "iterators"); ck(intersection_size(x.begin(), x.end(), y), "mixed"); ck(intersection_size(x, y, std::execution::seq), "ranges seq"); ck(intersection_size(x.begin(), x.end(), y, std::execution::seq), "mixed seq"); ck(intersection_size(x.begin(), x.end(), y.begin(), y.end(), std::execution::seq), "iterators seq"); });
    for (int p = 0; p < 4; p += 3) { rt::policy = p; X.run("intersection_size parallel", [&] { ck(intersection_size(x, y, std::execution::par), "ranges par"); ck(intersection_size(x.begin(), x.end(), y, std::execution::par_unseq), "mixed par"); ck(intersection_size(x.begin(), x.end(), y.begin(), y.end(), std::execution::unseq), "iterators unseq"); }); }
    bool dup = false; for (auto* l : {&a, &b}) for (size_t i = 1; i < l->size(); ++i) dup = dup || (*l)[i] == (*l)[i - 1];
    if (!dup) X.run("lower_bound_set_intersection", [&] { std::vector<int> r; lower_bound_set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); X.check(r == o, "elements", [&] { return show(r); }); });
    X.outcome(hmix(w, hash_all(o)));
  });
}
