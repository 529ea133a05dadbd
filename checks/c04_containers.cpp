// Every container / builder that can hold an adjacency presents the same graph.
#include "common.hpp"
#include <forward_list>
#include <list>
#include <map>
#include <nwgraph/vovos.hpp>
#include <nwgraph/volos.hpp>
#include <nwgraph/vofos.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
// the customisations a user supplies to treat a vector of tuples as an edge list
namespace nw::graph {
template <std::unsigned_integral I, class... A> struct graph_traits<std::vector<std::tuple<I, I, A...>>> { using vertex_id_type = I; };
template <std::unsigned_integral I, class... A> auto tag_invoke(const num_vertices_tag, const std::vector<std::tuple<I, I, A...>>& v) { size_t n = 0; for (auto& e : v) n = std::max({n, size_t(std::get<0>(e)) + 1, size_t(std::get<1>(e)) + 1}); return n; }
template <std::unsigned_integral I, class... A, class E> auto tag_invoke(const source_tag, const std::vector<std::tuple<I, I, A...>>&, const E& e) { return std::get<0>(e); }
template <std::unsigned_integral I, class... A, class E> auto tag_invoke(const target_tag, const std::vector<std::tuple<I, I, A...>>&, const E& e) { return std::get<1>(e); }
}
using namespace mc;

template <class GR> Rows read_graph(GR& g) { Rows r; for (auto&& row : g) r.push_back(sorted(read_row(row))); return r; }
template <class GR> Rows read_plain(GR& g) { Rows r; for (auto&& row : g) { Row o; for (auto&& v : row) o.push_back({long(v)}); std::sort(o.begin(), o.end()); r.push_back(o); } return r; }
template <class GR> void same(Ctx& X, GR& g, const Rows& ref, const char* key) {
  Rows got = read_graph(g);
  X.check(got == ref, key, [&] { return showrows(got) + " (" + str(got.size()) + " rows) expected " + showrows(ref) + " (" + str(ref.size()) + " rows)"; });
  X.check(size_t(num_vertices(g)) == ref.size(), "num-vertices", [&] { return std::string(key) + ": " + str(num_vertices(g)); });
  for (size_t v = 0; v < ref.size(); ++v) {
    Row o; for (auto&& e : g[v]) { o.push_back(tup(e)); X.check(long(target(g, e)) == o.back()[0], "target"); }
    X.check(sorted(o) == ref[v], "row-by-index");
  }
}
// insertion order is part of what the push_back containers promise
template <class GR> void ordered(Ctx& X, GR& g, const Rows& ref, bool front, const char* key) {
  size_t i = 0;
  for (auto&& row : g) { Row o = read_row(row); if (front) std::reverse(o.begin(), o.end()); X.check(i < ref.size() && o == ref[i], key, [&] { return "row " + str(i) + ": " + showrows({o}) + " expected " + showrows({ref[i]}); }); ++i; }
}
static Rows insertion_rows(const G& g, size_t n, int idx, bool und, int na) {
  Rows r(n);
  for (size_t k = 0; k < g.e.size(); ++k) {
    auto a = attr_of(int(k), na); int s = g.e[k][idx], t = g.e[k][1 - idx];
    std::vector<long> x{t}; x.insert(x.end(), a.begin(), a.end()); r[s].push_back(x);
    if (und) { std::vector<long> y{s}; y.insert(y.end(), a.begin(), a.end()); r[t].push_back(y); }
  }
  return r;
}
template <directedness D, class... A> void one(Ctx& X, const G& g, int declared) {
  edge_list<D, A...> el(declared); el_fill(el, g);
  constexpr bool und = D == UND; constexpr int NA = sizeof...(A);
  size_t n = std::max<size_t>(el_n(g), declared), m = g.e.size() * (und ? 2 : 1);
  Rows ref = ref_rows(g, n, 0, und, NA), ins = insertion_rows(g, n, 0, und, NA);
  Rows ref1 = ref_rows(g, n, 1, und, NA), ins1 = insertion_rows(g, n, 1, und, NA);
  std::string s = und ? "undirected " : "directed ";
  X.run(s + "vov", [&] { vov<0, A...> a(el); same(X, a, ref, "vov"); ordered(X, a, ins, false, "vov-order"); auto b = a; a = vov<0, A...>(1); same(X, b, ref, "vov-copy"); });
  X.run(s + "adj_list", [&] { adj_list<0, A...> a(el); same(X, a, ref, "adj_list"); ordered(X, a, ins, false, "adj_list-order"); X.check(size_t(a.num_edges()) == m && a.num_vertices()[0] == n, "adj_list-count", [&] { return str(a.num_edges()); }); auto b = a; same(X, b, ref, "adj_list-copy"); });
  X.run(s + "adj_flist", [&] { adj_flist<0, A...> a(el); same(X, a, ref, "adj_flist"); X.check(size_t(a.num_edges()) == m && a.num_vertices()[0] == n, "adj_flist-count"); ordered(X, a, ins, true, "adj_flist-order"); });
  X.run(s + "vov by target", [&] { vov<1, A...> a(el); same(X, a, ref1, "vov<1>"); ordered(X, a, ins1, false, "vov<1>-order"); });
  X.run(s + "adj_list by target", [&] { adj_list<1, A...> a(el); same(X, a, ref1, "adj_list<1>"); ordered(X, a, ins1, false, "adj_list<1>-order"); X.check(size_t(a.num_edges()) == m && a.num_vertices()[0] == n, "adj_list<1>-count"); });
  X.run(s + "adj_flist by target", [&] { adj_flist<1, A...> a(el); same(X, a, ref1, "adj_flist<1>"); ordered(X, a, ins1, true, "adj_flist<1>-order"); X.check(size_t(a.num_edges()) == m && a.num_vertices()[0] == n, "adj_flist<1>-count"); });
  X.run(s + "fill_adj_list grows", [&] {
    vov<0, A...> a(0); size_t k = fill_adj_list(el, a); X.check(k == m, "fill-count", [&] { return str(k); });
    Rows r = ref; size_t need = 0; for (auto& e : g.e) need = std::max<size_t>(need, std::max(und ? e[1] : 0, e[0]) + 1); r.resize(need); same(X, a, r, "vov-grown");
    adj_list<0, A...> b(0); fill_adj_list(el, b); same(X, b, r, "adj_list-grown");
    adj_flist<0, A...> c(0); fill_adj_list(el, c); same(X, c, r, "adj_flist-grown");
  });
  X.run(s + "edge list untouched", [&] { size_t k = 0; for (auto&& e : el) { auto a = attr_of(int(k), NA); std::vector<long> want{g.e[k][0], g.e[k][1]}; want.insert(want.end(), a.begin(), a.end()); X.check(tup(e) == want, "edge-list-changed", [&] { return "record " + str(k) + " is " + showrows({{tup(e)}}); }); ++k; } X.check(k == g.e.size(), "edge-list-size"); });
  X.run(s + "csr", [&] { adjacency<0, A...> a(el); same(X, a, ref, "csr"); adjacency<1, A...> b(el); same(X, b, ref1, "csr-transpose"); });
  X.run(s + "std containers", [&] {
    // push_back_fill over a list of tuples, both orientations
    using T = std::tuple<default_vertex_id_type, default_vertex_id_type, A...>;
    std::vector<T> v; for (auto&& e : el) v.push_back(T(e));
    using Nb = std::tuple<default_vertex_id_type, A...>;
    { std::vector<std::vector<Nb>> a(n); push_back_fill(v, a, !und, 0); same(X, a, ref, "vv"); ordered(X, a, ins, false, "vv-order"); }
    { std::vector<std::vector<Nb>> a(n); push_back_fill(v, a, !und, 1); same(X, a, ref1, "vv-transpose"); }
    { std::vector<std::list<Nb>> a(n); push_back_fill(v, a, !und, 0); same(X, a, ref, "vl"); }
  });
}
// builders from application data: vertex names and records naming them
static void data(Ctx& X, const G& g, int n) {
  std::vector<std::string> names; for (int i = 0; i < n; ++i) names.push_back(std::string(1, char('z' - i)) + str(i));
  std::vector<std::tuple<std::string, std::string, int>> recs;
  for (size_t k = 0; k < g.e.size(); ++k) recs.push_back({names[g.e[k][0]], names[g.e[k][1]], 1000 + int(k)});
  X.run("make_index_map", [&] { auto m = make_index_map(names); X.check(m.size() == names.size(), "map-size"); for (int i = 0; i < n; ++i) X.check(m[names[i]] == size_t(i), "map"); });
  for (int und = 0; und < 2; ++und) for (int idx = 0; idx < 2; ++idx) {
    std::string s = std::string(und ? "undirected" : "directed") + " idx=" + str(idx) + " ";
    Rows ref = insertion_rows(g, n, idx, false, 1), plain = ref, index = ref;
    if (und) { ref.assign(n, {}); for (size_t k = 0; k < g.e.size(); ++k) { long a = g.e[k][idx], b = g.e[k][1 - idx]; ref[a].push_back({b, 1000 + long(k)}); ref[b].push_back({a, 1000 + long(k)}); } }
    plain = ref; index = ref;
    for (auto& r : plain) for (auto& t : r) t.resize(1);
    for (auto& r : index) for (auto& t : r) t[1] -= 1000;
    X.run(s + "make_property_graph", [&] { auto a = make_property_graph(names, recs, !und, idx); X.check(a.size() == size_t(n), "rows"); ordered(X, a, ref, false, "property-graph"); });
    X.run(s + "make_index_graph", [&] { auto a = make_index_graph(names, recs, !und, idx); X.check(a.size() == size_t(n), "rows"); ordered(X, a, index, false, "index-graph"); });
    X.run(s + "make_plain_graph", [&] {
      auto a = make_plain_graph(names, recs, !und, idx); X.check(a.size() == size_t(n), "rows");
      for (int v = 0; v < n && v < int(a.size()); ++v) { Row o; for (auto w : a[v]) o.push_back({long(w)}); X.check(o == plain[v], "plain-graph", [&] { return "row " + str(v) + " " + showrows({o}) + " expected " + showrows({plain[v]}); }); }
      std::vector<std::tuple<std::string, std::string>> bare; for (auto& [u, w, k] : recs) bare.push_back({u, w}); X.check(make_plain_graph(names, bare, !und, idx) == a, "records without properties");
    });
    X.run(s + "index edges", [&] {
      auto m = make_index_map(names); auto ie = make_index_edges(m, recs); X.check(ie.size() == recs.size(), "index-edges-size");
      for (size_t k = 0; k < ie.size(); ++k) X.check(tup(ie[k]) == std::vector<long>{g.e[k][0], g.e[k][1], long(k)}, "index-edges");
      auto pe = make_property_edges(m, recs); X.check(pe.size() == recs.size(), "property-edges-size");
      for (size_t k = 0; k < pe.size(); ++k) X.check(tup(pe[k]) == std::vector<long>{g.e[k][0], g.e[k][1], 1000 + long(k)}, "property-edges");
      auto le = make_plain_edges(m, recs); X.check(le.size() == recs.size(), "plain-edges-size");
      for (size_t k = 0; k < le.size(); ++k) X.check(tup(le[k]) == std::vector<long>{g.e[k][0], g.e[k][1]}, "plain-edges");
    });
  }
}
static void bip(Ctx& X, const G& g, int n0, int n1) {
  std::vector<std::string> L, R; for (int i = 0; i < n0; ++i) L.push_back("l" + str(9 - i)); for (int i = 0; i < n1; ++i) R.push_back("r" + str(i * 7 % 5) + str(i));
  std::vector<std::tuple<std::string, std::string>> recs; for (auto& e : g.e) recs.push_back({L[e[0]], R[e[1]]});
  Rows a0 = insertion_rows(g, std::max(n0, n1), 0, false, 0), a1 = insertion_rows(g, std::max(n0, n1), 1, false, 0); a0.resize(n0); a1.resize(n1);
  auto cmp = [&](auto& gr, const Rows& r, const char* key) { X.check(gr.size() == r.size(), key, [&] { return str(gr.size()) + " rows expected " + str(r.size()); }); for (size_t i = 0; i < r.size(); ++i) { Row o; for (auto&& v : gr[i]) { if constexpr (requires { std::get<0>(v); }) o.push_back({long(std::get<0>(v))}); else o.push_back({long(v)}); } X.check(o == r[i], key, [&] { return "row " + str(i) + " " + showrows({o}) + " expected " + showrows({r[i]}); }); } };
  X.run("data_to_graph_edge_list", [&] { auto e = data_to_graph_edge_list(L, R, recs); X.check(e.size() == g.e.size(), "size"); for (size_t k = 0; k < e.size(); ++k) X.check(tup(e[k]) == std::vector<long>{g.e[k][0], g.e[k][1]}, "bip-edges"); });
  X.run("make_plain_bipartite_graphs", [&] { auto [G0, G1] = make_plain_bipartite_graphs(L, R, recs); cmp(G0, a0, "left"); cmp(G1, a1, "right"); });
  X.run("make_plain_bipartite_graph", [&] { auto G0 = make_plain_bipartite_graph(L, R, recs); cmp(G0, a0, "left"); auto G1 = make_plain_bipartite_graph(L, R, recs, 1); cmp(G1, a1, "right"); });
  X.run("make_bipartite_graphs", [&] { auto [G0, G1] = make_bipartite_graphs<std::vector<std::string>, std::vector<std::tuple<std::string, std::string>>, std::vector<std::vector<std::tuple<size_t>>>>(L, R, recs); cmp(G0, a0, "left"); cmp(G1, a1, "right"); });
  X.run("make_bipartite_graph", [&] { auto G0 = make_bipartite_graph<0>(L, R, recs); cmp(G0, a0, "left"); auto G1 = make_bipartite_graph<1>(L, R, recs); cmp(G1, a1, "right"); });
  X.run("join", [&] {
    // s-overlap of the left side: i -> j for every shared right vertex k, labelled k
    auto [H, Gt] = make_plain_bipartite_graphs(L, R, recs);
    auto J = join(Gt, H);
    X.check(J.size() == H.size(), "join-rows");
    for (size_t i = 0; i < H.size(); ++i) {
      Row want; for (auto k : H[i]) for (auto j : Gt[k]) if (j != i) want.push_back({long(j), long(k)});
      X.check(read_row(J[i]) == want, "join", [&] { return "row " + str(i) + showrows({read_row(J[i])}) + " expected " + showrows({want}); });
    }
  });
}
void mc_main(Ctx& X) {
  auto go = [&](const G& g, std::vector<int> decl) { X.state([&] { return g.desc(); }, [&] { for (int d : decl) { one<DIR>(X, g, d); one<UND>(X, g, d); one<DIR, int>(X, g, d); one<UND, int>(X, g, d); one<UND, double, unsigned short>(X, g, d); } }); };
  X.section("edge sequences over 3 vertices");
  for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g) { go(g, {0, 5}); });
  X.section("edge sequences over 2 vertices");
  for (int k = 4; k <= 5; ++k) each_edge_seq(2, 2, k, [&](const G& g) { go(g, {0}); });
  X.section("named records over 3 vertices");
  for (int k = 0; k <= 3; ++k) each_edge_seq(3, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { data(X, g, 3); data(X, g, 5); }); });
  X.section("bipartite named records");
  for (int k = 0; k <= 3; ++k) { each_edge_seq(2, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { bip(X, g, 2, 3); bip(X, g, 4, 3); bip(X, g, 2, 5); }); }); each_edge_seq(3, 2, k, [&](const G& g) { X.state([&] { return "3x2 " + g.desc(); }, [&] { bip(X, g, 3, 2); }); }); }
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) if (f.e.size() < 3000) go(f, {0, n + 2});
  X.section("large sizes");
  for (auto& f : huge(true, {1025})) go(f, {0});
  for (auto& f : {g_star(66000), g_tree(66000)}) X.state([&] { return f.desc(); }, [&] { one<UND, int>(X, f, 0); one<DIR>(X, f, 0); });
}
