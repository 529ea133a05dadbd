// Bipartite edge lists -> biadjacency on either side.
#include "common.hpp"
using namespace mc;
template <class A> void inspect(Ctx& X, A& a, const Rows& ref, size_t n0, size_t n1, size_t m, bool sorted_rows) {
  const A& c = a;
  X.check(c.size() == ref.size() && size_t(a.end() - a.begin()) == ref.size() && size_t(c.end() - c.begin()) == ref.size(), "row-count", [&] { return "size()=" + str(c.size()) + " rows=" + str(a.end() - a.begin()) + " expected " + str(ref.size()); });
  X.check(c.num_vertices()[0] == n0 && c.num_vertices()[1] == n1 && size_t(num_vertices(c, 0)) == n0 && size_t(num_vertices(c, 1)) == n1, "num-vertices", [&] { return str(c.num_vertices()[0]) + "," + str(c.num_vertices()[1]) + " expected " + str(n0) + "," + str(n1); });
  X.check(size_t(c.num_edges()) == m, "num-edges", [&] { return str(c.num_edges()); });
  size_t i = 0;
  for (auto&& row : a) {
    Row got = read_row(row);
    if (sorted_rows) for (size_t k = 1; k < got.size(); ++k) X.check(got[k - 1][0] <= got[k][0], "row-not-sorted");
    X.check(i < ref.size() && sorted(got) == ref[i], "row", [&] { return "row " + str(i) + " is " + showrows({got}) + " expected " + showrows({ref[i]}); });
    X.check(size_t(degree(c, i)) == got.size() && size_t(degree(c[i])) == got.size(), "degree");
    for (auto& t : got) X.check(size_t(t[0]) < n1, "neighbour-out-of-range");
    ++i;
  }
  X.check(i == ref.size(), "iteration");
  auto dg = a.degrees(std::execution::seq);
  X.check(dg.size() == ref.size(), "degrees-size");
  for (i = 0; i < ref.size(); ++i) X.check(size_t(dg[i]) == ref[i].size(), "degrees");
}
template <class V, class I, int idx, class... A> void onet(Ctx& X, const G& g, int d0, int d1) {
  index_edge_list<V, bipartite_graph_base, DIR, A...> el(d0, d1); constexpr bool usual = std::is_same_v<V, default_vertex_id_type> && std::is_same_v<I, default_index_t>;
  if (g.e.size() % 2 == 0) el_fill(el, g);
  else {    // whole records, and every third one field by field
    el.open_for_push_back(); for (size_t k = 0; k < g.e.size(); ++k) { if (k % 3 == 2) { el_push(el, g.e[k][0], g.e[k][1], int(k)); continue; } index_edge_list<V, bipartite_graph_base, DIR, A...> one(d0, d1); one.open_for_push_back(); el_push(one, g.e[k][0], g.e[k][1], int(k)); typename decltype(el)::element t(one[0]); el.push_back(t); } el.close_for_push_back();
  }
  size_t n[2] = {size_t(d0), size_t(d1)};
  for (auto& e : g.e) { n[0] = std::max<size_t>(n[0], e[0] + 1); n[1] = std::max<size_t>(n[1], e[1] + 1); }
  Rows ref = ref_rows(g, n[idx], idx, false, sizeof...(A));
  size_t m = g.e.size();
  using ADJ = index_biadjacency<idx, I, V, A...>;
  std::string s = "idx=" + str(idx) + " ";
  X.run(s + "ctor(el)", [&] { ADJ a(el); inspect(X, a, ref, n[idx], n[1 - idx], m, false); ADJ b(a), c; c = a; ADJ d(std::move(a)); inspect(X, b, ref, n[idx], n[1 - idx], m, false); inspect(X, c, ref, n[idx], n[1 - idx], m, false); inspect(X, d, ref, n[idx], n[1 - idx], m, false); });
  X.run(s + "ctor(el,sort)", [&] { ADJ a(el, true, std::execution::seq); inspect(X, a, ref, n[idx], n[1 - idx], m, true); });
  X.run(s + "fill_biadjacency", [&] { ADJ a(n[idx], n[1 - idx]); fill_biadjacency<idx>(el, a); inspect(X, a, ref, n[idx], n[1 - idx], m, false); ADJ b(std::array<size_t, 2>{n[0], n[1]}); fill_biadjacency<idx>(el, b, true); inspect(X, b, ref, n[idx], n[1 - idx], m, true); });
  if constexpr (std::is_same_v<V, I>) X.run(s + "ctor(vectors)", [&] {
    std::vector<V> ind{0}, tgt; std::tuple<std::vector<A>...> at;
    for (auto& r : ref) { for (auto& t : r) { tgt.push_back(t[0]); size_t c = 1; std::apply([&](auto&... v) { (v.push_back(t[c++]), ...); }, at); } ind.push_back(tgt.size()); }
    std::apply([&](auto&... v) { ADJ a(n[1 - idx], ind, tgt, v...); inspect(X, a, ref, n[idx], n[1 - idx], m, true); }, at);
    auto all = std::apply([&](auto&... v) { return std::make_tuple(tgt, v...); }, at);
    ADJ b(n[1 - idx], ind, all); inspect(X, b, ref, n[idx], n[1 - idx], m, true);
    ADJ c(n[1 - idx], std::move(ind), std::move(all)); inspect(X, c, ref, n[idx], n[1 - idx], m, true);
  });
  if constexpr (sizeof...(A) == 0 && usual) X.run(s + "make_biadjacency", [&] { auto a = make_biadjacency<idx>(el); inspect(X, a, ref, n[idx], n[1 - idx], m, false); for (size_t k : {0, 3}) { Rows r = ref; r.resize(n[idx] + k); auto b = make_biadjacency<idx>(el, n[idx] + k, n[1 - idx] + 2 * k); inspect(X, b, r, n[idx] + k, n[1 - idx] + 2 * k, m, false); } });
  X.run(s + "degrees(el)", [&] { auto d = degrees<idx>(el); X.check(d.size() == n[idx], "el-degrees-size"); for (size_t i = 0; i < d.size(); ++i) if (ref[i].size() <= std::numeric_limits<V>::max()) X.check(size_t(d[i]) == ref[i].size(), "el-degrees"); });
}
template <int idx, class... A> void one(Ctx& X, const G& g, int d0, int d1) { onet<default_vertex_id_type, default_index_t, idx, A...>(X, g, d0, d1); }
void mc_main(Ctx& X) {
  auto go = [&](const G& g, std::vector<int> pols, std::vector<E2> decl) {
    X.state([&] { return g.desc(); }, [&] { for (int p : pols) { rt::policy = p; for (auto d : decl) { one<0>(X, g, d[0], d[1]); one<1>(X, g, d[0], d[1]); one<0, int>(X, g, d[0], d[1]); one<1, int>(X, g, d[0], d[1]); if (d[0] == 0) one<1, double, unsigned short>(X, g, d[0], d[1]); } } });
  };
  X.section("edge sequences over 2x3");
  for (int k = 0; k <= 3; ++k) each_edge_seq(2, 3, k, [&](const G& g) { go(g, {0, 1, 2, 3}, {{0, 0}, {4, 1}, {1, 5}}); });
  X.section("edge sequences over 3x2");
  for (int k = 3; k <= (X.thorough ? 5 : 4); ++k) each_edge_seq(3, 2, k, [&](const G& g) { go(g, {2}, {{0, 0}}); });
  X.section("edge sequences over 4x1 and 1x4");
  for (int k = 1; k <= 5; ++k) { each_edge_seq(4, 1, k, [&](const G& g) { go(g, {3}, {{0, 0}}); }); each_edge_seq(1, 4, k, [&](const G& g) { go(g, {1}, {{0, 0}}); }); }
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) {
    auto add = [&](int a, int b, int s, const char* t) { G g; g.tag = t; g.n = std::max(a, b); for (int i = 0; i < a * 3; ++i) g.e.push_back({(i * 7 + s) % a, (i * (s + 2) + i / a) % b}); go(g, {0, 2}, {{0, 0}, {a + 2, b + 5}}); };
    add(n, n, 1, "square"); add(n, 3, 2, "tall"); add(3, n, 3, "wide"); add(n, 2 * n, 5, "rect"); add(1, n, 0, "one-left"); add(n, 1, 0, "one-right");
  }
  auto types = [&]<class V, class I>(V, I, const char* t) {
    auto tgo = [&](const G& g, int p) { if (long(g.e.size()) > long(std::min<uint64_t>(std::numeric_limits<I>::max(), 200000))) return; X.state([&] { return std::string(t) + " " + g.desc(); }, [&] { rt::policy = p; onet<V, I, 0>(X, g, 0, 0); onet<V, I, 1, int>(X, g, 0, 0); if (g.e.size() < 4000) { onet<V, I, 0, double>(X, g, 3, 7); onet<V, I, 1>(X, g, 7, 3); } }); };
    X.section("other id and index types"); for (int k = 0; k <= 2; ++k) each_edge_seq(2, 3, k, [&](const G& g) { tgo(g, k); });
    for (int a : {1, 3, 10, 100, 250}) for (int b : {1, 2, 11, 249}) for (int m : {100, 127, 128, 129, 254, 255, 256, 257, 300, 600, 66000}) { if (!X.thorough && m > 1000 && (sizeof(V) != 2 || a != 10)) continue; G g; g.n = std::max(a, b); g.tag = str(m) + " edges over " + str(a) + "x" + str(b); for (int i = 0; i < m; ++i) g.e.push_back({i % a, (i * 7 + i / a) % b}); tgo(g, m % 4); }
  };
  types(uint8_t(), uint16_t(), "8/16"); types(uint8_t(), uint32_t(), "8/32"); types(uint16_t(), uint32_t(), "16/32"); types(uint16_t(), uint64_t(), "16/64"); types(uint32_t(), uint64_t(), "32/64"); types(uint64_t(), uint32_t(), "64/32");
}
