// Back-edge ranges: every row shows its own edges plus one extra entry per unmatched incoming edge; the back edge of (u,v) is the graph's own v->u edge or an extra one.
#include "common.hpp"
#include <nwgraph/adaptors/back_edge_range.hpp>
using namespace mc;
template <class... A> void go(Ctx& X, const G& g, bool every) {
  constexpr int na = sizeof...(A);
  edge_list<DIR, A...> el(g.n); el_fill(el, g); adjacency<0, A...> A0(el); using GR = adjacency<0, A...>;
  Rows own(g.n); for (int i = 0; i < g.n; ++i) own[i] = read_row(A0[i]);
  std::set<E2> E(g.e.begin(), g.e.end());
  auto extras = [&](int v) { Row r; for (int u = 0; u < g.n; ++u) if (E.count({u, v}) && !E.count({v, u})) { std::vector<long> t{u}; t.resize(1 + na, 0); r.push_back(t); } return r; };
  auto rows_of = [&](auto& R) { Rows r; auto b = R.begin(); int k = 0; for (auto o = R.begin(); o != R.end(); ++o, ++k) { X.check(long(o - b) == k && long(o.get_index()) == k, "row-index"); Row q; auto sv = *o; for (auto&& e : sv) { q.push_back(tup(e)); if (q.size() > g.e.size() * 2 + 2) break; } r.push_back(q); } return r; };
  // identity of an edge of the graph by the address of its last attribute
  auto where = [&](const void* p) { for (int i = 0; i < g.n; ++i) for (auto&& e : A0[i]) if (static_cast<const void*>(&std::get<na>(e)) == p) return E2{i, int(std::get<0>(e))}; return E2{-1, -1}; };
  auto judge = [&](auto&& b, int u, int v) {    // b claims to be the back edge of u->v (or of the extra entry u->v)
    X.check(long(std::get<0>(b)) == u, "target", [&] { return "back edge of " + str(u) + "," + str(v) + " leads to " + str(std::get<0>(b)); });
    E2 w = where(static_cast<const void*>(&std::get<na>(b)));
    if (E.count({v, u})) X.check(w == E2{v, u}, "own-edge", [&] { return "back edge of " + str(u) + "," + str(v) + " is the graph's edge " + str(w[0]) + "," + str(w[1]); });
    else { X.check(w[0] == -1, "extra-edge", [&] { return "extra back edge of " + str(u) + "," + str(v) + " is the graph's edge " + str(w[0]) + "," + str(w[1]); }); auto t = tup(b); t.erase(t.begin()); for (long x : t) X.check(x == 0, "extra-attributes"); }
  };
  auto unchanged = [&] { for (int i = 0; i < g.n; ++i) X.check(read_row(A0[i]) == own[i], "graph-changed", [&] { return "row " + str(i) + " " + showrows({read_row(A0[i])}); }); };
  Rows want = own; for (int v = 0; v < g.n; ++v) for (auto& t : extras(v)) want[v].push_back(t);
  X.run("rows", [&] { back_edge_range<GR> R(A0); X.check(R.size() == size_t(g.n), "size"); auto r = rows_of(R); X.check(r == want, "rows", [&] { return showrows(r) + " expected " + showrows(want); }); unchanged(); });
  X.run("back edges by row", [&] {
    back_edge_range<GR> R(A0); auto b = R.begin();
    for (int u = 0; u < g.n; ++u) { auto sv = b[u]; size_t k = 0; for (auto it = sv.begin(); it != sv.end(); ++it, ++k) { X.check(k < want[u].size(), "row-length"); judge(R.get_back_edge(typename GR::vertex_id_type(u), it), u, int(want[u][k][0])); } X.check(k == want[u].size(), "row-length"); }
    unchanged();
  });
  X.run("back edges by graph iterators", [&] {
    back_edge_range<GR> R(A0);
    for (auto o = A0.begin(); o != A0.end(); ++o) { auto row = *o; for (typename GR::inner_iterator it = row.begin(); it != row.end(); ++it) { typename GR::outer_iterator oo = o; judge(R.get_back_edge(oo, it), int(o - A0.begin()), int(std::get<0>(*it))); } }
    unchanged();
  });
  // looked up on demand, one query first: rows gain exactly the extra entry it needs, then everything else
  std::vector<E2> q(E.begin(), E.end());
  for (size_t f = 0; f < (every ? q.size() : std::min<size_t>(q.size(), 2)); ++f) X.run("on demand", [&] {
    back_edge_range<GR> R(A0, true); auto r = rows_of(R); X.check(r == own, "rows", [&] { return "before any query " + showrows(r); });
    judge(R.get_back_edge(q[f][0], q[f][1]), q[f][0], q[f][1]);
    Rows w = own; if (!E.count({q[f][1], q[f][0]})) { std::vector<long> t{q[f][0]}; t.resize(1 + na, 0); w[q[f][1]].push_back(t); }
    r = rows_of(R); X.check(r == w, "rows", [&] { return "after one query " + showrows(r) + " expected " + showrows(w); });
    judge(R.get_back_edge(q[f][1], q[f][0]), q[f][1], q[f][0]);
    for (size_t i = 0; i < q.size(); ++i) { auto& e = q[(i + f) % q.size()]; judge(R.get_back_edge(e[0], e[1]), e[0], e[1]); judge(R.get_back_edge(e[1], e[0]), e[1], e[0]); }
    r = rows_of(R); X.check(r == want, "rows", [&] { return "after every query " + showrows(r) + " expected " + showrows(want); }); unchanged();
  });
  // residual-style use: take from an edge, give to its back edge
  if constexpr (na == 2) for (bool lazy : {false, true}) X.run("writing through back edges", [&] {
    GR B(A0); back_edge_range<GR> R(B, lazy); std::map<E2, std::vector<long>> val; for (int i = 0; i < g.n; ++i) for (auto&& e : B[i]) val[{i, int(std::get<0>(e))}] = {long(std::get<1>(e)), long(std::get<2>(e))};
    bool par = E.size() != g.e.size(); if (par) return;
    for (int u = 0; u < g.n; ++u) for (auto&& e : B[u]) { int v = int(std::get<0>(e)); auto b = R.get_back_edge(u, v); std::get<2>(b) += 5; std::get<1>(b) += 1; if (E.count({v, u})) { val[{v, u}][1] += 5; val[{v, u}][0] += 1; } }
    for (int i = 0; i < g.n; ++i) for (auto&& e : B[i]) { E2 k{i, int(std::get<0>(e))}; X.check(long(std::get<1>(e)) == val[k][0] && long(std::get<2>(e)) == val[k][1], "written", [&] { return "edge " + str(k[0]) + "," + str(k[1]); }); }
    if (lazy) for (auto& e : E) if (!E.count({e[1], e[0]})) { auto b = R.get_back_edge(e[0], e[1]); X.check(long(std::get<2>(b)) == 5 && long(std::get<1>(b)) == 1, "extra-edge-keeps-its-value"); }
  });
}
void mc_main(Ctx& X) {
  X.section("edge sequences over 3 vertices");
  for (int k = 0; k <= (X.thorough ? 6 : 5); ++k) each_edge_seq(3, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<double, double>(X, g, k < 5); if (k < 4) { go<int>(X, g, true); go<short, unsigned char>(X, g, true); } }); });
  X.section("digraphs on 4 vertices, with loops");
  each_digraph(4, X.thorough, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<double, double>(X, g, true); }); });
  each_digraph(3, true, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<int, int>(X, g, true); }); });
  if (X.thorough) { X.section("digraphs on 5 vertices"); each_digraph(5, false, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<double, double>(X, g, false); }); }); }
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) if (n <= 130) for (auto& f : families(n)) if (f.e.size() < 3000) X.state([&] { return f.desc(); }, [&] { go<double, double>(X, f, false); });
  X.section("large sizes");
  for (auto& f : huge(true, {1025})) X.state([&] { return f.desc(); }, [&] { go<double, double>(X, f, false); });
}
