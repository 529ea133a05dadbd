// Binary serialization: what is read back equals what was written, for every container, into fresh and into used targets,
// through streams (several objects back to back) and files.
#include "common.hpp"
#include <nwgraph/containers/aos.hpp>
#include <sstream>
#include <fstream>
using namespace mc;
static const std::string F = "obj." + std::to_string(getpid());
template <class Gr> Rows rows_of(Gr& g) { Rows r; for (size_t i = 0; i < g.size(); ++i) r.push_back(read_row(g[i])); return r; }
template <class EL> Row recs(EL& e) { Row r; for (auto&& x : e) r.push_back(tup(x)); return r; }
static uint64_t hr(const Rows& r) { uint64_t h = r.size(); for (auto& a : r) { h = hmix(h, a.size()); for (auto& b : a) for (auto x : b) h = hmix(h, uint64_t(x)); } return h; }

template <class EL> void elist(Ctx& X, const G& g, EL mk(), const std::string& t, const std::vector<G>& olds) {
  EL e = mk(); el_fill(e, g); auto want = recs(e); auto nv = e.num_vertices();
  auto same = [&](EL& f, const char* how) {
    X.check(f.size() == want.size() && recs(f) == want, "records", [&] { return std::string(how) + showrows({recs(f)}) + " expected " + showrows({want}); });
    X.check(f.num_vertices() == nv, "vertex counts", [&] { return std::string(how) + str(f.num_vertices()[0]) + " expected " + str(nv[0]); });
    X.check(f == e, "not equal to the original", [&] { return std::string(how); }); X.outcome(hr({recs(f)}));
  };
  X.run(t + " stream", [&] {
    std::stringstream s; e.serialize(s); std::string once = s.str(); e.serialize(s); X.check(s.str() == once + once, "serializing twice writes different bytes");
    EL f, h; f.deserialize(s); h.deserialize(s); same(f, "first "); same(h, "second "); X.check(size_t(s.tellg()) == 2 * once.size() || s.eof(), "stream position"); X.check(recs(e) == want, "source changed");
    s.peek(); X.check(s.eof(), "bytes left over");
  });
  X.run(t + " file", [&] { e.serialize(std::string(F)); EL f = mk(); f.deserialize(std::string(F)); same(f, "file "); });
  for (auto& o : olds) X.run(t + " into a used list", [&] { EL f = mk(); el_fill(f, o); std::stringstream s; e.serialize(s); f.deserialize(s); same(f, "used "); });
  // the deserialized list can be extended like the original
  X.run(t + " then push_back", [&] { std::stringstream s; e.serialize(s); EL f = mk(), c = mk(); f.deserialize(s); el_fill(c, g); f.open_for_push_back(); c.open_for_push_back(); el_push(f, 1, 6, 77); el_push(c, 1, 6, 77); f.close_for_push_back(); c.close_for_push_back(); X.check(recs(f) == recs(c) && f.num_vertices() == c.num_vertices(), "extended list differs"); });
}
template <class A, class EL> void adjc(Ctx& X, const G& g, EL mk(), const std::string& t, const std::vector<G>& olds) {
  EL e = mk(); el_fill(e, g); A a(e); const A& ca = a; auto want = rows_of(a); auto nv = a.num_vertices();
  auto same = [&](A& b, const char* how) {
    X.check(b.size() == want.size(), "row count", [&] { return std::string(how) + str(b.size()) + " expected " + str(want.size()); });
    auto r = rows_of(b); X.check(r == want, "rows", [&] { return std::string(how) + showrows(r) + " expected " + showrows(want); });
    X.check(b.num_vertices() == nv && b.num_edges() == a.num_edges() && nw::graph::num_vertices(b) == nw::graph::num_vertices(a), "counts", [&] { return std::string(how); }); X.outcome(hr(r));
    size_t k = 0; for (auto i = b.begin(); i != b.end(); ++i, ++k) X.check(read_row(*i) == want[k], "iterated row"); X.check(k == want.size(), "iterated rows");
  };
  X.run(t + " file", [&] { a.serialize(std::string(F)); A b; b.deserialize(std::string(F)); same(b, "file "); X.check(rows_of(a) == want, "source changed"); });
  X.run(t + " const", [&] { if constexpr (requires { ca.serialize(std::string(F)); }) { ca.serialize(std::string(F)); A b; b.deserialize(std::string(F)); same(b, "const "); } });
  for (auto& o : olds) X.run(t + " into a used graph", [&] { EL q = mk(); el_fill(q, o); A b(q); a.serialize(std::string(F)); b.deserialize(std::string(F)); same(b, "used "); });
  X.run(t + " array of graphs", [&] {    // neighbours in memory must not be disturbed
    struct { A x; size_t guard; A y; size_t guard2; } m{A(), 0x5151515151515151ul, A(), 0x6262626262626262ul}; a.serialize(std::string(F)); m.x.deserialize(std::string(F)); m.y.deserialize(std::string(F));
    X.check(m.guard == 0x5151515151515151ul && m.guard2 == 0x6262626262626262ul, "memory next to the graph changed"); same(m.x, "x "); same(m.y, "y ");
  });
  X.run(t + " written twice", [&] { a.serialize(std::string(F)); std::string f1; { std::ifstream i(F.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); f1 = s.str(); } { volatile char junk[4096]; for (auto& c : junk) c = 0x7f; } a.serialize(std::string(F)); std::ifstream i(F.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); X.check(s.str() == f1, "two serializations of one graph differ"); });
}
template <class... At> void cols(Ctx& X, const G& g, const std::string& t) {
  struct_of_arrays<unsigned, At...> s; array_of_structs<unsigned, At...> v;
  auto mk = [&](size_t k, unsigned b) { int c = 0; auto val = [&]<class T>(T) { ++c; return T(20 * c + int(k)); }; return std::tuple<unsigned, At...>{unsigned(b), val(At{})...}; };
  for (size_t k = 0; k < g.e.size(); ++k) { s.push_back(mk(k, g.e[k][0] * 16 + g.e[k][1])); v.push_back(mk(k, g.e[k][0] * 16 + g.e[k][1])); }
  auto want = recs(s);
  X.run(t + " struct_of_arrays", [&] { std::stringstream o; s.serialize(o); s.serialize(o); for (size_t used : {0, 1, 7}) { if (used == 7) { o.str(""); o.clear(); s.serialize(o); } struct_of_arrays<unsigned, At...> r(used); r.deserialize(o); X.check(recs(r) == want && r == s, "columns", [&] { return "target size " + str(used) + ": " + showrows({recs(r)}); }); }
    s.serialize(std::string(F)); struct_of_arrays<unsigned, At...> r; r.deserialize(std::string(F)); X.check(recs(r) == want, "columns from file"); });
  X.run(t + " zipped vectors", [&] { std::vector<unsigned> k0; std::tuple<std::vector<At>...> cs; for (auto&& x : s) { k0.push_back(std::get<0>(x)); [&]<size_t... I>(std::index_sequence<I...>) { (std::get<I>(cs).push_back(std::get<I + 1>(x)), ...); }(std::index_sequence_for<At...>{}); }
    auto z = std::apply([&](auto&... c) { return make_zipped(k0, c...); }, cs); auto got = [](auto& q) { Row r; for (size_t i = 0; i < q.size(); ++i) r.push_back(tup(q[i])); return r; }; X.check(got(z) == want, "zipped records");
    std::stringstream o; z.serialize(o); std::string once = o.str(); z.serialize(o); X.check(o.str() == once + once, "serializing twice writes different bytes");
    for (size_t used : {0, 7}) { std::vector<unsigned> a(used); std::tuple<std::vector<At>...> b; std::apply([&](auto&... c) { (c.resize(used), ...); }, b); auto y = std::apply([&](auto&... c) { return make_zipped(a, c...); }, b); y.deserialize(o); X.check(got(y) == want && y.size() == want.size() && y == z, "zipped columns", [&] { return "into " + str(used) + " records " + showrows({got(y)}); }); std::apply([&](auto&... c) { X.check(((c.size() == want.size()) && ...), "column lengths"); }, b); }
    o.peek(); X.check(o.eof(), "bytes left over"); });
  X.run(t + " array_of_structs", [&] { std::stringstream o; v.serialize(o); v.serialize(o); for (size_t used : {0, 3}) { array_of_structs<unsigned, At...> r; r.resize(used); r.deserialize(o); X.check(recs(r) == want && r == v, "structs", [&] { return "target size " + str(used); }); }
    v.serialize(std::string(F)); array_of_structs<unsigned, At...> r; r.deserialize(std::string(F)); X.check(recs(r) == want, "structs from file"); });
}
template <class T> T mkd() { return T(0); }
template <class T> T mk5() { return T(5); }
template <class T> T mkb() { return T(0, 0); }
template <class T> T mkb4() { return T(2, 5); }
template <class I, class V, class... A> using ADJ0 = index_adjacency<0, I, V, A...>;
static void go(Ctx& X, const G& g, bool more) {
  using U = unipartite_graph_base; using B = bipartite_graph_base;
  std::vector<G> olds{g_path(2), g_clique(5)};
  elist<edge_list<DIR>>(X, g, mkd, "directed list", olds);
  elist<edge_list<UND, double>>(X, g, mk5, "undirected list with weights", olds);
  elist<bi_edge_list<DIR, int, char>>(X, g, mkb4, "bipartite list", olds);
  elist<index_edge_list<std::uint64_t, U, DIR, float>>(X, g, mkd, "list of 64 bit ids", {});
  adjc<adjacency<0>, edge_list<DIR>>(X, g, mkd, "adjacency<0>", olds);
  adjc<adjacency<1, double>, edge_list<UND, double>>(X, g, mk5, "adjacency<1, double>", olds);
  adjc<biadjacency<0, int>, bi_edge_list<DIR, int>>(X, g, mkb4, "biadjacency<0>", olds);
  if (more) {
    elist<edge_list<DIR, int, short, double>>(X, g, mk5, "list with three attributes", olds);
    elist<bi_edge_list<DIR>>(X, g, mkb, "bipartite list without attributes", olds);
    adjc<biadjacency<1>, bi_edge_list<DIR>>(X, g, mkb, "biadjacency<1>", olds);
    adjc<index_adjacency<0, std::uint64_t, std::uint32_t, short>, index_edge_list<std::uint32_t, U, DIR, short>>(X, g, mkd, "64 bit rows", olds);
    adjc<index_adjacency<0, std::uint32_t, std::uint64_t>, index_edge_list<std::uint64_t, U, UND>>(X, g, mk5, "64 bit vertices", olds);
    adjc<index_adjacency<1, std::uint16_t, std::uint16_t, double>, index_edge_list<std::uint16_t, U, DIR, double>>(X, g, mkd, "16 bit ids", olds);
    cols<>(X, g, "1 column"); cols<double>(X, g, "2 columns"); cols<char, int, double>(X, g, "4 columns");
  }
}
void mc_main(Ctx& X) {
  X.section("edge sequences over 3 vertices");
  for (int k = 0; k <= (X.thorough ? 5 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go(X, g, k < 4); }); });
  X.section("edge sequences over 2x3 vertices");
  for (int k = 0; k <= (X.thorough ? 5 : 4); ++k) each_edge_seq(2, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go(X, g, false); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) X.state([&] { return f.desc(); }, [&] { go(X, f, n < 40); });
  X.section("large sizes");
  for (auto& f : huge(true, {1025, 4097, 66000})) X.state([&] { return f.desc(); }, [&] { go(X, f, false); });
}
