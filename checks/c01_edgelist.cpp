// Histories of edge-list operations against a plain list of records.
#include "common.hpp"
using namespace mc;

struct Model { size_t n[2] = {0, 0}; std::vector<std::vector<long>> rec; };

template <class EL> void inspect(Ctx& X, EL& el, const Model& m) {
  constexpr bool uni = is_unipartite<typename EL::graph_base>::value;
  const EL& c = el;
  auto lst = [&] { std::string s; for (auto& r : m.rec) { s += "("; for (auto x : r) s += str(x) + " "; s += ")"; } return s; };
  X.check(c.size() == m.rec.size() && size_t(c.num_edges()) == m.rec.size() && size_t(num_edges(c)) == m.rec.size(), "num-edges", [&] { return str(c.size()) + " for " + lst(); });
  if constexpr (uni) {
    X.check(c.num_vertices()[0] == m.n[0] && size_t(num_vertices(c)) == m.n[0], "num-vertices", [&] { return str(c.num_vertices()[0]) + " expected " + str(m.n[0]); });
  } else {
    X.check(c.num_vertices()[0] == m.n[0] && c.num_vertices()[1] == m.n[1] && size_t(num_vertices(c, 0)) == m.n[0] && size_t(num_vertices(c, 1)) == m.n[1], "num-vertices",
            [&] { return str(c.num_vertices()[0]) + "," + str(c.num_vertices()[1]) + " expected " + str(m.n[0]) + "," + str(m.n[1]); });
  }
  size_t k = 0;
  for (auto&& e : el) {
    X.check(k < m.rec.size() && tup(e) == m.rec[k], "iteration", [&] { return "record " + str(k) + " of " + lst(); });
    X.check(long(source(el, e)) == m.rec[k][0] && long(target(el, e)) == m.rec[k][1], "source-target");
    ++k;
  }
  X.check(k == m.rec.size(), "iteration-count", [&] { return str(k); });
  k = 0;
  for (auto&& e : c) { X.check(k < m.rec.size() && tup(e) == m.rec[k], "const-iteration"); ++k; }
  X.check(k == m.rec.size() && size_t(el.end() - el.begin()) == k && size_t(c.end() - c.begin()) == k, "const-iteration-count");
  for (k = 0; k < m.rec.size(); ++k) {
    X.check(tup(el[k]) == m.rec[k] && tup(c[k]) == m.rec[k] && tup(el.begin()[k]) == m.rec[k] && tup(*(el.end() - long(m.rec.size() - k))) == m.rec[k], "random-access", [&] { return "record " + str(k); });
  }
}
template <class EL> struct Machine {
  constexpr static bool uni = is_unipartite<typename EL::graph_base>::value;
  static constexpr int NA = std::tuple_size_v<typename EL::attributes_t>;
  EL el; Model m; bool fresh = true;
  static EL make(int d0, int d1) { if constexpr (uni) return EL(d0); else return EL(d0, d1); }
  Machine(int d0, int d1) : el(make(d0, d1)) { m.n[0] = d0; m.n[1] = uni ? 0 : d1; }
  void grow(int i, int j) { if (uni) m.n[0] = std::max<size_t>(m.n[0], std::max(i, j) + 1); else { m.n[0] = std::max<size_t>(m.n[0], i + 1); m.n[1] = std::max<size_t>(m.n[1], j + 1); } }
  void add(int i, int j, bool tuple) {
    int k = int(m.rec.size());
    auto a = attr_of(k, NA); std::vector<long> r{i, j}; r.insert(r.end(), a.begin(), a.end());
    if (!tuple) el_push(el, i, j, k);
    else { typename EL::element e; size_t c = 0; std::apply([&](auto&... x) { ((x = r[c++]), ...); }, e); el.push_back(e); }
    m.rec.push_back(r); grow(i, j);
  }
  void step(Ctx& X, int op) {
    switch (op) {
      case 0: add(0, 0, false); break;
      case 1: add(0, 2, true); break;
      case 2: add(3, 1, false); break;
      case 3: add(1, 0, false); break;
      case 4: el.close_for_push_back(); el.open_for_push_back(); break;
      case 5: { EL c(el); el = EL(make(0, 0)); el = c; X.check(el == c && !(el != c), "copy-equal"); break; }
      case 6: { EL c(std::move(el)); el = std::move(c); break; }
      case 7: { // a longer, a shorter and a changed list are all different from this one
        EL c(el); el_push(c, m.n[0] ? 0 : 0, 0, 77); X.check(m.rec.empty() || (!(c == el) && c != el && !(el == c)), "longer-not-equal");
        if (!m.rec.empty()) { EL d(el); std::get<1>(d[m.rec.size() - 1]) ^= 1; X.check(!(d == el), "changed-not-equal"); }
        break; }
      case 8: // overwrite through a reference
        if (!m.rec.empty()) { auto&& r = el[m.rec.size() / 2]; if constexpr (NA > 0) { std::get<2>(r) = 4321; m.rec[m.rec.size() / 2][2] = 4321; } else { std::get<0>(r) = 0; m.rec[m.rec.size() / 2][0] = 0; } }
        break;
      case 9: { // swap first and last record through the iterators
        if (m.rec.size() > 1) { auto a = el.begin(), b = el.end() - 1; typename EL::element t(*a); *a = typename EL::element(*b); *b = t; std::swap(m.rec.front(), m.rec.back()); }
        break; }
      case 10: el.clear(); m.rec.clear(); break;
      case 11: el.resize(m.rec.size() / 2); m.rec.resize(m.rec.size() / 2); break;
    }
    inspect(X, el, m);
  }
};
template <class EL> void hist(Ctx& X, const std::string& nm, const std::vector<int>& ops, int d0, int d1) {
  X.run(nm, [&] {
    Machine<EL> M(d0, d1); inspect(X, M.el, M.m);
    for (int op : ops) M.step(X, op);
    uint64_t h = 7; for (auto& r : M.m.rec) h = hmix(h, hash_all(r)); X.outcome(h);
  });
}
template <class EL> void big(Ctx& X, const std::string& nm, const G& g) {
  X.run(nm, [&] {
    Machine<EL> M(0, 0);
    for (size_t k = 0; k < g.e.size(); ++k) M.add(g.e[k][0], g.e[k][1], k & 1);
    M.el.close_for_push_back(); inspect(X, M.el, M.m);
    EL c(M.el); X.check(c == M.el, "copy-equal");
    for (size_t k = 0; k < g.e.size(); k += std::max<size_t>(1, g.e.size() / 40)) { EL d(M.el); std::get<1>(d[k]) ^= 1; X.check(!(d == M.el), "changed-not-equal"); }
    if constexpr (Machine<EL>::NA > 0) if (!g.e.empty()) { EL d(M.el); std::get<2>(d[g.e.size() - 1]) += 1; X.check(!(d == M.el), "attr-changed-not-equal"); }
    c.resize(g.e.size() / 2); Model h = M.m; h.rec.resize(g.e.size() / 2); inspect(X, c, h);
    X.check(g.e.empty() || !(c == M.el), "resized-not-equal");
    c.clear(); h.rec.clear(); inspect(X, c, h);
  });
}
// ids from the whole range of the id type
template <class EL> void wide(Ctx& X, const std::string& nm, const G& g, const std::vector<unsigned long>& ids) {
  X.run(nm, [&] {
    using I = typename EL::vertex_id_type; constexpr int NA = std::tuple_size_v<typename EL::attributes_t>; constexpr bool uni = is_unipartite<typename EL::graph_base>::value;
    EL el = Machine<EL>::make(0, 0); Model m;
    for (size_t k = 0; k < g.e.size(); ++k) {
      unsigned long u = ids[g.e[k][0]], v = ids[g.e[k][1]]; auto a = attr_of(int(k), NA); std::vector<long> r{long(u), long(v)}; r.insert(r.end(), a.begin(), a.end()); m.rec.push_back(r);
      if (k & 1) { typename EL::element e; std::apply([&](auto&... x) { size_t c = 0; ((x = r[c++]), ...); }, e); el.push_back(e); }
      else std::apply([&]<class... A>(A...) { int c = 0; auto val = [&]<class T>(T*) { return T(1000 * ++c + k); }; std::tuple<A...> t{val((A*)nullptr)...}; std::apply([&](auto... x) { el.push_back(I(u), I(v), x...); }, t); }, typename EL::attributes_t{});
      if (uni) m.n[0] = std::max({m.n[0], u + 1, v + 1}); else { m.n[0] = std::max(m.n[0], u + 1); m.n[1] = std::max(m.n[1], v + 1); }
      inspect(X, el, m);
    }
    EL c(el); X.check(c == el, "copy-equal"); X.outcome(hmix(m.n[0], m.n[1]));
  });
}
template <class EL> void init_list(Ctx& X) {
  X.run("initializer-list", [&] {
    using E = typename EL::element; constexpr int NA = std::tuple_size_v<typename EL::attributes_t>;
    auto mk = [&](int i, int j, int k) { E e; auto a = attr_of(k, NA); std::vector<long> r{i, j}; r.insert(r.end(), a.begin(), a.end()); size_t c = 0; std::apply([&](auto&... x) { ((x = r[c++]), ...); }, e); return std::pair(e, r); };
    auto [e0, r0] = mk(1, 4, 0); auto [e1, r1] = mk(0, 0, 1); auto [e2, r2] = mk(6, 2, 2);
    constexpr bool uni = Machine<EL>::uni;
    { EL el{e0}; Model m; m.rec = {r0}; m.n[0] = uni ? 5 : 2; m.n[1] = 5; inspect(X, el, m); }
    { EL el{e0, e1, e2}; Model m; m.rec = {r0, r1, r2}; m.n[0] = 7; m.n[1] = 5; inspect(X, el, m); el.open_for_push_back(); }
  });
}
void mc_main(Ctx& X) {
  auto every = [&](const std::vector<int>& ops, int d0, int d1) {
    hist<edge_list<DIR>>(X, "directed", ops, d0, d1); hist<edge_list<UND, int>>(X, "undirected,int", ops, d0, d1);
    hist<edge_list<DIR, double, unsigned short>>(X, "directed,double,short", ops, d0, d1);
    hist<bi_edge_list<DIR>>(X, "bipartite", ops, d0, d1); hist<bi_edge_list<DIR, int>>(X, "bipartite,int", ops, d0, d1);
  };
  X.section("operation histories");
  for (int k = 0; k <= (X.thorough ? 5 : 4); ++k) each_seq(12, k, [&](const std::vector<int>& ops) {
    X.state([&] { return "ops=" + show(ops); }, [&] { every(ops, 0, 0); if (k <= 3) { every(ops, 3, 1); every(ops, 9, 9); } });
  });
  X.section("initializer lists");
  X.state([] { return std::string("1 and 3 records"); }, [&] { init_list<edge_list<DIR>>(X); init_list<edge_list<UND, int>>(X); init_list<bi_edge_list<DIR>>(X); init_list<bi_edge_list<DIR, int, double>>(X); });
  X.section("vertex ids across the whole range of each id type");
  for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(4, 4, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] {
    constexpr auto M = 1ul;
    wide<index_edge_list<std::uint8_t, unipartite_graph_base, DIR>>(X, "8-bit ids", g, {0, 127, 128, 254}); wide<index_edge_list<std::uint16_t, bipartite_graph_base, DIR, short>>(X, "bipartite 16-bit ids", g, {255, 256, 32768, 65534});
    wide<index_edge_list<std::uint32_t, unipartite_graph_base, UND, long>>(X, "32-bit ids", g, {1, 65536, M << 31, (M << 32) - 2}); wide<index_edge_list<std::uint64_t, unipartite_graph_base, DIR, int, short>>(X, "64-bit ids", g, {M, M << 32, (M << 32) + 1, M << 62});
    wide<index_edge_list<std::uint64_t, bipartite_graph_base, DIR>>(X, "bipartite 64-bit ids", g, {M << 31, M << 32, (M << 32) + 1, M << 53}); wide<index_edge_list<std::uint64_t, unipartite_graph_base, UND, float>>(X, "undirected 64-bit ids", g, {(M << 31) - 1, M << 31, (M << 53) + 1, M << 53});
  }); });
  X.section("size sweep");
  for (int n : sweep_sizes(true)) for (auto& f : families(n)) {
    if (f.e.size() > 3000) continue;
    X.state([&] { return f.desc(); }, [&] { big<edge_list<DIR>>(X, "directed", f); big<edge_list<UND, int>>(X, "undirected,int", f); big<bi_edge_list<DIR, double>>(X, "bipartite,double", f); });
  }
  X.section("large sizes");
  for (auto& f : huge(true, {1025, 4097, 66000})) X.state([&] { return f.desc(); }, [&] { big<edge_list<DIR>>(X, "directed", f); big<edge_list<UND, int>>(X, "undirected,int", f); big<bi_edge_list<DIR, double>>(X, "bipartite,double", f); });
}
