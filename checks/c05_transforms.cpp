// Edge-list transformations against plain list operations.
#include "common.hpp"
using namespace mc;
static const std::string kPred = "predecessor", kSucc = "successor";
using Rec = std::vector<long>;
template <class EL> std::vector<Rec> recs(EL& el) { std::vector<Rec> r; for (auto&& e : el) r.push_back(tup(e)); return r; }
static std::string show(const std::vector<Rec>& v) { return showrows({v}); }
static std::vector<Rec> sortedv(std::vector<Rec> v) { std::sort(v.begin(), v.end()); return v; }

// ids: the vertex id to use in place of each vertex, when the list is not to be 0..n-1
template <class EL> void oneof(Ctx& X, const G& g, const std::vector<unsigned long>& ids, const char* nm) {
  constexpr directedness D = EL::edge_directedness; using A0 = typename EL::attributes_t; const size_t N = ids.empty() ? g.n + 1 : *std::max_element(ids.begin(), ids.end()) + 1;
  EL el0(N);
  if (ids.empty()) el_fill(el0, g);
  else { el0.open_for_push_back(); for (size_t k = 0; k < g.e.size(); ++k) std::apply([&]<class... A>(A...) { using I = typename EL::vertex_id_type; int c = 0; auto val = [&]<class T>(T*) { return T(1000 * ++c + k); }; std::tuple<A...> t{val((A*)nullptr)...}; std::apply([&](auto... a) { el0.push_back(I(ids[g.e[k][0]]), I(ids[g.e[k][1]]), a...); }, t); }, A0{}); el0.close_for_push_back(); }
  const std::vector<Rec> r0 = recs(el0);
  if (!ids.empty()) for (size_t k = 0; k < r0.size(); ++k) X.check(r0.size() == g.e.size() && r0[k][0] == long(ids[g.e[k][0]]) && r0[k][1] == long(ids[g.e[k][1]]), "stored ids", [&] { return show(r0); });
  std::string s = std::string(D == UND ? "undirected" : "directed") + str(std::tuple_size_v<A0>) + nm + " ";
  auto nv = [&](EL& el) { X.check(el.num_vertices()[0] == N, "num-vertices-changed"); };
  auto sorts = [&]<int idx>(std::integral_constant<int, idx>) {
    constexpr int jdx = 1 - idx;
    auto key1 = [](const Rec& a, const Rec& b) { return a[idx] < b[idx]; };
    auto key2 = [](const Rec& a, const Rec& b) { return std::tie(a[idx], a[jdx]) < std::tie(b[idx], b[jdx]); };
    auto st1 = r0, st2 = r0; std::stable_sort(st1.begin(), st1.end(), key1); std::stable_sort(st2.begin(), st2.end(), key2);
    std::string t = s + "idx=" + str(idx) + " ";
    X.run(t + "sort_by", [&] { EL el(el0); sort_by<idx>(el); auto r = recs(el); X.check(std::is_sorted(r.begin(), r.end(), key1), "order", [&] { return show(r); }); X.check(sortedv(r) == sortedv(r0), "records", [&] { return show(r); }); nv(el); });
    X.run(t + "stable_sort_by", [&] { EL el(el0); stable_sort_by<idx>(el); auto r = recs(el); X.check(r == st1, "stable", [&] { return show(r) + " expected " + show(st1); }); nv(el); });
    X.run(t + "lexical_sort_by", [&] { EL el(el0); lexical_sort_by<idx>(el); auto r = recs(el); X.check(std::is_sorted(r.begin(), r.end(), key2), "order", [&] { return show(r); }); X.check(sortedv(r) == sortedv(r0), "records", [&] { return show(r); }); nv(el); });
    X.run(t + "lexical_stable_sort_by", [&] { EL el(el0); lexical_stable_sort_by<idx>(el); auto r = recs(el); X.check(r == st2, "stable", [&] { return show(r) + " expected " + show(st2); }); nv(el); });
    X.run(t + "lexical sort + uniq", [&] {
      EL el(el0); lexical_stable_sort_by<idx>(el); uniq(el); auto r = recs(el);
      auto u = st2; u.erase(std::unique(u.begin(), u.end(), [](const Rec& a, const Rec& b) { return a[0] == b[0] && a[1] == b[1]; }), u.end());
      X.check(r == u, "uniq", [&] { return show(r) + " expected " + show(u); }); X.check(el.size() == u.size() && size_t(num_edges(el)) == u.size(), "uniq-size"); nv(el);
      EL e2(el0); lexical_sort_by<idx>(e2); uniq(e2); auto q = recs(e2); X.check(q.size() == u.size(), "uniq-count", [&] { return show(q); }); for (size_t i = 0; i < q.size(); ++i) X.check(q[i][0] == u[i][0] && q[i][1] == u[i][1], "uniq-pairs");
    });
    X.run(t + "swap_to_triangular", [&] {
      for (int how = 0; how < 6; ++how) {
        bool pred = how % 2 == 0;
        EL el(el0);
        switch (how) {
          case 0: swap_to_triangular<idx, EL, succession::predecessor>(el); break;
          case 1: swap_to_triangular<idx, EL, succession::successor>(el); break;
          case 2: swap_to_triangular<idx>(el, kPred); break;
          case 3: swap_to_triangular<idx>(el, kSucc); break;
          case 4: swap_to_triangular<idx>(el, succession::predecessor); break;
          case 5: swap_to_triangular<idx>(el, succession::successor); break;
        }
        auto r = recs(el), w = r0;
        for (auto& x : w) { long lo = std::min(x[0], x[1]), hi = std::max(x[0], x[1]); x[idx] = pred ? hi : lo; x[jdx] = pred ? lo : hi; }
        X.check(r == w, "triangular", [&] { return show(r) + " expected " + show(w); }); nv(el);
      }
    });
    if (ids.empty()) X.run(t + "degrees", [&] {
      auto d = degrees<idx>(el0); std::vector<long> w(g.n + 1, 0);
      for (auto& x : r0) { if (D == UND) { ++w[x[0]]; ++w[x[1]]; } else ++w[x[idx]]; }
      X.check(std::vector<long>(d.begin(), d.end()) == w, "degrees", [&] { return mc::show(d) + " expected " + mc::show(w); });
    });
  };
  sorts(std::integral_constant<int, 0>{}); sorts(std::integral_constant<int, 1>{});
  X.run(s + "remove_self_loops", [&] { EL el(el0); remove_self_loops(el); auto w = r0; w.erase(std::remove_if(w.begin(), w.end(), [](const Rec& x) { return x[0] == x[1]; }), w.end()); auto r = recs(el); X.check(r == w, "self-loops", [&] { return show(r) + " expected " + show(w); }); nv(el); });
  X.run(s + "triangular pipeline", [&] {
    // the usual clean-up: triangularise, drop loops, sort, unique
    EL el(el0); swap_to_triangular<0>(el, kSucc); remove_self_loops(el); lexical_sort_by<0>(el); uniq(el);
    std::set<std::pair<long, long>> w; for (auto& x : r0) if (x[0] != x[1]) w.insert({std::min(x[0], x[1]), std::max(x[0], x[1])});
    auto r = recs(el); X.check(r.size() == w.size(), "pipeline-size", [&] { return show(r); }); size_t i = 0; for (auto& p : w) { X.check(r[i][0] == p.first && r[i][1] == p.second, "pipeline"); ++i; }
    std::set<std::tuple<long, long, long>> have; for (auto& y : r0) if (y.size() > 2) have.insert({y[2], std::min(y[0], y[1]), std::max(y[0], y[1])});
    for (auto& x : r) if (x.size() > 2) X.check(have.count({x[2], std::min(x[0], x[1]), std::max(x[0], x[1])}), "pipeline-attr");
  });
}
template <directedness D, class... A> void one(Ctx& X, const G& g) { oneof<edge_list<D, A...>>(X, g, {}, ""); }
template <class I, directedness D, class... A> using ELi = index_edge_list<I, unipartite_graph_base, D, A...>;
void mc_main(Ctx& X) {
  auto go = [&](const G& g, std::vector<int> pols) { X.state([&] { return g.desc(); }, [&] { for (int p : pols) { rt::policy = p; one<DIR>(X, g); one<UND, int>(X, g); } if (g.e.size() < 60000) one<DIR, double, unsigned short>(X, g); }); };
  X.section("edge sequences over 3 vertices");
  for (int k = 0; k <= (X.thorough ? 5 : 4); ++k) each_edge_seq(3, 3, k, [&](const G& g) { go(g, k < 4 ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{3}); });
  X.section("edge sequences over 2 vertices");
  for (int k = 4; k <= 6; ++k) each_edge_seq(2, 2, k, [&](const G& g) { go(g, {2}); });
  X.section("vertex ids across the whole range of each id type");
  for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(4, 4, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] {
    rt::policy = k % 4; constexpr auto M = 1ul;
    oneof<ELi<std::uint8_t, DIR>>(X, g, {0, 127, 128, 254}, " 8-bit ids"); oneof<ELi<std::uint16_t, UND, short>>(X, g, {255, 256, 32768, 65534}, " 16-bit ids"); oneof<ELi<std::uint32_t, DIR, long>>(X, g, {1, 65536, M << 31, (M << 32) - 2}, " 32-bit ids");
    oneof<ELi<std::uint64_t, DIR, int>>(X, g, {M, M << 32, (M << 32) + 1, M << 62}, " 64-bit ids"); oneof<ELi<std::uint64_t, UND>>(X, g, {(M << 31) - 1, M << 31, (M << 53) + 1, M << 53}, " 64-bit ids");
  }); });
  X.section("size sweep");
  for (int n : sweep_sizes(true)) for (auto& f : families(n)) {
    if (!X.thorough && f.e.size() > 1200) continue;
    G s = f; for (size_t i = 0; i < s.e.size(); i += 3) s.e.push_back(s.e[(i * 5) % s.e.size()]), i += s.e.size() > 3000 ? 100 : 0; if (s.e.size() > 4) { s.e[3][1] = s.e[3][0]; s.e[1][0] = s.e[1][1]; }
    for (size_t i = 0; i < s.e.size(); ++i) { std::swap(s.e[i], s.e[(i * 7 + 3) % s.e.size()]); if (i & 1) std::swap(s.e[i][0], s.e[i][1]); } s.tag += "-mixed"; go(s, {0, 3});
    go(f, {2});
  }
  X.section("large sizes");
  for (auto& f : huge(true, {1025, 4097, 66000})) go(f, {2});
}
