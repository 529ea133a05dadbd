// Every edge sequence -> compressed adjacency: rows, counts, attributes, iteration.
#include "common.hpp"
using namespace mc;

// the row iterators are random access, mutable and const alike; the rest of the interface says the same as the rows
template <class A> void iterators(Ctx& X, A& a, const Rows& ref) {
  const A& c = a; const long n = long(ref.size());
  auto at = [&](auto& r, long v) { Row x = sorted(read_row(r)); return v >= 0 && v < n && x == ref[v]; };
  auto sweep = [&](auto b, auto e, const char* w) {
    using It = decltype(b); using D = typename It::difference_type;
    for (long v = 0; v <= n; ++v) {
      const It p = b + D(v); It q = b; q += D(v); It r = e - D(n - v), s = e; s -= D(n - v); const It t = D(v) + b;
      X.check(p == q && p == r && p == s && p == t && !(p != q) && long(p - b) == v && long(e - p) == n - v && long(b - p) == -v, w, [&] { return "position " + str(v); });
      for (long u = 0; u <= n; ++u) { if (n > 8 && u != v + 1 && u != v - 1 && u != v) continue; const It z = b + D(u);
        X.check((p < z) == (v < u) && (p <= z) == (v <= u) && (p > z) == (v > u) && (p >= z) == (v >= u) && (p == z) == (v == u) && (p != z) == (v != u) && long(p - z) == v - u, w, [&] { return "comparison of " + str(v) + " and " + str(u); }); }
      if (v < n) { It k = p; auto o = k++; X.check(o == p && k == p + D(1), w, [&] { return "it++ at " + str(v); }); auto o2 = k--; X.check(o2 == p + D(1) && k == p, w, [&] { return "it-- at " + str(v); }); It& f = ++k; X.check(&f == &k && k - p == 1, w); It& h = --k; X.check(&h == &k && k == p, w);
        auto r1 = *p, r2 = *k, r3 = b[v], r4 = p[0]; X.check(at(r1, v) && at(r2, v) && at(r3, v) && at(r4, v) && k->size() == ref[v].size() && p->size() == ref[v].size(), w, [&] { return "row at " + str(v); }); }
    }
    if (n) { auto k = e; long v = n; do { --k; --v; auto r = *k; X.check(at(r, v), w, [&] { return "downward row " + str(v); }); } while (v); X.check(k == b, w); }
  };
  sweep(a.begin(), a.end(), "row iterator"); sweep(c.begin(), c.end(), "const row iterator"); sweep(c.cbegin(), c.cend(), "const row iterator");
  typename A::const_outer_iterator conv = a.begin(), asg; asg = a.end(); X.check(conv == c.begin() && asg == c.end() && long(asg - conv) == n, "const from mutable row iterator");
  for (long v = 0; v < n; ++v) { auto r = conv[v]; X.check(at(r, v), "const from mutable row iterator", [&] { return "row " + str(v); }); }
  if (n) X.check(long(c.max()) == n - 1, "max", [&] { return str(c.max()); });
  auto ind = c.get_indices(); auto tgt = c.get_to_be_indexed(); size_t slot = 0; bool ok = long(ind.size()) == n + 1 && ind[0] == 0;
  for (long v = 0; ok && v < n; ++v) { Row r; for (; slot < size_t(ind[v + 1]); ++slot) r.push_back(tup(tgt[slot])); ok = sorted(r) == ref[v]; }
  X.check(ok && tgt.size() == slot, "stored arrays");
  slot = 0; for (long v = 0; v < n; ++v) for (size_t k = 0; k < ref[v].size(); ++k, ++slot) X.check(long(a.source(slot)) == v, "source-of-slot (mutable)", [&] { return "slot " + str(slot); });
  auto ds = c.degrees(std::execution::seq); for (long v = 0; v < n; ++v) X.check(ds[v] == typename A::index_t(ref[v].size()), "degrees with a policy", [&] { return "vertex " + str(v); });
}

template <class A> void inspect(Ctx& X, A& a, const Rows& ref, bool sorted_rows, size_t m) {
  const A& c = a;
  const size_t n = ref.size();
  X.check(c.size() == n, "size", [&] { return "size()=" + str(c.size()) + " expected " + str(n); });
  X.check(c.num_vertices()[0] == n, "num_vertices", [&] { return str(c.num_vertices()[0]); });
  X.check(size_t(num_vertices(c)) == n, "num_vertices_cpo");
  X.check(size_t(c.num_edges()) == m, "num_edges", [&] { return str(c.num_edges()) + " expected " + str(m); });
  X.check(size_t(a.end() - a.begin()) == n, "row-count", [&] { return "end()-begin()=" + str(a.end() - a.begin()) + " rows, expected " + str(n); });
  X.check(size_t(c.cend() - c.cbegin()) == n, "row-count-const");
  size_t i = 0, tot = 0;
  for (auto&& row : a) {
    X.check(i < n, "too-many-rows");
    Row got = read_row(row);
    if (sorted_rows) {
      bool asc = true;
      for (size_t k = 1; k < got.size(); ++k) asc &= got[k - 1][0] <= got[k][0];
      X.check(asc, "row-not-sorted", [&] { return "row " + str(i); });
    }
    tot += got.size();
    X.check(sorted(got) == ref[i], "row", [&] { return "row " + str(i) + " of [" + showrows({got}) + "] expected [" + showrows({ref[i]}) + "]"; });
    ++i;
  }
  X.check(i == n && tot == m, "iteration-total", [&] { return str(i) + " rows, " + str(tot) + " entries"; });
  for (size_t v = 0; v < n; ++v) {
    X.check(sorted(read_row(c[v])) == ref[v], "row-by-index-const");
    X.check(size_t(degree(c, v)) == ref[v].size() && size_t(degree(c[v])) == ref[v].size(), "degree", [&] { return "vertex " + str(v); });
    X.check(size_t(c[v].size()) == ref[v].size() && c[v].empty() == ref[v].empty(), "row-size");
  }
  auto it = a.begin();
  for (size_t v = 0; v < n; ++v, ++it) {
    X.check(sorted(read_row(*(a.begin() + v))) == ref[v] && sorted(read_row(a.begin()[v])) == ref[v], "row-by-iterator");
    X.check(it == a.begin() + v && it - a.begin() == long(v) && (v == 0 || a.begin() < it), "iterator-arith");
  }
  auto dg = degrees(c);
  X.check(dg.size() == n, "degrees-size");
  for (size_t v = 0; v < n; ++v) if (ref[v].size() <= std::numeric_limits<typename A::vertex_id_type>::max()) /* degrees() counts in the id type */ X.check(size_t(dg[v]) == ref[v].size(), "degrees", [&] { return "vertex " + str(v) + ": " + str(dg[v]) + " expected " + str(ref[v].size()); });
  // slot -> owning vertex
  size_t slot = 0;
  for (size_t v = 0; v < n; ++v) for (size_t k = 0; k < ref[v].size(); ++k, ++slot)
    X.check(size_t(c.source(slot)) == v, "source-of-slot", [&] { return "slot " + str(slot) + " -> " + str(c.source(slot)) + " expected " + str(v); });
}

template <class V, class I, int idx, directedness D, class... A> void onet(Ctx& X, const G& g, int declared, int how) {
  using EL = index_edge_list<V, unipartite_graph_base, D, A...>; constexpr bool usual = std::is_same_v<V, default_vertex_id_type> && std::is_same_v<I, default_index_t>;
  EL el(declared);
  el_fill(el, g);
  size_t n = std::max<size_t>(el_n(g), declared);
  Rows ref = ref_rows(g, n, idx, D == UND, sizeof...(A));
  size_t m = g.e.size() * (D == UND ? 2 : 1);
  auto rebuilt = [&](auto& a, bool s) {
    inspect(X, a, ref, s, m);
    // the edge list itself is left as it was
    size_t k = 0;
    X.check(el.size() == g.e.size(), "edge-list-size-changed");
    for (auto&& e : el) { auto t = tup(e); X.check(t[0] == g.e[k][0] && t[1] == g.e[k][1], "edge-list-changed"); ++k; }
  };
  using ADJ = index_adjacency<idx, I, V, A...>;
  switch (how) {
    case 0: X.run("ctor(el)", [&] { ADJ a(el); rebuilt(a, false); if (rt::policy == 0 && (n <= 12 || n % 50 == 0)) iterators(X, a, ref); }); break;
    case 1: X.run("ctor(el,sort)", [&] { if constexpr (sizeof...(A) == 0) { ADJ a(el, true); rebuilt(a, true); } else { ADJ a(el, true); rebuilt(a, true); } }); break;
    case 2: X.run("ctor(el,seq)", [&] { ADJ a(el, false, std::execution::seq); rebuilt(a, false); }); break;
    case 3: X.run("fill", [&] { ADJ a(n); fill<idx>(el, a); rebuilt(a, false); ADJ b; fill<idx>(el, b, true); rebuilt(b, true); }); break;
    case 4: X.run("ctor(N,el)", [&] {
      ADJ a(n, el); rebuilt(a, false);
      Rows more = ref; more.resize(n + 3); ADJ b(n + 3, el); inspect(X, b, more, false, m); ADJ c(n + 3, el, true); inspect(X, c, more, true, m);
    }); break;
    case 5: X.run("copy/move", [&] {
      ADJ a(el); ADJ b(a); rebuilt(b, false); ADJ c; c = a; rebuilt(c, false); ADJ d(std::move(b)); rebuilt(d, false);
      ADJ e(3); e = std::move(c); rebuilt(e, false); rebuilt(a, false);
    }); break;
    case 6: if constexpr (std::is_same_v<V, I>) X.run("ctor(vectors)", [&] {
      // the row arrays the model prescribes, handed over directly
      std::vector<V> ind{0}, tgt; std::tuple<std::vector<A>...> at;
      for (auto& r : ref) { for (auto& t : r) { tgt.push_back(t[0]); size_t c = 1; std::apply([&](auto&... v) { (v.push_back(t[c++]), ...); }, at); } ind.push_back(tgt.size()); }
      std::apply([&](auto&... v) { ADJ a(ind, tgt, v...); inspect(X, a, ref, true, m); auto i2 = ind; auto t2 = tgt; ADJ b(std::move(i2), std::move(t2), std::vector(v)...); inspect(X, b, ref, true, m); }, at);
      auto all = std::apply([&](auto&... v) { return std::make_tuple(tgt, v...); }, at);
      ADJ c(ind, all); inspect(X, c, ref, true, m);
      ADJ d(std::move(ind), std::move(all)); inspect(X, d, ref, true, m);
    }); break;
    case 7: X.run("push_back", [&] {
      // ordered direct insertion, closed at the end
      ADJ a(n); a.open_for_push_back();
      for (size_t v = 0; v < n; ++v) for (auto& t : ref[v]) {
        size_t c = 1; std::tuple<A...> at; std::apply([&](auto&... x) { ((x = t[c++]), ...); }, at);
        std::apply([&](auto... x) { a.push_back(v, t[0], x...); }, at);
      }
      a.close_for_push_back(); inspect(X, a, ref, true, m);
      // the same, onto an empty graph that grows: rows up to the last non-empty one
      Rows r2 = ref; while (!r2.empty() && r2.back().empty()) r2.pop_back();
      if (r2.empty()) return;
      ADJ b; b.open_for_push_back();
      for (size_t v = 0; v < n; ++v) for (auto& t : ref[v]) {
        size_t c = 1; std::tuple<A...> at; std::apply([&](auto&... x) { ((x = t[c++]), ...); }, at);
        std::apply([&](auto... x) { b.push_back(v, t[0], x...); }, at);
      }
      b.close_for_push_back(); inspect(X, b, r2, true, m);
    }); break;
    case 8: if constexpr (sizeof...(A) == 0 && usual) X.run("make_adjacency", [&] { auto a = make_adjacency<idx>(el); rebuilt(a, false);
      for (size_t k : {0, 3}) for (bool und : {false, true}) { Rows r = ref_rows(g, n, idx, und, 0); r.resize(n + k); auto b = make_adjacency<idx>(el, n + k, und ? UND : DIR); inspect(X, b, r, false, g.e.size() * (und ? 2 : 1)); if (!und) { auto c = make_adjacency<idx>(el, n + k); inspect(X, c, r, false, g.e.size()); } } }); break;
    case 9: X.run("fill(directedness)", [&] {    // whatever the list calls itself, it is filled as asked
      for (bool und : {false, true}) for (bool sort : {false, true}) { Rows r = ref_rows(g, n, idx, und, sizeof...(A)); ADJ a(n); size_t k = fill<idx>(el, a, und ? UND : DIR, sort); X.check(k == g.e.size() * (und ? 2 : 1), "entries filled"); inspect(X, a, r, sort, k); } }); break;
  }
}
template <int idx, directedness D, class... A> void one(Ctx& X, const G& g, int declared, int how) { onet<default_vertex_id_type, default_index_t, idx, D, A...>(X, g, declared, how); }
#ifndef PART
#define PART 0
#endif
#if PART == 0
#define ATTRS
#elif PART == 1
#define ATTRS , int
#else
#define ATTRS , double, unsigned short
#endif
static void all(Ctx& X, const G& g, int declared, int how, int which) {
  if (which & 1) one<0, DIR ATTRS>(X, g, declared, how);
  if (which & 2) one<1, DIR ATTRS>(X, g, declared, how);
  if (which & 4) one<0, UND ATTRS>(X, g, declared, how);
  if (which & 8) one<1, UND ATTRS>(X, g, declared, how);
}

#if PART == 3
template <class V, class I> void types(Ctx& X, const char* t) {
  constexpr long vmax = std::min<uint64_t>(std::numeric_limits<V>::max() - 1, 66000), imax = std::min<uint64_t>(std::numeric_limits<I>::max(), 200000);    // the counts have to fit the types
  auto go = [&](const G& g, std::vector<int> pols, std::vector<int> decl, bool big) { if (g.n > vmax || long(g.e.size()) * 2 > imax) return;
    X.state([&] { return std::string(t) + " " + g.desc(); }, [&] { for (int p : pols) { rt::policy = p; for (int d : decl) for (int how : big ? std::vector<int>{0, 1, 9} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 9}) { if (d > vmax) continue;
      onet<V, I, 0, DIR>(X, g, d, how); onet<V, I, 1, UND>(X, g, d, how); if (big && p) continue; onet<V, I, 1, DIR, int>(X, g, d, how); if (g.e.size() < 30000) onet<V, I, 0, UND, double, unsigned short>(X, g, d, how); } } }); };
  X.section("edge sequences over 3 vertices, other id and index types"); for (int k = 0; k <= (X.thorough ? 3 : 2); ++k) each_edge_seq(3, 3, k, [&](const G& g) { go(g, {k % 4}, {0, 5}, false); });
  X.section("size sweep, other id and index types"); for (int n : sweep_sizes(X.thorough)) if (n < 5 || n % 3 == 0 || n > 60) for (auto& f : families(n)) if (f.e.size() < (X.thorough ? 40000u : 1200u)) go(f, {n % 4}, {0}, true);
  X.section("more edges than the id type counts"); for (int n : {1, 2, 3, 10, 100, 250}) for (int m : {100, 127, 128, 129, 254, 255, 256, 257, 300, 600, 1000, 32767, 32768, 65535, 65536, 66000, 70000}) { if (!X.thorough && m > 1000 && (m != 66000 || sizeof(V) != 2 || n < 3 || n > 10)) continue; G g; g.n = n; g.tag = str(n) + " vertices, " + str(m) + " edges"; for (int i = 0; i < m; ++i) g.e.push_back({i % n, (i * 7 + i / n) % n}); go(g, {m % 4}, {0}, m > 2000); }
}
#endif
void mc_main(Ctx& X) {
#if PART == 3
  types<uint8_t, uint16_t>(X, "8/16"); types<uint8_t, uint32_t>(X, "8/32"); types<uint16_t, uint32_t>(X, "16/32"); types<uint16_t, uint64_t>(X, "16/64"); types<uint32_t, uint64_t>(X, "32/64"); types<uint64_t, uint32_t>(X, "64/32"); types<uint64_t, uint64_t>(X, "64/64"); types<uint32_t, uint16_t>(X, "32/16");
#else
  auto go = [&](const G& g, std::vector<int> decl, std::vector<int> pols, bool big = false) {
    X.state([&] { return g.desc(); }, [&] {
      for (int p : pols) {
        rt::policy = p;
        for (int d : decl) for (int how = 0; how < 10; ++how) if (!big || p == pols[0] || how < 2) all(X, g, d, how, big && how > 1 ? (how & 1 ? 9 : 6) : 15);
      }
    });
  };
  X.section("edge sequences over 3 vertices");
  for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g) { go(g, k <= 2 ? std::vector<int>{0, 5} : std::vector<int>{0}, k <= 2 ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{3}); });
  X.section("edge sequences over 2 vertices");
  for (int k = 4; k <= (X.thorough ? 6 : 5); ++k) each_edge_seq(2, 2, k, [&](const G& g) { go(g, {0}, {k % 2 ? 1 : 2}); });
  if (X.thorough) { X.section("digraphs on 4 vertices"); each_digraph(4, false, [&](const G& g) { go(g, {0, 7}, {1}); }); }
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) {
    if (!X.thorough && f.e.size() > 1500 && n != 100) continue;
    go(f, {0}, {0, 3}, true);
    if (!X.thorough && n % 3) continue;
    G r = f; std::reverse(r.e.begin(), r.e.end()); r.tag += "-reversed"; go(r, {0}, {1}, true);
    G s = f; for (size_t i = 0; i < s.e.size(); ++i) std::swap(s.e[i], s.e[(i * 7 + 3) % s.e.size()]); for (size_t i = 0; i < s.e.size(); i += 2) std::swap(s.e[i][0], s.e[i][1]); s.tag += "-mixed"; go(s, {n + 3}, {2}, true);
  }
  X.section("large sizes");
  for (auto& f : huge(true, {1025, 4097})) go(f, {0}, {2}, true);
#if PART < 2
  for (auto& f : huge(true, {66000})) X.state([&] { return f.desc(); }, [&] { rt::policy = 1; all(X, f, 0, 0, PART ? 6 : 9); });
#endif
#endif
}
