#pragma once
#include "core.hpp"
#include "graphs.hpp"
#include <nwgraph/adjacency.hpp>
#include <nwgraph/build.hpp>
#include <nwgraph/edge_list.hpp>
using namespace nw::graph;
using nw::graph::directedness;
constexpr auto DIR = directedness::directed;
constexpr auto UND = directedness::undirected;

// multiset of neighbours with attributes, per row
using Row  = std::vector<std::vector<long>>;    // each neighbour: {target, attrs...}
using Rows = std::vector<Row>;
inline std::string showrows(const Rows& r) {
  std::string s;
  for (size_t i = 0; i < r.size() && i < 40; ++i) { s += std::to_string(i) + ":"; for (auto& t : r[i]) { s += "("; for (auto x : t) s += std::to_string(x) + " "; s += ")"; } s += "; "; }
  return s;
}
template <class... A> auto mk_attr(int k) { return std::tuple<A...>{A(100 + k)...}; }
template <class EL> void el_push(EL& el, int i, int j, int k) {
  using attrs = typename EL::attributes_t;
  std::apply([&]<class... A>(A... dummy) {
    int c = 0;
    auto val = [&]<class T>(T) { ++c; return T(1000 * c + k); };
    std::tuple<A...> t{val(dummy)...};
    std::apply([&](auto... a) { if constexpr (requires { typename EL::element; }) { if (k % 3 == 1) { el.push_back(typename EL::element(i, j, a...)); return; } } el.push_back(i, j, a...); }, t);    // fields or whole records
  }, attrs{});
}
// attributes attached to record k by el_push
inline std::vector<long> attr_of(int k, int nattr) { std::vector<long> v; for (int c = 1; c <= nattr; ++c) v.push_back(1000L * c + k); return v; }
template <class EL> void el_fill(EL& el, const mc::G& g) {
  el.open_for_push_back();
  for (size_t k = 0; k < g.e.size(); ++k) el_push(el, g.e[k][0], g.e[k][1], int(k));
  el.close_for_push_back();
}
inline size_t el_n(const mc::G& g) { int m = 0; for (auto& e : g.e) m = std::max(m, std::max(e[0], e[1]) + 1); return m; }
template <class T> std::vector<long> tup(const T& t) { return std::apply([](auto&&... x) { return std::vector<long>{long(x)...}; }, t); }
template <class R> Row read_row(R&& r) { Row o; for (auto&& e : r) o.push_back(tup(e)); return o; }
inline Row sorted(Row r) { std::sort(r.begin(), r.end()); return r; }
// reference CSR rows of an edge sequence
inline Rows ref_rows(const mc::G& g, size_t n, int idx, bool undirected, int nattr) {
  Rows r(n);
  for (size_t k = 0; k < g.e.size(); ++k) {
    auto a = attr_of(int(k), nattr);
    std::vector<long> t{g.e[k][1 - idx]}; t.insert(t.end(), a.begin(), a.end());
    std::vector<long> u{g.e[k][idx]}; u.insert(u.end(), a.begin(), a.end());
    r[g.e[k][idx]].push_back(t);
    if (undirected) r[g.e[k][1 - idx]].push_back(u);
  }
  for (auto& x : r) std::sort(x.begin(), x.end());
  return r;
}
// a plain weighted CSR / vector graph from a G
template <class Gr> Gr vec_graph(const mc::G& g, bool undirected) {
  Gr r(g.n);
  for (auto& e : g.e) { r[e[0]].emplace_back(e[1]); if (undirected) r[e[1]].emplace_back(e[0]); }
  return r;
}
