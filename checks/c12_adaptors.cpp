// Range adaptors.  PART 0: what they enumerate.  PART 1: splitting a range partitions it, whatever the split history.
#include "common.hpp"
#include <nwgraph/vovos.hpp>
#include <nwgraph/volos.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/adaptors/random_range.hpp>
#include <nwgraph/adaptors/reverse.hpp>
#include <nwgraph/adaptors/worklist.hpp>
#include <nwgraph/adaptors/vertex_range.hpp>
#include <nwgraph/adaptors/cyclic_range_adaptor.hpp>
#include <nwgraph/adaptors/cyclic_neighbor_range.hpp>
#include <nwgraph/adaptors/splittable_range_adaptor.hpp>
#include <nwgraph/util/AtomicBitVector.hpp>
using namespace mc;
template <class E> std::vector<long> et(const E& e) { return std::apply([](auto&&... x) { return std::vector<long>{long(x)...}; }, e); }
// expected (u, v, selected attributes...) in row order
template <class Gr> std::vector<std::vector<long>> flat(Gr& A, const std::vector<int>& sel, size_t off = 0) {
  std::vector<std::vector<long>> r;
  for (size_t u = off; u < size_t(A.size()); ++u) for (auto&& e : A[u]) { auto t = tup(e); std::vector<long> x{long(u), t[0]}; for (int s : sel) x.push_back(t[1 + s]); r.push_back(x); }
  return r;
}
static std::string shw(const std::vector<std::vector<long>>& v) { std::string s; for (auto& x : v) { s += "("; for (long y : x) s += str(y) + " "; s += ")"; } return s; }
#if PART == 0
template <class R> void edges_eq(Ctx& X, R r, const std::vector<std::vector<long>>& want) {
  std::vector<std::vector<long>> got; size_t guard = 0;
  for (auto it = r.begin(); it != r.end(); ++it) { got.push_back(et(*it)); X.check(++guard <= want.size() + 3, "range does not end", [&] { return shw(got); }); }
  X.check(got == want, "edges", [&] { return shw(got) + " expected " + shw(want); });
  const R& c = r; got.clear(); for (auto it = c.begin(); !(it == c.end()); it++) { got.push_back(et(*it)); if (got.size() > want.size() + 3) break; } X.check(got == want, "edges (const, postfix)", [&] { return shw(got) + " expected " + shw(want); });
  X.check(r.empty() == want.empty() || !want.empty(), "empty");
  // positions are distinct and equality is positional
  std::vector<decltype(r.begin())> pos; for (auto it = r.begin(); it != r.end(); ++it) pos.push_back(it); pos.push_back(r.end());
  for (size_t i = 0; i < pos.size(); ++i) for (size_t j = 0; j < pos.size(); ++j) X.check((pos[i] == pos[j]) == (i == j), "iterator equality", [&] { return str(i) + " and " + str(j); });
  for (size_t i = 0; i + 1 < pos.size(); ++i) X.check(et(*pos[i]) == want[i], "multipass"); X.outcome(hash_all(want.empty() ? std::vector<long>{} : want.back()));
  if constexpr (requires { typename R::const_iterator; }) { }
}
template <class EL, class Ad> void graph_ranges(Ctx& X, const G& g, const char* t) {
  EL el(g.n); el_fill(el, g); Ad A(el); const Ad& K = A; std::string T = t; constexpr int NA = int(std::tuple_size_v<attributes_t<Ad>>);
  X.run(T + " edge_range", [&] { edges_eq(X, make_edge_range(A), flat(A, {})); edges_eq(X, make_edge_range(K), flat(A, {})); });
  if constexpr (NA > 0) X.run(T + " edge_range<0>", [&] { edges_eq(X, make_edge_range<0>(A), flat(A, {0})); edges_eq(X, make_edge_range<0>(K), flat(A, {0})); });
  if constexpr (NA > 1) X.run(T + " edge_range<0,1>", [&] { edges_eq(X, make_edge_range<0, 1>(A), flat(A, {0, 1})); edges_eq(X, make_edge_range<1>(A), flat(A, {1})); edges_eq(X, make_edge_range<1, 0>(A), flat(A, {1, 0})); });
  if constexpr (NA > 0) X.run(T + " writing through edge_range", [&] { Ad B(el); long k = 0; for (auto&& e : make_edge_range<0>(B)) { std::get<2>(e) = std::tuple_element_t<0, attributes_t<Ad>>(k % 100); ++k; } auto got = flat(B, {0}); X.check(long(got.size()) == k, "count"); for (long i = 0; i < k; ++i) X.check(got[i][2] == i % 100, "written attribute"); });
  for (size_t off = 0; off <= size_t(A.size()); ++off) {
    X.run(T + " offset ranges", [&] {
      edges_eq(X, make_edge_range(A, off), flat(A, {}, off));
      std::vector<long> us, want; std::vector<Row> rows; plain_range<Ad> p(A, off); for (auto&& [u] : p) us.push_back(long(u)); for (size_t u = off; u < size_t(A.size()); ++u) want.push_back(long(u)); X.check(us == want && p.size() == want.size() && p.empty() == want.empty(), "plain_range", [&] { return show(us); });
      neighbor_range<Ad> nr(A, off); size_t u = off; for (auto&& [v, row] : nr) { X.check(size_t(v) == u && read_row(row) == read_row(A[u]), "neighbor_range"); ++u; } X.check(u == size_t(A.size()) && nr.size() == want.size(), "neighbor_range length");
      const plain_range<const Ad> cp(K, off); us.clear(); for (auto&& [u] : cp) us.push_back(long(u)); X.check(us == want, "plain_range const");
      auto b = p.begin(); for (size_t i = 0; i <= want.size(); ++i) { X.check(size_t((b + i) - b) == i && ((b + i) == p.end()) == (i == want.size()), "plain_range arithmetic"); }
    });
  }
  X.run(T + " plain_degree_range", [&] { plain_degree_range<Ad> d(A); size_t u = 0; for (auto&& [v, k] : d) { X.check(size_t(v) == u && size_t(k) == size_t(std::distance(A[u].begin(), A[u].end())), "degree"); ++u; } X.check(u == size_t(A.size()) && d.size() == u, "length"); });
  bool sink = false; for (size_t u = 0; u < size_t(A.size()); ++u) sink = sink || A[u].begin() == A[u].end();
  if constexpr (requires { typename Ad::outer_iterator; }) if (!sink && A.size()) X.run(T + " random_range", [&] {
    for (unsigned seed : {1u, 7u, 2049u}) for (size_t first = 0; first < size_t(A.size()); ++first) for (size_t len : {0, 1, 2, 6}) {
      std::vector<long> w[2]; for (int k = 0; k < 2; ++k) { random_range<Ad> r(A, len, first, seed); for (auto it = r.begin(); it != r.end(); ++it) { w[k].push_back(long(*it)); if (w[k].size() > len) break; } }
      X.check(w[0].size() == len && (len == 0 || w[0][0] == long(first)), "walk length and start", [&] { return show(w[0]); }); X.check(w[0] == w[1], "same seed, different walk");
      for (size_t i = 1; i < len; ++i) { bool ok = false; for (auto&& e : A[w[0][i - 1]]) ok = ok || long(std::get<0>(e)) == w[0][i]; X.check(ok, "walk uses a non-edge", [&] { return show(w[0]); }); }
    }
  });
}
struct PE { unsigned predecessor; };
void mc_main(Ctx& X) {
  X.section("edge sequences over 3 vertices");
  for (int k = 0; k <= (X.thorough ? 5 : 4); ++k) each_edge_seq(3, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { graph_ranges<edge_list<DIR>, adjacency<0>>(X, g, "csr"); if (k < 4) { graph_ranges<edge_list<UND, int, double>, adjacency<0, int, double>>(X, g, "weighted csr"); graph_ranges<edge_list<DIR, int>, adjacency<1, int>>(X, g, "in-csr"); graph_ranges<edge_list<UND, int>, vov<0, int>>(X, g, "vov"); } }); });
  X.section("digraphs on 4 vertices");
  each_digraph(4, false, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { graph_ranges<edge_list<DIR, int>, adjacency<0, int>>(X, g, "csr"); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) { if (f.e.size() > 300) continue; X.state([&] { return f.desc(); }, [&] { graph_ranges<edge_list<UND, int>, adjacency<0, int>>(X, f, "csr"); }); }
  X.section("large sizes");
  for (auto& f : huge(false, {1025})) if (f.tag != "two" && f.e.size() < 1500 && f.tag.find("circ") == f.tag.npos && f.tag.find("shuf") == f.tag.npos) X.state([&] { return f.desc(); }, [&] { graph_ranges<edge_list<UND, int>, adjacency<0, int>>(X, f, "csr"); });
  X.section("histories of a worklist");
  for (int d = 1; d <= (X.thorough ? 9 : 7); ++d) each_seq(3, d, [&](const std::vector<int>& h) { X.state([&] { return "ops (0 push,1 pop,2 drain with refill) " + show(h); }, [&] { X.run("worklist_range", [&] {
    edge_list<DIR> el(2); adjacency<0> A(el); worklist_range<adjacency<0>, int> w(A); std::deque<int> r; int k = 0;
    for (int op : h) { if (op == 0) { w.push_back(k); r.push_back(k++); } else if (op == 1) { auto it = w.begin(); X.check((it != w.end()) == !r.empty() && (it == w.end()) == r.empty(), "empty"); if (!r.empty()) { X.check(*it == r.front() && *it == r.front(), "front"); ++it; r.pop_front(); } }
      else { std::vector<int> got, want; int extra = 2; for (auto x : w) { got.push_back(x); if (extra-- > 0) { w.push_back(k); r.push_back(k++); } if (got.size() > 100) break; } want.assign(r.begin(), r.end()); if (!got.empty() || !want.empty()) X.check(got == want, "drain order", [&] { return show(got) + " expected " + show(want); }); r.clear(); }
      X.check(w.empty() == r.empty(), "empty()"); }
  }); }); });
  X.section("predecessor paths");
  for (int n = 2; n <= 5; ++n) each_seq(n, n, [&](const std::vector<int>& pr) { X.state([&] { return show(pr); }, [&] { X.run("reverse_path", [&] { for (int s = 0; s < n; ++s) for (int t = 0; t < n; ++t) { std::vector<int> want; int c = s; bool ok = s != t; for (int i = 0; ok && i <= n && c != t; ++i) { want.push_back(c); c = pr[c]; } if (!ok || c != t) continue; std::vector<PE> p; for (int x : pr) p.push_back({unsigned(x)}); reverse_path<PE, unsigned> r(p, s, t); std::vector<int> got; for (auto&& [v] : r) { got.push_back(int(v)); if (got.size() > 20) break; } X.check(got == want, "path", [&] { return show(got) + " expected " + show(want); }); } }); }); });
  X.section("counting ranges");
  for (int n = 0; n <= 40; ++n) X.state([&] { return "n=" + str(n); }, [&] { X.run("vertex_range and counting_iterator", [&] {
    using Gr = adjacency<0>; vertex_range<Gr> r(n); int k = 0; for (auto i = r.begin(); i != r.end(); ++i) X.check(int(*i) == k++, "value"); X.check(k == n && int(r.size()) == n && r.empty() == (n == 0), "length");
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) { counting_iterator<std::size_t> a(i), b(j); X.check((a == b) == (i == j) && (a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j) && (a != b) == (i != j) && b - a == j - i, "order"); auto c = a; c += j - i; X.check(c == b && a + (j - i) == b && b - (j - i) == a && (j - i) + a == b && a[j - i] == std::size_t(j), "arithmetic"); c -= j - i; X.check(c == a, "-="); auto d = c++; X.check(d == a && c == a + 1 && *c == std::size_t(i + 1), "++"); d = c--; X.check(d == a + 1 && c == a && --(++c) == a, "--"); }
  }); });
}
#else
// every history of splits: a list of live ranges, each step splits one of them
template <class R, class Read> void split_all(Ctx& X, const char* nm, const R& whole, const std::vector<std::vector<long>>& want, bool ordered, int depth, Read&& read) {
  X.run(nm, [&] {
    using L = std::vector<std::shared_ptr<R>>;    // ranges need only be copy constructible
    L live{std::make_shared<R>(whole)};
    auto check = [&] { std::vector<std::vector<long>> got; for (auto& r : live) read(*r, got, want.size() + 8); if (!ordered) std::sort(got.begin(), got.end()); X.check(got == want, "pieces do not add up to the range", [&] { return shw(got) + " expected " + shw(want) + " after " + str(live.size() - 1) + " splits"; }); };
    std::function<void(int)> rec = [&](int d) { check(); if (d == 0) return; for (size_t i = 0; i < live.size(); ++i) { L save = live; auto left = std::make_shared<R>(*live[i]); auto right = std::make_shared<R>(*left, tbb::split{}); live[i] = left; live.insert(live.begin() + i + 1, right); rec(d - 1); live = save; } };
    rec(depth);
    // the way a task scheduler does it: split while divisible
    live = L{std::make_shared<R>(whole)}; size_t guard = 0;
    for (size_t i = 0; i < live.size();) { if (live[i]->is_divisible()) { X.check(++guard < 5000 + 4 * want.size(), "splitting does not end"); auto right = std::make_shared<R>(*live[i], tbb::split{}); live.push_back(right); } else ++i; }
    std::vector<std::vector<long>> got; for (auto& r : live) read(*r, got, want.size() + 8); std::sort(got.begin(), got.end()); auto w = want; std::sort(w.begin(), w.end()); X.check(got == w, "leaves do not add up to the range", [&] { return shw(got) + " expected " + shw(w) + " in " + str(live.size()) + " leaves"; }); X.outcome(hmix(live.size(), want.size())); ++X.counters["leaves"];
  });
}
void mc_main(Ctx& X) {
  auto sortedw = [](std::vector<std::vector<long>> v) { std::sort(v.begin(), v.end()); return v; };
  X.section("every split history of index ranges");
  std::vector<int> ns; for (int n = 0; n <= (X.thorough ? 70 : 40); ++n) ns.push_back(n); for (int n : {63, 64, 65, 100, 127, 128, 129, 255, 256, 257}) ns.push_back(n);
  for (int n : ns) for (int cut : {0, 1, 2, 3, 4, 7, 8, 16, 33}) X.state([&] { return "n=" + str(n) + " cutoff=" + str(cut); }, [&] {
    int D = n <= 20 ? (X.thorough ? 5 : 4) : 2;
    std::vector<int> v(n); std::vector<std::vector<long>> one, two; for (int i = 0; i < n; ++i) { v[i] = 1000 + 3 * i; one.push_back({v[i]}); two.push_back({i, v[i]}); }
    auto rd = [&](auto& r, auto& out, size_t lim) { size_t k = 0, b = out.size(); for (auto i = r.begin(); i != r.end(); ++i) { out.push_back({long(*i)}); if (++k > lim) break; } if constexpr (requires { r.size(); }) if (long(r.size()) != long(out.size() - b) || r.empty() != (out.size() == b)) out.push_back({-1, long(r.size())}); };
    auto rd0 = [&](auto& r, auto& out, size_t lim) { size_t k = 0; for (auto i = r.begin(); i != r.end(); ++i) { out.push_back({long(*i)}); if (++k > lim) break; } };
    auto rd2 = [&](auto& r, auto& out, size_t lim) { size_t k = 0, b = out.size(); for (auto i = r.begin(); i != r.end(); ++i) { auto&& [u, x] = *i; out.push_back({long(u), long(x)}); if (++k > lim) break; } if (long(r.size()) != long(out.size() - b)) out.push_back({-1}); };
    using It = std::vector<int>::iterator;
    if (cut) { split_all(X, "splittable_range_adaptor", splittable_range_adaptor<counting_iterator<std::size_t>>(counting_iterator<std::size_t>(5), counting_iterator<std::size_t>(5 + n), std::size_t(cut)), [&] { std::vector<std::vector<long>> w; for (int i = 0; i < n; ++i) w.push_back({5 + i}); return w; }(), false, D, rd); }
    if (cut) split_all(X, "cyclic", cyclic_range_adaptor<It>(v, cut), one, false, D, rd);
    if (cut) split_all(X, "cyclic_neighbor_range", cyclic_neighbor_range<It>(v, cut), two, false, D, rd2);
    std::vector<std::vector<long>> id; for (int i = 0; i < n; ++i) id.push_back({i});
    if (cut == 1) split_all(X, "vertex_range", vertex_range<adjacency<0>>(n), id, false, D, rd);
    if (cut) for (int mode = 0; mode < 4; ++mode) {    // bits: all, none but last, every third, word edges
      int N = n * 11; AtomicBitVector<> b(N); std::vector<std::vector<long>> w; for (int i = 0; i < N; ++i) if (mode == 0 ? true : mode == 1 ? i == N - 1 : mode == 2 ? i % 3 == 0 : (i % 64 == 63 || i % 64 == 0)) { b.set(i); w.push_back({i}); }
      split_all(X, "non_zero_range", b.non_zeros(cut), w, false, std::min(D, 3), rd0);
    }
  });
  X.section("every split history of graph ranges");
  auto rdE = [&](auto& r, auto& out, size_t lim) { size_t k = 0; for (auto i = r.begin(); i != r.end(); ++i) { out.push_back(et(*i)); if (++k > lim) break; } };
  auto rdP = [&](auto& r, auto& out, size_t lim) { size_t k = 0; for (auto i = r.begin(); i != r.end(); ++i) { auto&& [u] = *i; out.push_back({long(u)}); if (++k > lim) break; } if (long(r.size()) != long(k)) out.push_back({-1}); };
  auto rdN = [&](auto& r, auto& out, size_t lim) { size_t k = 0; for (auto i = r.begin(); i != r.end(); ++i) { auto&& [u, row] = *i; std::vector<long> x{long(u)}; for (auto&& e : row) x.push_back(long(std::get<0>(e))); out.push_back(x); if (++k > lim) break; } if (long(r.size()) != long(k)) out.push_back({-1}); };
  auto body = [&](const G& g, int D) {
    using Ad = adjacency<0, int>; edge_list<DIR, int> el(g.n); el_fill(el, g); Ad A(el); const Ad& K = A;
    split_all(X, "edge_range", make_edge_range<0>(A), sortedw(flat(A, {0})), false, D, rdE);
    split_all(X, "edge_range const", make_edge_range(K), sortedw(flat(A, {})), false, D, rdE);
    std::vector<std::vector<long>> ids, rows; for (int i = 0; i < g.n; ++i) { ids.push_back({i}); std::vector<long> x{i}; for (auto&& e : A[i]) x.push_back(long(std::get<0>(e))); rows.push_back(x); }
    split_all(X, "plain_range", plain_range<Ad>(A), ids, false, D, rdP);
    split_all(X, "neighbor_range", neighbor_range<Ad>(A), rows, false, D, rdN);
    auto whole = A[0]; std::vector<std::vector<long>> w; for (auto&& e : whole) w.push_back({long(std::get<0>(e)), long(std::get<1>(e))}); for (int c : {1, 2, 5}) split_all(X, "row", splittable_range_adaptor<Ad::inner_iterator>(whole.begin(), whole.end(), c), sortedw(w), false, D, rdE);
  };
  for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { body(g, 3); }); });
  each_digraph(4, false, [&](const G& g) { if (!X.thorough && g.e.size() > 4) return; X.state([&] { return g.desc(); }, [&] { body(g, 3); }); });
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) X.state([&] { return f.desc(); }, [&] { body(f, 2); });
  X.section("large sizes");
  for (auto& f : huge(true, {1025, 4097, 66000})) X.state([&] { return f.desc(); }, [&] { body(f, 1); });
}
#endif
