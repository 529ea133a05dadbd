// PART 0: parallel loops and reductions over every splittable range.  PART 1: index sorting, permutation iterators, selection, counters, integer helpers.
#include "common.hpp"
#include <nwgraph/vovos.hpp>
#include <nwgraph/adaptors/cyclic_neighbor_range.hpp>
#include <nwgraph/adaptors/cyclic_range_adaptor.hpp>
#include <nwgraph/adaptors/edge_range.hpp>
#include <nwgraph/adaptors/neighbor_range.hpp>
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/adaptors/splittable_range_adaptor.hpp>
#include <nwgraph/adaptors/vertex_range.hpp>
#include <nwgraph/util/AtomicBitVector.hpp>
#include <nwgraph/util/atomic.hpp>
#include <nwgraph/util/parallel_for.hpp>
#include <nwgraph/util/permutation_iterator.hpp>
#include <nwgraph/util/make_priority_queue.hpp>
#include <nwgraph/util/proxysort.hpp>
#include <nwgraph/util/util.hpp>
using namespace mc;
namespace ng = nw::graph;
#if PART == 0
// mk() builds the range afresh (also as const and as rvalue), val(args...) names the element handed to the operator; want: the multiset of names
template <class Mk, class Val> void loops(Ctx& X, const std::string& n, Mk&& mk, std::vector<long> want, Val&& val) {
  std::sort(want.begin(), want.end());
  auto same = [&](std::vector<long> got, const char* how) { std::sort(got.begin(), got.end()); X.check(got == want, "visited", [&] { return std::string(how) + " visits " + show(got) + " expected " + show(want) + " policy " + str(rt::policy); }); };
  long sum = 0, mx = -7, orr = 0; for (long x : want) { sum += x; mx = std::max(mx, x); orr |= 1l << (x % 60); }
  for (int p = 0; p < 4; ++p) {
    rt::policy = p;
    X.run(n + " parallel_for", [&] { std::vector<long> g; ng::parallel_for(mk(), [&](auto&&... a) { g.push_back(val(a...)); }); same(g, "parallel_for"); });
    X.run(n + " parallel_for lvalue", [&] { std::vector<long> g; auto r = mk(); ng::parallel_for(r, [&](auto&&... a) { g.push_back(val(a...)); }); same(g, "parallel_for"); g.clear(); ng::parallel_for(r, [&](auto&&... a) { g.push_back(val(a...)); }); same(g, "a second parallel_for"); });
    X.run(n + " parallel_reduce", [&] {
      auto r = mk(); size_t calls = 0;
      long s = ng::parallel_reduce(r, [&](auto&&... a) { ++calls; return val(a...); }, std::plus<long>{}, 0l); X.check(s == sum && calls == want.size(), "sum", [&] { return str(s) + " expected " + str(sum) + " operator called " + str(calls) + " times"; });
      long m = ng::parallel_reduce(mk(), [&](auto&&... a) { return val(a...); }, ng::max{}, -7l); X.check(m == mx, "maximum", [&] { return str(m) + " expected " + str(mx); });
      long o = ng::parallel_reduce(mk(), [&](auto&&... a) { return 1l << (val(a...) % 60); }, [](long a, long b) { return a | b; }, 0l); X.check(o == orr, "union");
      if (want.size() > 600) return;
      auto v = ng::parallel_reduce(mk(), [&](auto&&... a) { return std::multiset<long>{val(a...)}; }, [](std::multiset<long> a, const std::multiset<long>& b) { a.insert(b.begin(), b.end()); return a; }, std::multiset<long>{}); same({v.begin(), v.end()}, "parallel_reduce");
    });
  }
  X.run(n + " parallel_for_sequential", [&] {
    std::vector<long> g, h; auto r = mk(); for (auto&& i = r.begin(), e = r.end(); i != e; ++i) ng::parallel_for_inner([&](auto&&... a) { h.push_back(val(a...)); }, i);
    ng::parallel_for_sequential(r, [&](auto&&... a) { g.push_back(val(a...)); }); X.check(g == h, "order"); same(g, "parallel_for_sequential");
    auto f = ng::parallel_for_sequential(r, [&](auto&&... a) { return std::vector<long>{val(a...)}; }, [](auto a, auto b) { a.insert(a.end(), b.begin(), b.end()); return a; }, std::vector<long>{99}); h.insert(h.begin(), 99); X.check(f == h, "left fold");
  });
}
static void index_ranges(Ctx& X, int n, int cut) {
  std::vector<int> v(n); std::vector<long> vals, ids, off; for (int i = 0; i < n; ++i) { v[i] = 1000 + 3 * i; vals.push_back(v[i]); ids.push_back(i); off.push_back(5 + i); }
  auto one = [](auto x) { return long(x); };
  loops(X, "splittable vector", [&] { return splittable_range_adaptor(v, size_t(cut)); }, vals, one);
  loops(X, "splittable counting", [&] { return splittable_range_adaptor<counting_iterator<size_t>>(counting_iterator<size_t>(5), counting_iterator<size_t>(5 + n), size_t(cut)); }, off, one);
  loops(X, "cyclic", [&] { return cyclic(v, cut); }, vals, one);
  loops(X, "cyclic neighbors of a vector", [&] { return cyclic_neighbor_range<std::vector<int>::iterator>(v, cut); }, vals, [&](auto i, auto& x) { return long(i) < n && long(v[i]) == long(x) ? long(x) : -1; });
  if (cut == 1) loops(X, "vertex_range", [&] { return vertex_range<adjacency<0>>(n); }, ids, one);
  AtomicBitVector<> b(size_t(n) * 9 + 1); std::vector<long> w; for (int i = 0; i <= n * 9; ++i) if (i % 5 == 0 || i % 64 == 63) { b.set(i); w.push_back(i); }
  loops(X, "non-zero bits", [&] { return b.non_zeros(cut); }, w, one);
  if (cut == 1) loops(X, "blocked_range", [&] { return tbb::blocked_range<size_t>(0, size_t(n)); }, ids, one);
}
template <class Ad, class EL> void graph_ranges(Ctx& X, EL& el, const G& g, const std::string& t, int cut) {
  Ad A(el); const Ad& K = A; std::vector<long> edges, wedges, rows, ids, degs;
  for (int u = 0; u < g.n; ++u) { long h = u; int d = 0; for (auto&& e : A[u]) { edges.push_back(u * 1000 + long(std::get<0>(e))); wedges.push_back((u * 1000 + long(std::get<0>(e))) * 3000 + long(std::get<1>(e))); h = h * 31 + long(std::get<0>(e)) + 1; ++d; } rows.push_back(h & 0xfffffff); ids.push_back(u); degs.push_back(u * 1000 + d); }
  auto e2 = [](auto u, auto v) { return long(u) * 1000 + long(v); }; auto e3 = [](auto u, auto v, auto w) { return (long(u) * 1000 + long(v)) * 3000 + long(w); };
  auto rw = [](auto u, auto&& r) { long h = long(u); for (auto&& e : r) h = h * 31 + long(std::get<0>(e)) + 1; return h & 0xfffffff; };
  if constexpr (requires { make_edge_range(A); }) { loops(X, t + "edge_range", [&] { return make_edge_range(A); }, edges, e2); loops(X, t + "edge_range attributes", [&] { return make_edge_range<0>(A); }, wedges, e3); loops(X, t + "edge_range const", [&] { return make_edge_range(K); }, edges, e2); }
  loops(X, t + "plain_range", [&] { return plain_range<Ad>(A); }, ids, [](auto u) { return long(u); });
  loops(X, t + "neighbor_range", [&] { return neighbor_range<Ad>(A); }, rows, rw);
  loops(X, t + "cyclic_neighbor_range", [&] { return ng::cyclic_neighbor_range(A, cut); }, rows, rw);
  for (int u : {0, g.n - 1}) if constexpr (requires { A[u].is_divisible(); }) { std::vector<long> w; for (auto&& e : A[u]) w.push_back(long(std::get<0>(e)) * 3000 + long(std::get<1>(e))); loops(X, t + "row", [&] { return A[u]; }, w, [](auto v, auto x) { return long(v) * 3000 + long(x); }); }
}
void mc_main(Ctx& X) {
  X.section("index ranges");
  std::vector<int> ns; for (int n = 0; n <= (X.thorough ? 130 : 36); ++n) ns.push_back(n); for (int n : {63, 64, 65, 127, 128, 129, 255, 256, 257}) ns.push_back(n);
  for (int n : ns) for (int cut : {1, 2, 3, 4, 7, 8, 16, 33}) X.state([&] { return "n=" + str(n) + " cutoff=" + str(cut); }, [&] { index_ranges(X, n, cut); });
  auto body = [&](const G& g, bool more) { for (int cut : more ? std::vector<int>{1, 2, 5} : std::vector<int>{1, 4}) { edge_list<DIR, int> el(g.n); el_fill(el, g); graph_ranges<adjacency<0, int>>(X, el, g, "csr ", cut); if (more) { edge_list<UND, int> ul(g.n); el_fill(ul, g); graph_ranges<adjacency<0, int>>(X, ul, g, "csr undirected ", cut); graph_ranges<vov<0, int>>(X, el, g, "vov ", cut); } } };
  X.section("edge sequences over 3 vertices");
  for (int k = 1; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { body(g, true); }); });
  X.section("digraphs on 4 vertices");
  each_digraph(4, false, [&](const G& g) { if (g.e.size() && (X.thorough || g.e.size() < 5)) X.state([&] { return g.desc(); }, [&] { body(g, false); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) if (f.e.size() && f.e.size() < 4000) X.state([&] { return f.desc(); }, [&] { body(f, false); });
  X.section("large sizes");
  for (auto& f : huge(true, {1025})) X.state([&] { return f.desc(); }, [&] { body(f, false); });
}
#else
template <class T, class I> void psort(Ctx& X, const std::vector<T>& v, const char* t) {
  auto ck = [&](const std::vector<I>& p, auto cmp, const char* how) {
    X.check(p.size() == v.size(), "length"); std::vector<int> c(v.size()); for (auto i : p) { X.check(size_t(i) < v.size() && !c[i]++, "permutation", [&] { return std::string(how) + show(p); }); }
    for (size_t i = 1; i < p.size(); ++i) X.check(!cmp(v[p[i]], v[p[i - 1]]), "order", [&] { return std::string(how) + show(p); });
  };
  X.run(std::string("proxysort ") + t, [&] {
    ck(nw::util::proxysort<I>(v, std::less<T>()), std::less<T>(), "less "); ck(nw::util::proxysort<I>(v, std::greater<T>()), std::greater<T>(), "greater ");
    ck(nw::util::proxysort<I>(v, std::greater<T>(), std::execution::seq), std::greater<T>(), "greater seq ");
    std::vector<I> p(v.size(), I(77)); nw::util::proxysort(v, p, std::less<T>(), std::execution::seq); ck(p, std::less<T>(), "in place ");
  });
}
void mc_main(Ctx& X) {
  X.section("index sorting of every value sequence");
  for (int k = 1; k <= (X.thorough ? 7 : 6); ++k) each_seq(4, k, [&](const std::vector<int>& s) { X.state([&] { return show(s); }, [&] { psort<int, uint32_t>(X, s, "int"); psort<double, uint64_t>(X, std::vector<double>(s.begin(), s.end()), "double"); std::vector<unsigned char> c(s.begin(), s.end()); psort<unsigned char, uint16_t>(X, c, "byte"); }); });
  for (int n : {17, 33, 100, 255, 256, 257, 1000, 3000, 10000, 66001}) for (int m : {1, 2, 7, 1000003}) X.state([&] { return "length " + str(n) + " modulus " + str(m); }, [&] { std::vector<int> s(n); for (int i = 0; i < n; ++i) s[i] = int((long(i) * 7919 + i / 3) % m); psort<int, uint32_t>(X, s, "int"); psort<int, uint64_t>(X, s, "int wide"); });
  X.section("permutation iterators");
  for (int n = 1; n <= 5; ++n) each_perm(n, [&](const std::vector<int>& p) { X.state([&] { return show(p); }, [&] { X.run("permutation_iterator", [&] {
    std::vector<std::string> b; for (int i = 0; i < n; ++i) b.push_back("v" + str(i)); auto f = [&](auto i) { return p[i]; };
    using It = permutation_iterator<std::vector<std::string>::iterator, decltype(f)>; It i(b.begin(), 0, f), e(b.begin(), n, f); int k = 0;
    for (; i != e; ++i, ++k) { X.check(k < n && *i == "v" + str(p[k]), "element"); *i = "w" + str(k); } X.check(k == n, "length"); for (int q = 0; q < n; ++q) X.check(b[p[q]] == "w" + str(q), "write through");
  }); }); });
  X.section("tuple selection");
  X.state([] { return std::string("select"); }, [&] { X.run("select", [&] {
    auto mk = [] { return std::tuple<std::string, int, std::vector<int>, double>("a string longer than the small buffer", 7, {1, 2, 3}, 2.5); };
    auto t = mk(); auto r = ng::select<2, 0, 3>(t); X.check(t == mk(), "source-changed", [&] { return "selecting from a variable leaves '" + std::get<0>(t) + "' " + show(std::get<2>(t)); }); X.check(r == std::tuple(std::vector<int>{1, 2, 3}, std::get<0>(mk()), 2.5), "selection");
    const auto c = mk(); X.check(ng::select<0>(c) == std::tuple(std::get<0>(mk())), "selection"); X.check(ng::select<1, 3, 1>(c) == std::tuple(7, 2.5, 7), "selection");
    X.check(ng::select<0, 2>(mk()) == std::tuple(std::get<0>(mk()), std::vector<int>{1, 2, 3}), "selection"); X.check(ng::select<0, 0>(t) == std::tuple(std::get<0>(mk()), std::get<0>(mk())), "repeated");
    int a = 1; std::string s = "y"; std::tuple<int&, std::string&> ref(a, s); auto q = ng::select<1, 0>(ref); std::get<1>(q) = 9; std::get<0>(q) = "z"; X.check(a == 9 && s == "z", "references");
    X.check(std::get<0>(ng::select<1>(std::tuple<int, std::unique_ptr<int>>(1, std::make_unique<int>(5))))  && true, "move-only");
  }); });
  X.section("integer helpers");
  X.state([] { return std::string("log2, ceil_log2, pow2 for every exponent and its neighbours, and every small value"); }, [&] { X.run("log2", [&] {
    auto lg = [](unsigned __int128 v) { int k = 0; while (v >>= 1) ++k; return k; }; auto cl = [&](uint64_t v) { int k = lg(v); return (uint64_t(1) << k) == v ? k : k + 1; };
    std::vector<uint64_t> vs; for (uint64_t v = 1; v < 70000; ++v) vs.push_back(v); for (int k = 17; k < 64; ++k) for (int d = -2; d <= 2; ++d) vs.push_back((uint64_t(1) << k) + d); vs.push_back(~0ull);
    for (auto v : vs) { X.check(ng::log2(v) == lg(v), "log2", [&] { return str(v); }); X.check(ng::ceil_log2(v) == cl(v), "ceil_log2 64", [&] { return str(v) + " gives " + str(ng::ceil_log2(v)); }); if (v <= 0xffffffffu) X.check(ng::ceil_log2(uint32_t(v)) == cl(v), "ceil_log2 32", [&] { return str(v) + " gives " + str(ng::ceil_log2(uint32_t(v))); }); if (v <= 0x7fffffff) X.check(ng::ceil_log2(int32_t(v)) == cl(v), "ceil_log2 signed"); }
    for (int k = 0; k < 62; ++k) X.check(ng::pow2(k) == uint64_t(1) << k, "pow2"); for (int k = 0; k < 30; ++k) X.check(ng::pow2<int32_t>(k) == 1 << k && ng::pow2<uint32_t>(k) == 1u << k, "pow2");
  }); });
  X.section("blocks");
  for (long N = 0; N <= (X.thorough ? 150 : 60); ++N) for (long n = 1; n <= 40; ++n) X.state([&] { return str(N) + " elements, " + str(n) + " blocks"; }, [&] { X.run("block", [&] {
    long at = 0, lo = N, hi = 0; for (long i = 0; i < n; ++i) { auto [b, e] = ng::block(N, n, i); X.check(b == at && e >= b, "consecutive", [&] { return "block " + str(i) + " is " + str(b) + ".." + str(e); }); at = e; lo = std::min(lo, e - b); hi = std::max(hi, e - b); auto [c, d] = ng::block(size_t(N), size_t(n), size_t(i)); X.check(long(c) == b && long(d) == e, "unsigned"); } X.check(at == N && hi - lo <= 1, "cover evenly");
  }); });
  for (long N : {1000l, 4096l, 65535l, 65536l, 65537l, 1l << 20, (1l << 31) - 1, 1l << 31, (1l << 32) + 5, 1l << 40}) for (long n : {1l, 2l, 3l, 7l, 8l, 64l, 100l, 1000l, 4096l, 5000l}) X.state([&] { return str(N) + " elements, " + str(n) + " blocks"; }, [&] { X.run("block", [&] {
    long at = 0, lo = N, hi = 0; for (long i = 0; i < n; ++i) { auto [b, e] = ng::block(N, n, i); X.check(b == at && e >= b, "consecutive", [&] { return "block " + str(i) + " is " + str(b) + ".." + str(e); }); at = e; lo = std::min(lo, e - b); hi = std::max(hi, e - b); auto [c, d] = ng::block(size_t(N), size_t(n), size_t(i)); X.check(long(c) == b && long(d) == e, "unsigned"); } X.check(at == N && hi - lo <= 1, "cover evenly");
  }); });
  X.section("counters, histograms, priority queues, null vertex");
  for (int k = 0; k <= 5; ++k) each_seq(3, k, [&](const std::vector<int>& s) { X.state([&] { return show(s); }, [&] { X.run("counters", [&] {
    size_t c = 4; counting_output_iterator<size_t> o(c); std::copy(s.begin(), s.end(), o); X.check(c == 4 + s.size() && o.get_count() == c, "counting_output_iterator"); for (int x : s) *o++ = x; X.check(c == 4 + 2 * s.size(), "counting_output_iterator ++"); 
    std::vector<int> t{0, 2}, u(s); std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); size_t both = 0; for (int x : u) both += x != 1;
    counter<> cn; X.check(size_t(std::set_intersection(u.begin(), u.end(), t.begin(), t.end(), cn)) == both, "counter"); counter<int> c3(3); for (int x : s) { *c3 = x; ++c3; } X.check(int(c3) == 3 + int(s.size()), "counter");
    std::vector<long> h(3, 55); histogram(s.begin(), s.end(), h.begin(), h.end()); for (int v = 0; v < 3; ++v) X.check(h[v] == std::count(s.begin(), s.end(), v), "histogram");
    auto q = make_priority_queue<int>(std::greater<int>()); for (int x : s) q.push(x); auto w = s; std::sort(w.begin(), w.end()); for (int x : w) { X.check(q.top() == x, "priority queue"); q.pop(); } X.check(q.empty(), "priority queue");
    auto q2 = make_priority_queue<int, std::deque<int>>([](int a, int b) { return (a ^ 1) < (b ^ 1); }); for (int x : s) q2.push(x); std::sort(w.begin(), w.end(), [](int a, int b) { return (a ^ 1) > (b ^ 1); }); for (int x : w) { X.check(q2.top() == x, "priority queue with a lambda"); q2.pop(); }
    for (int a : s) for (int b : s) X.check(ng::min{}(a, b) == std::min(a, b) && ng::max{}(a, b) == std::max(a, b), "min, max");
  }); }); });
  X.state([] { return std::string("null vertex"); }, [&] { X.run("null_vertex_v", [&] { X.check(null_vertex_v<uint32_t>() == ~uint32_t(0) && null_vertex_v<uint64_t>() == ~uint64_t(0) && null_vertex_v<int>() == 0x7fffffff && null_vertex_v<uint16_t>() == 0xffff, "largest value"); }); });
}
#endif
