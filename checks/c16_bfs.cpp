// BFS parent lists: sequential, direction-optimising (every parameter setting), experimental variants; the verifier.
#include "common.hpp"
#include <nwgraph/util/AtomicBitVector.hpp>
#include <nwgraph/util/parallel_for.hpp>
#include <nwgraph/util/atomic.hpp>
#include <nwgraph/util/util.hpp>
#include <nwgraph/algorithms/bfs.hpp>
#include <nwgraph/experimental/algorithms/bfs.hpp>
#include <nwgraph/vovos.hpp>
#include <nwgraph/volos.hpp>
#include <nwgraph/vofos.hpp>
using namespace mc;
static std::vector<int> dist(const std::vector<std::vector<int>>& a, int s) { std::vector<int> d(a.size(), -1), q{s}; d[s] = 0; for (size_t i = 0; i < q.size(); ++i) for (int v : a[q[i]]) if (d[v] < 0) { d[v] = d[q[i]] + 1; q.push_back(v); } return d; }
template <class V> bool valid(const std::vector<std::vector<int>>& a, const std::vector<int>& d, int s, const V& p, std::string& why) {
  constexpr auto null = std::numeric_limits<typename V::value_type>::max();
  if (p.size() != a.size()) { why = "length " + str(p.size()); return false; }
  for (int v = 0; v < int(a.size()); ++v) {
    if (d[v] < 0) { if (p[v] != null) { why = "unreachable vertex " + str(v) + " has parent " + str(p[v]); return false; } continue; }
    if (p[v] == null) { why = "reachable vertex " + str(v) + " has no parent"; return false; }
    if (v == s) { if (p[v] != s) { why = "root's parent is " + str(p[v]); return false; } continue; }
    if (p[v] >= a.size() || !std::binary_search(a[p[v]].begin(), a[p[v]].end(), v)) { why = "parent " + str(p[v]) + " of " + str(v) + " has no edge to it"; return false; }
    if (d[p[v]] + 1 != d[v]) { why = "parent " + str(p[v]) + " of " + str(v) + " is at distance " + str(d[p[v]]) + ", not " + str(d[v] - 1); return false; }
  }
  return true;
}
struct Prm { int bins, alpha, beta; };
static const std::vector<Prm> ALL{{32, 15, 18}, {1, 1, 1}, {2, 1, 1000}, {4, 1000000, 2}, {32, 3, 4}, {5, 1000000, 1000000}, {64, 1000000, 1}};
template <directedness D, class... A> void go(Ctx& X, const G& g, const std::vector<int>& src, const std::vector<int>& pols, const std::vector<Prm>& prm, bool more) {
  edge_list<D, A...> el(g.n); el_fill(el, g); constexpr bool und = D == UND; auto a = adj(g, und); for (auto& r : a) std::sort(r.begin(), r.end());
  adjacency<0, A...> out(el); adjacency<1, A...> in(el);
  for (int s : src) {
    auto d = dist(a, s);
    auto ck = [&](auto p) { std::string why; X.check(valid(a, d, s, p, why), "parents", [&] { return "from " + str(s) + ": " + why + " in " + show(p) + " policy " + str(rt::policy); }); };
    X.run("bfs sequential", [&] { ck(bfs(out, s)); });
    for (int pol : pols) {
      rt::policy = pol;
      for (auto& q : prm) X.run("bfs direction-optimising bins=" + str(q.bins) + " alpha=" + str(q.alpha) + " beta=" + str(q.beta), [&] { ck(bfs(out, in, s, q.bins, q.alpha, q.beta)); });
      if (more) {
        X.run("bfs default", [&] { ck(bfs(out, in, s)); });
        if (und) X.run("bfs symmetric", [&] { ck(bfs(out, out, s)); });
        X.run("bfs_v6", [&] { ck(bfs_v6(out, s)); });
        X.run("bfs_bottom_up", [&] { ck(bfs_bottom_up(out, in, s)); });
        X.run("bfs_v7", [&] { ck(bfs_v7(out, s)); });
        X.run("bfs_v8", [&] { ck(bfs_v8(out, s)); });
        X.run("bfs_v9", [&] { ck(bfs_v9(out, s)); });
        X.run("bfs_v1", [&] { ck(bfs_v1(out, in, s)); });
        X.run("bfs_v2", [&] { ck(bfs_v2(out, in, s)); });
        for (int b : {1, 3, 64}) X.run("bfs_v1 and v2 bins", [&] { ck(bfs_v1(out, in, s, b, 3, 4)); ck(bfs_v2(out, in, s, b, 3, 4)); });
        if constexpr (sizeof...(A) == 0) { X.run("bfs_top_down", [&] { ck(bfs_top_down(out, s)); }); X.run("bfs_top_down_bitmap", [&] { ck(bfs_top_down_bitmap(out, s)); }); }
        X.run("bfs_v1 up", [&] { ck(bfs_v1(out, in, s, 16, 1000000, 2)); });
        X.run("bfs_v2 up", [&] { ck(bfs_v2(out, in, s, 16, 1000000, 2)); });
      }
    }
    if (more) {
      X.run("bfs vov", [&] { vov<0, A...> b(el); ck(bfs(b, s)); });
      X.run("bfs adj_list", [&] { adj_list<0, A...> b(el); ck(bfs(b, s)); });
      X.run("bfs adj_flist", [&] { adj_flist<0, A...> b(el); ck(bfs(b, s)); });
      X.run("bfs vector of vectors", [&] { std::vector<std::vector<int>> b(a); auto p = bfs(b, s); std::vector<unsigned> q(p.begin(), p.end()); for (auto& x : q) if (x == 0x7fffffffu) x = ~0u; ck(q); });
    }
  }
}
static std::vector<int> all(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
void mc_main(Ctx& X) {
  X.section("edge sequences over 3 vertices, every root");
  for (int k = 0; k <= (X.thorough ? 5 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<DIR>(X, g, all(3), {0, 1, 2, 3}, ALL, true); if (k < 4) go<UND, double>(X, g, all(3), {3}, ALL, true); }); });
  X.section("digraphs on 4 vertices, every root");
  each_digraph(4, false, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<DIR>(X, g, all(4), X.thorough ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{1, 2}, ALL, X.thorough || g.e.size() < 5); }); });
  X.section("undirected graphs on 5 and 6 vertices, every root");
  for (int n = 1; n <= (X.thorough ? 6 : 5); ++n) each_ugraph(n, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go<UND, int>(X, g, all(n), {0, 2}, ALL, n < 6); }); });
  X.section("verifier on every parent list of 3-vertex digraphs");
  each_digraph(3, true, [&](const G& g) { X.state([&] { return g.desc(); }, [&] {
    edge_list<DIR> el(3); el_fill(el, g); adjacency<0> out(el); adjacency<1> in(el); auto a = adj(g, false);
    for (int s = 0; s < 3; ++s) X.run("BFSVerifier", [&] { auto d = dist(a, s); each_seq(4, 3, [&](const std::vector<int>& q) { std::vector<default_vertex_id_type> p(q.begin(), q.end()); for (auto& x : p) if (x == 3) x = std::numeric_limits<default_vertex_id_type>::max(); std::string why; bool w = valid(a, d, s, p, why); X.check(BFSVerifier(out, in, default_vertex_id_type(s), p) == w, "verdict", [&] { return "root " + str(s) + " parents " + show(p) + " expected " + str(w) + " " + why; }); }); });
  }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) {
    X.state([&] { return f.desc(); }, [&] { go<UND>(X, f, some_sources(f.n), X.thorough ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 3}, ALL, n < 70); });
    X.state([&] { return "directed " + f.desc(); }, [&] { go<DIR>(X, f, some_sources(f.n), {1, 2}, ALL, n < 70); });
  }
  // a wide level followed by narrow ones makes the search switch back from bottom-up; every rotation of the ids puts the narrow frontiers on every bit position
  X.section("wide level then three narrow tails, every rotation of the ids");
  for (int n : X.thorough ? std::vector<int>{66, 70, 130, 200, 333} : std::vector<int>{66, 130}) for (int st : {1, 7}) for (int off = 0; off < n; ++off) {
    G g; g.n = n; g.tag = "burst stride " + str(st) + " offset " + str(off); auto id = [&](int p) { return int((long(p) * st + off) % n); };
    if (n % 7 == 0 && st == 7) continue;
    int W = n - 1 - 12; for (int i = 1; i <= W; ++i) g.e.push_back({id(0), id(i)});
    for (int t = 0; t < 3; ++t) for (int k = 0; k < 4; ++k) g.e.push_back({id(k ? W + 1 + 3 * (k - 1) + t : 1 + t), id(W + 1 + 3 * k + t)});
    X.state([&] { return g.desc(); }, [&] { go<UND>(X, g, {id(0), id(n - 1)}, {0, 3}, ALL, off % 16 == 15); });
  }
  X.section("large sizes");
  for (auto& f : huge(false, {1025, 4097, 66000})) { X.state([&] { return f.desc(); }, [&] { go<UND>(X, f, {0, f.n / 2}, {2}, ALL, false); }); X.state([&] { return "directed " + f.desc(); }, [&] { go<DIR>(X, f, {0}, {3}, ALL, false); }); }
}
