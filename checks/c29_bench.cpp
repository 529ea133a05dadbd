// The benchmark drivers of /repo/bench, run as a whole (argument parsing included) on enumerated input files.
// DRV 0: shared helpers, process_edge_list, sources.  1 bfs  2 bc  3 cc  4 pr  5 sssp  6 tc.  7: helpers under the controlled scheduler.
#if DRV == 7
#include "sched.hpp"
#endif
#include "common.hpp"
#include <docopt.h>
#include <date/date.h>
#include <filesystem>
#include <nlohmann/json.hpp>
#include <unordered_map>
#include <iostream>
#include <nwgraph/vovos.hpp>
#include <nwgraph/volos.hpp>
#include <nwgraph/io/mmio.hpp>
#if DRV == 1
#include <nwgraph/algorithms/bfs.hpp>
#include <nwgraph/experimental/algorithms/bfs.hpp>
#elif DRV == 2
#include <nwgraph/algorithms/betweenness_centrality.hpp>
#include <nwgraph/experimental/algorithms/betweenness_centrality.hpp>
#elif DRV == 3
#include <nwgraph/adaptors/plain_range.hpp>
#include <nwgraph/adaptors/vertex_range.hpp>
#include <nwgraph/algorithms/connected_components.hpp>
#include <nwgraph/experimental/algorithms/connected_components.hpp>
#elif DRV == 4
#include <nwgraph/algorithms/page_rank.hpp>
#include <nwgraph/experimental/algorithms/page_rank.hpp>
#elif DRV == 5
#include <nwgraph/algorithms/delta_stepping.hpp>
#include <nwgraph/experimental/algorithms/delta_stepping.hpp>
#include <nwgraph/util/make_priority_queue.hpp>
#elif DRV == 6
#include <nwgraph/algorithms/triangle_count.hpp>
#include <nwgraph/experimental/algorithms/triangle_count.hpp>
#endif
using namespace mc;
namespace std { inline int mc_system(const char*) { return 1; } }    // the drivers ask git for the revision
struct File { G g; bool und; std::vector<int> w; std::string path; } F;    // the input of the run in progress
static bool g_all = false; static long g_calls = 0;
static std::vector<std::string> g_bad;    // what the hooks below object to
static std::vector<std::vector<int>> rev() { std::vector<std::vector<int>> a(F.g.n); for (auto& e : F.g.e) a[e[1]].push_back(e[0]); return a; }    // the drivers search the in-edges
static std::vector<int> dist(const std::vector<std::vector<int>>& a, int s) { std::vector<int> d(a.size(), -1), q{s}; d[s] = 0; for (size_t i = 0; i < q.size(); ++i) for (int v : a[q[i]]) if (d[v] < 0) { d[v] = d[q[i]] + 1; q.push_back(v); } return d; }
#if DRV == 1
template <class A, class B, class S, class P> bool mc_bfs_verify(A& graph, B& gx, S s, P& p) {
  ++g_calls; auto a = rev(); auto d = dist(a, s); constexpr auto null = std::numeric_limits<typename P::value_type>::max();
  bool ok = p.size() == a.size();
  for (size_t v = 0; ok && v < a.size(); ++v) ok = d[v] < 0 ? p[v] == null : p[v] == null ? false : int(v) == int(s) ? p[v] == v : std::find(a[p[v]].begin(), a[p[v]].end(), v) != a[p[v]].end() && d[p[v]] + 1 == d[v];
  if (!ok) g_bad.push_back("parents from " + str(s) + " are " + show(p));
  bool r = BFSVerifier(graph, gx, s, p); if (r != ok) g_bad.push_back("the verifier says " + str(r) + " to parents " + show(p) + " from " + str(s));
  return r;
}
#define BFSVerifier mc_bfs_verify
#endif
#if DRV == 2
static std::vector<double> bc_ref(const std::vector<int>& src, bool own) {
  auto a = rev(); int n = F.g.n; std::vector<std::vector<int>> d(n, std::vector<int>(n, -1)); std::vector<std::vector<double>> c(n, std::vector<double>(n, 0)); std::vector<double> r(n);
  for (int s = 0; s < n; ++s) { std::vector<int> q{s}; d[s][s] = 0; c[s][s] = 1; for (size_t h = 0; h < q.size(); ++h) { int u = q[h]; for (int v : a[u]) { if (d[s][v] < 0) { d[s][v] = d[s][u] + 1; q.push_back(v); } if (d[s][v] == d[s][u] + 1) c[s][v] += c[s][u]; } } }
  for (int s : src) for (int t = 0; t < n; ++t) if (t != s && d[s][t] > 0) for (int v = 0; v < n; ++v) if (v != t && (own || v != s) && d[s][v] >= 0 && d[v][t] >= 0 && d[s][v] + d[v][t] == d[s][t]) r[v] += c[s][v] * c[v][t] / c[s][t];
  double m = 0; for (double x : r) m = std::max(m, x); if (m > 0) for (double& x : r) x /= m;
  return r;
}
static std::vector<std::vector<int>> g_src;
template <class S, class A, class G2, class T> bool mc_bc_verify(G2& g, T& src, std::vector<S>& sc) {
  ++g_calls; std::vector<int> s(src.begin(), src.end()); g_src.push_back(s);
  bool ok = sc.size() == size_t(F.g.n), any = false;
  for (bool own : {false, true}) { auto r = bc_ref(s, own); bool m = ok; for (int v = 0; m && v < F.g.n; ++v) m = std::fabs(double(sc[v]) - r[v]) < 1e-4; any |= m; }
  if (!any) g_bad.push_back("scores from " + show(s) + " are " + show(sc) + " expected " + show(bc_ref(s, false)));
  return BCVerifier<S, A>(g, src, sc);
}
#define BCVerifier mc_bc_verify
#endif
#define system mc_system
#define main drv
#if DRV == 7
#include <nwgraph/../../bench/common.hpp>
#else
#include <nwgraph/../../bench/common.hpp>
#include <nwgraph/../../bench/Log.hpp>
#if DRV == 1
#include <nwgraph/../../bench/bfs.cpp>
#elif DRV == 2
#include <nwgraph/../../bench/bc.cpp>
#elif DRV == 3
#include <nwgraph/../../bench/cc.cpp>
#elif DRV == 4
#include <nwgraph/../../bench/pr.cpp>
#elif DRV == 5
#include <nwgraph/../../bench/sssp.cpp>
#elif DRV == 6
#include <nwgraph/../../bench/tc.cpp>
#else
namespace d_pel {
#include <nwgraph/../../bench/ProcessEdgelist.cpp>
}
namespace d_src {
#include <nwgraph/../../bench/SourceVerifier.cpp>
}
#endif
#endif
#undef main
#undef system
using mc::str; using mc::show;
namespace nb = nw::graph::bench;
#if DRV != 7
struct Run { int rc; std::string out, err; };
template <class M> Run drive(Ctx& X, M m, std::vector<std::string> a) {
  std::string line; for (auto& x : a) line += x + " "; a.insert(a.begin(), "driver"); std::vector<char*> v; for (auto& x : a) v.push_back(x.data()); v.push_back(nullptr);
  std::ostringstream o, e; auto* so = std::cout.rdbuf(o.rdbuf()); auto* se = std::cerr.rdbuf(e.rdbuf()); auto fl = std::cout.flags(); auto pr = std::cout.precision(); int rc = -1; std::string what;
  g_bad.clear(); g_calls = 0;
  try { rc = m(int(a.size()), v.data()); } catch (std::exception& x) { what = x.what(); } catch (...) { what = "an exception"; }
  std::cout.rdbuf(so); std::cerr.rdbuf(se); std::cout.flags(fl); std::cout.precision(pr);
  X.check(rc == 0, "exit code", [&] { return line + "ends with " + str(rc) + " " + what; });
  X.check(g_bad.empty(), "result", [&] { return line + g_bad[0]; });
  X.check(e.str().empty(), "complaint", [&] { return line + "prints " + e.str(); });
  return {rc, o.str(), e.str()};
}
static std::string tmpname(const char* ext) { return "b" + str(getpid()) + ext; }
// a Matrix Market file or a serialised edge list of the graph
template <directedness D, class... A> void write_file(const G& g, const std::vector<int>& w, bool bin) {
  F = File{g, D == UND, w, tmpname(bin ? ".nw" : ".mtx")};
  { std::ofstream o(tmpname(".mtx")); o << "%%MatrixMarket matrix coordinate " << (w.empty() ? "pattern" : "integer") << " general\n% a comment\n" << g.n << " " << g.n << " " << g.e.size() << "\n"; for (size_t i = 0; i < g.e.size(); ++i) { o << g.e[i][0] + 1 << " " << g.e[i][1] + 1; if (!w.empty()) o << " " << w[i]; o << "\n"; } }
  if (bin) { edge_list<D, A...> el(g.n); el.open_for_push_back(); for (size_t i = 0; i < g.e.size(); ++i) { if constexpr (sizeof...(A)) el.push_back(g.e[i][0], g.e[i][1], w[i]); else el.push_back(g.e[i][0], g.e[i][1]); } el.close_for_push_back(); el.serialize(F.path); }
}
static std::vector<std::vector<std::string>> lines(const std::string& s, const std::string& with) { std::vector<std::vector<std::string>> r; std::istringstream i(s); std::string l, t; while (std::getline(i, l)) { std::istringstream w(l); std::vector<std::string> v; while (w >> t) v.push_back(t); if (std::find(v.begin(), v.end(), with) != v.end()) r.push_back(v); } return r; }
static std::string stem() { auto p = F.path; auto k = p.find('.'); return p.substr(0, k); }
// rows of the log: benchmark version threads graph time extra...; and of the summary table
static void tables(Ctx& X, const Run& r, const std::string& bench, const std::vector<long>& ids, const std::vector<long>& th, size_t per, size_t extra) {
  auto L = lines(r.out, "NWGRAPH"); X.check(L.size() == ids.size() * th.size() * per, "log lines", [&] { return str(L.size()) + " of " + str(ids.size() * th.size() * per) + "\n" + r.out.substr(0, 600); });
  std::map<std::pair<long, long>, size_t> n; size_t k = 5 + extra;
  for (auto& l : L) { X.check(l.size() >= k && l[l.size() - k] == bench && l[l.size() - k + 3] == stem(), "log line", [&] { return r.out; }); ++n[{std::stol(l[l.size() - k + 1].substr(1)), std::stol(l[l.size() - k + 2])}]; X.check(std::stod(l[l.size() - k + 4]) >= 0, "time"); }
  auto T = lines(r.out, F.path); std::map<std::pair<long, long>, size_t> t;
  for (auto& l : T) if (l.size() == 6 && l[0] == F.path) { ++t[{std::stol(l[1]), std::stol(l[2])}]; double a = std::stod(l[3]), b = std::stod(l[4]), c = std::stod(l[5]); X.check(a <= b + 1e-5 && b <= c + 1e-5, "min avg max", [&] { return r.out; }); }
  for (long i : ids) for (long h : th) { X.check(n[{i, h}] == per, "runs logged", [&] { return "version " + str(i) + " threads " + str(h) + " logged " + str(n[{i, h}]) + " times"; }); X.check(t[{i, h}] == 1, "summary row", [&] { return r.out; }); }
  X.check(t.size() == ids.size() * th.size(), "summary rows");
}
static std::vector<std::string> args(std::vector<std::string> a, const std::vector<long>& ids, const std::vector<long>& th) { for (long i : ids) { a.push_back("--version"); a.push_back(str(i)); } for (long t : th) a.push_back(str(t)); return a; }
template <class F2> void inputs(Ctx& X, int k, F2&& f) {
  X.section("edge sequences over 3 vertices"); for (int i = 1; i <= k; ++i) each_edge_seq(3, 3, i, [&](G g) { g.n = 3; X.state([&] { return g.desc(); }, [&] { f(g, true); }); });
  X.section("digraphs on 4 vertices"); each_digraph(4, false, [&](const G& g) { if (g.e.size() && g.e.size() <= (X.thorough ? 12u : 3u)) X.state([&] { return g.desc(); }, [&] { f(g, g.e.size() % 2); }); });
  X.section("size sweep"); for (int n : sweep_sizes(X.thorough)) { if (n > (X.thorough ? 320 : 66)) continue; for (auto& g : families(n)) if (g.e.size() && g.e.size() < 1500) X.state([&] { return g.desc(); }, [&] { f(g, false); }); }
}
// a file of n sources, no two neighbours alike
static std::vector<long> source_file(const G& g, size_t n, const std::string& p) { std::vector<long> s; for (size_t i = 0; i < n; ++i) s.push_back(long((i * i + i / 2 + 1) % g.n)); std::ofstream o(p); o << "%%MatrixMarket matrix array integer general\n" << n << " 1\n"; for (long v : s) o << v + 1 << "\n"; return s; }
static std::vector<std::vector<std::string>> from(const G& g, size_t want) { return {{"-r", str(g.e[0][1])}, {"-r", "0"}, {"-n", str(want), "--seed", "5"}}; }
#endif
template <class R> std::vector<long> vals(const R& r) { return std::vector<long>(r.begin(), r.end()); }
#if DRV == 1
void mc_main(Ctx& X) {
  inputs(X, X.thorough ? 4 : 3, [&](const G& g, bool more) {
    for (bool bin : {false, true}) { if (bin && !more) continue;
      write_file<DIR>(g, {}, bin); std::vector<long> ids{0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13}, th{1, 3}; if (!more) th = {2};
      for (auto& a : from(g, 2)) for (int p : {0, 3}) { if (p && !more) continue; rt::policy = p;
        X.run("bfs " + a[0], [&] { auto b = a; for (auto x : {"-f", F.path.c_str(), "-v", "--log", "-"}) b.push_back(x); if (p) for (auto x : {"-a", "1000000", "-b", "2", "-B", "4"}) b.push_back(x);
          auto r = drive(X, &drv, args(b, ids, th)); size_t per = a[0] == "-n" ? 2 : 1; X.check(g_calls == long(ids.size() * th.size() * per), "verified runs"); tables(X, r, "bfs", ids, th, per, 1);
          for (auto& l : lines(r.out, "NWGRAPH")) { long s = std::stol(l.back()); if (a[0] == "-r") X.check(s == std::stol(a[1]), "source"); else { bool out = false; for (auto& e : g.e) out |= e[0] == s; X.check(out, "random source without edges", [&] { return str(s); }); } } });
      }
      if (more) X.run("bfs log file", [&] { auto lg = tmpname(".log"); ::unlink(lg.c_str()); size_t want = 0, heads = 0; std::string rows;
        for (int h = 0; h < 3; ++h) { std::vector<std::string> b{"-f", F.path, "-r", str(g.e[0][1]), "--log", lg, "-n", "2"}; if (h != 1) b.push_back("--log-header"); auto r = drive(X, &drv, args(b, {0, 11}, {2, 5})); want += 8; heads += h != 1; X.check(lines(r.out, "NWGRAPH").empty(), "log on the console");
          std::ifstream in(lg); std::stringstream ss; ss << in.rdbuf(); std::string now = ss.str(); X.check(now.compare(0, rows.size(), rows) == 0, "earlier lines of the log changed"); rows = now; auto L = lines(now, "NWGRAPH"); X.check(L.size() == want && lines(now, "UUID").size() == heads, "lines of the log", [&] { return now; });
          size_t cols = L[0].size(); for (auto& l : L) { X.check(l.size() == cols && l.back() == str(g.e[0][1]), "columns", [&] { return now; }); } } });
      if (more) X.run("bfs defaults", [&] { auto r = drive(X, &drv, {"-f", F.path}); auto T = lines(r.out, F.path); size_t k = 0; for (auto& l : T) if (l.size() == 6 && l[0] == F.path) { ++k; X.check(l[1] == "0", "default version"); } X.check(k == 1, "one row", [&] { return r.out; }); });
      X.run("bfs sources file", [&] { { std::ofstream o(tmpname(".src")); o << "%%MatrixMarket matrix array integer general\n" << g.n << " 1\n"; for (int v = g.n; v >= 1; --v) o << v << "\n"; }
        auto r = drive(X, &drv, args({"-f", F.path, "-s", tmpname(".src"), "-v", "--log", "-"}, {0, 11}, {1})); auto L = lines(r.out, "NWGRAPH"); X.check(L.size() == size_t(2 * g.n), "one run per source"); std::map<long, int> c; for (auto& l : L) ++c[std::stol(l.back())]; for (int v = 0; v < g.n; ++v) X.check(c[v] == 2, "sources of the file"); });
    }
  });
}
#elif DRV == 2
void mc_main(Ctx& X) {
  inputs(X, X.thorough ? 4 : 3, [&](const G& g0, bool more) {
    std::set<E2> s; for (auto& e : g0.e) if (e[0] != e[1]) s.insert(e); if (s.empty()) return; G g = g0; g.e.assign(s.begin(), s.end()); if (g.n > 130) return;
    write_file<DIR>(g, {}, more && g.e.size() % 2); std::vector<long> ids{0, 1, 2, 3, 4, 5}, th{1, 3};
    for (auto& a : from(g, 2)) for (int p : {0, 3}) { if (p && !more) continue; rt::policy = p;
      X.run("bc " + a[0], [&] { auto b = a; if (a[0] == "-r") { b.push_back("-n"); b.push_back("2"); } for (auto x : {"-f", F.path.c_str(), "-v", "--log", "-"}) b.push_back(x); b.push_back("-i"); b.push_back(a[0] == "-r" ? "1" : "2");
        auto r = drive(X, &drv, args(b, ids, th)); X.check(g_calls == long(ids.size() * th.size() * 2), "verified runs"); tables(X, r, "bc", ids, th, 2, 0); });
    }
    for (int tr : {1, 2, 3}) for (int it : {1, 2, 3}) { if (!more && tr * it != 6) continue; X.run("bc sources file", [&] { g_src.clear(); auto want = source_file(g, tr * it, tmpname(".src")); std::vector<long> q{0, 4, 5}, t2{1, 2}; auto r = drive(X, &drv, args({"-f", F.path, "-s", tmpname(".src"), "-v", "--log", "-", "-n", str(tr), "-i", str(it)}, q, t2)); tables(X, r, "bc", q, t2, tr, 0);
      X.check(g_src.size() == size_t(6 * tr), "trials"); for (size_t k = 0; k < g_src.size(); ++k) X.check(vals(g_src[k]) == std::vector<long>(want.begin() + k % tr * it, want.begin() + (k % tr + 1) * it), "sources of a trial", [&] { return "trial " + str(k) + " of " + str(tr) + " with " + str(it) + " sources each used " + show(g_src[k]) + ", the file lists " + show(want); }); }); }
    X.run("print_n_ranks", [&] { std::ostringstream o; auto* so = std::cout.rdbuf(o.rdbuf()); std::vector<float> v; for (int i = 0; i < g.n; ++i) v.push_back(float((i * 7) % g.n)); print_n_ranks(v, 10); std::cout.rdbuf(so); std::istringstream in(o.str()); std::string id; float sc, last = 1e9; int n = 0; while (in >> id >> sc) { ++n; X.check(sc <= last && std::fabs(v[std::stoi(id)] - sc) < 1e-4, "rank", [&] { return o.str(); }); last = sc; } X.check(n == std::min(10, g.n), "ranks printed"); });
  });
}
#elif DRV == 3
void mc_main(Ctx& X) {
  inputs(X, X.thorough ? 4 : 3, [&](const G& g, bool more) {
    std::vector<int> c(g.n); for (int i = 0; i < g.n; ++i) c[i] = i; auto f = [&](int x) { while (c[x] != x) x = c[x]; return x; }; for (auto& e : g.e) c[f(e[0])] = f(e[1]); int comps = 0; for (int i = 0; i < g.n; ++i) comps += c[i] == i;
    for (int sym = 0; sym < 2; ++sym) for (bool bin : {false, true}) { if (bin && !more) continue; if (sym) write_file<UND>(g, {}, bin); else write_file<DIR>(g, {}, bin);
      if (more && !bin && !sym) X.run("cc both kinds of files", [&] { auto q = tmpname("sym.mtx"); std::filesystem::copy_file(F.path, q, std::filesystem::copy_options::overwrite_existing); auto r = drive(X, &drv, {"-f", F.path, "-s", q, "--version", "0", "--version", "7", "-v", "-V", "--log", "-", "2"}); auto L = lines(r.out, "NWGRAPH"); X.check(L.size() == 4, "runs"); for (auto& l : L) X.check(l.back() == (l[l.size() - 3] == stem() ? "0" : "1"), "symmetric column", [&] { return r.out; }); auto C = lines(r.out, "components"); X.check(C.size() == 4, "counts"); for (auto& l : C) X.check(std::stoi(l[2]) == comps, "number of components"); });
      // without a transpose only the algorithms that do not depend on symmetric storage apply
      std::vector<long> ids = sym ? std::vector<long>{0, 1, 6, 7, 8, 9, 10} : std::vector<long>{0, 7}, th{1, 3};
      for (int mode = 0; mode < (more ? 4 : 2); ++mode) for (int p : {0, 3}) { if (p && !more) continue; rt::policy = p;
        std::vector<long> id = ids; if (sym && mode & 1) id = {0, 7};    // cleaning leaves one direction of each edge
        if (sym && mode & 1) continue;
        X.run(std::string("cc ") + (sym ? "symmetric" : "directed") + (mode & 1 ? " clean" : "") + (mode & 2 ? " relabel" : ""), [&] { std::vector<std::string> b{sym ? "-s" : "-f", F.path, "-v", "-V", "--log", "-"}; if (mode & 1) b.push_back("--clean"); if (mode & 2) b.push_back("--relabel");
          auto r = drive(X, &drv, args(b, id, th)); tables(X, r, "cc", id, th, 1, 1); auto L = lines(r.out, "components"); X.check(L.size() == id.size() * th.size(), "component counts printed"); for (auto& l : L) X.check(std::stoi(l[2]) == comps, "number of components", [&] { return l[2] + " expected " + str(comps); });
          for (auto& l : lines(r.out, "NWGRAPH")) X.check(l.back() == str(sym), "symmetric column"); });
      }
    }
  });
}
#elif DRV == 4
void mc_main(Ctx& X) {
  inputs(X, X.thorough ? 4 : 3, [&](const G& g, bool more) {
    write_file<DIR>(g, {}, more && g.e.size() % 2); std::vector<long> th{1, 3};
    std::vector<int> od(g.n); for (auto& e : g.e) ++od[e[0]]; std::vector<double> x(g.n, 1.0 / g.n); for (int k = 0; k < 400; ++k) { std::vector<double> y(g.n, (1 - 0.85f) / g.n); for (auto& e : g.e) y[e[1]] += 0.85f * x[e[0]] / od[e[0]]; x = y; }
    auto top = x; std::sort(top.rbegin(), top.rend());
    const std::vector<long> ids{1, 2, 4, 6, 7, 8, 9, 10, 11, 12, 14};    // 3 and 13 print unnormalised scores
    for (int p : {0, 3}) { if (p && !more) continue; rt::policy = p;
      X.run("pr", [&] { auto r = drive(X, &drv, args({"-f", F.path, "-i", "200", "-t", "1e-7", "-n", "2", "-v", "--log", "-"}, ids, th)); tables(X, r, "pr", ids, th, 2, 0);
        std::istringstream in(r.out); std::string l; int n = -1; size_t lists = 0, want = std::min(10, g.n); bool on = false;
        while (std::getline(in, l)) { if (l == "Verifying") { if (on) X.check(size_t(n) == want, "ranks printed"); on = true; n = 0; ++lists; continue; } unsigned long v; double s; char q; std::istringstream w(l); if (on && n < int(want) && w >> v >> q >> s && q == ':') { X.check(v < size_t(g.n) && std::fabs(s - x[v]) < 2e-5 && std::fabs(s - top[n]) < 2e-5, "rank", [&] { return "list " + str(lists) + ": " + l + " expected score " + str(x[v]) + " and " + str(n) + "-th best " + str(top[n]); }); ++n; } }
        X.check(lists == th.size() * ids.size() && size_t(n) == want, "rank lists"); });
      if (more) X.run("pr two files", [&] { auto q = tmpname("second.mtx"); std::filesystem::copy_file(tmpname(".mtx"), q, std::filesystem::copy_options::overwrite_existing); auto r = drive(X, &drv, {"-f", F.path, "-f", q, "--version", "11", "--version", "2", "-n", "3", "--log", "-", "2"}); std::map<std::string, int> c, t; for (auto& l : lines(r.out, "NWGRAPH")) ++c[l[l.size() - 2]]; X.check(c.size() == 2 && c[stem()] == 6 && c[stem() + "second"] == 6, "runs per file", [&] { return r.out; });
        for (auto& l : lines(r.out, F.path)) if (l.size() == 6 && l[0] == F.path) ++t["a"]; for (auto& l : lines(r.out, q)) if (l.size() == 6 && l[0] == q) ++t["b"]; X.check(t["a"] == 2 && t["b"] == 2, "rows per file", [&] { return r.out; }); });
    }
  });
}
#elif DRV == 5
void mc_main(Ctx& X) {
  inputs(X, X.thorough ? 4 : 3, [&](const G& g, bool more) {
    for (int wm = 0; wm < 2; ++wm) { std::vector<int> w; for (size_t i = 0; i < g.e.size(); ++i) w.push_back(wm ? 1 + int(i * 5 + i / 3) % 7 : int(g.e.size() - i));
    for (bool bin : {false, true}) { if (bin && !more) continue; write_file<DIR, int>(g, w, bin); std::vector<long> ids{0, 1, 6, 8, 9, 10, 11, 12, 13}, th{1, 3}; if (!more) th = {2};
      for (auto& a : from(g, 2)) for (int p : {0, 3}) { if (p && !more) continue; rt::policy = p;
        X.run("sssp " + a[0], [&] { auto b = a; for (auto x : {"-f", F.path.c_str(), "-v", "-V", "--log", "-", "--delta", p ? "1" : "3", "-i", p ? "2" : "1"}) b.push_back(x); auto r = drive(X, &drv, args(b, ids, th)); size_t per = a[0] == "-n" ? 2 : 1; tables(X, r, "sssp", ids, th, per, 0);
          auto L = lines(r.out, "iteration:"); X.check(L.size() == ids.size() * th.size() * per * (p ? 2 : 1), "searches"); for (auto& l : L) { long s = std::stol(l.back()); bool in = false; for (auto& e : g.e) in |= e[1] == s; X.check(a[0] == "-r" ? s == std::stol(a[1]) : in, "source", [&] { return "search from " + str(s); }); } });
      }
      for (int tr : {1, 2, 3}) for (int it : {1, 2, 3}) { if (!more && tr * it != 6) continue; X.run("sssp sources file", [&] { auto want = source_file(g, tr * it, tmpname(".src")); std::vector<long> q{0, 12}, t2{1, 2}; auto r = drive(X, &drv, args({"-f", F.path, "-s", tmpname(".src"), "-v", "-V", "--log", "-", "--delta", "2", "-n", str(tr), "-i", str(it)}, q, t2)); tables(X, r, "sssp", q, t2, tr, 0);
        auto L = lines(r.out, "iteration:"); X.check(L.size() == want.size() * 4, "searches"); for (size_t k = 0; k < L.size(); ++k) { X.check(L[k][1] == str(long(k % it)) && L[k].back() == str(want[k % want.size()]), "source", [&] { return "search " + str(k) + " of " + str(tr) + " trials of " + str(it) + " starts at " + L[k].back() + ", the file lists " + show(want); }); } }); }
    }
    edge_list<DIR, int> el(g.n); el.open_for_push_back(); for (size_t i = 0; i < g.e.size(); ++i) el.push_back(g.e[i][0], g.e[i][1], w[i]); el.close_for_push_back(); adjacency<0, int> A(el); auto wt = [](auto& e) -> auto& { return std::get<1>(e); };
    if (g.n <= 66) X.run("SSSPVerifier", [&] { for (int s = 0; s < std::min(g.n, 4); ++s) {
      std::vector<uint64_t> d(g.n, ~0ull); d[s] = 0; for (bool ch = true; ch;) { ch = false; for (size_t k = 0; k < g.e.size(); ++k) if (d[g.e[k][0]] != ~0ull && d[g.e[k][0]] + w[k] < d[g.e[k][1]]) { d[g.e[k][1]] = d[g.e[k][0]] + w[k]; ch = true; } }
      std::ostringstream e; auto* se = std::cerr.rdbuf(e.rdbuf()); std::vector<std::string> bad; if (!SSSPVerifier(A, s, d, false, wt)) bad.push_back("rejects exact distances");
      for (int v = 0; v < std::min(g.n, 8); ++v) for (long k : {-1, 1}) { auto q = d; q[v] += k; if (SSSPVerifier(A, s, q, false, wt)) bad.push_back("accepts a wrong distance of " + str(v)); }
      std::cerr.rdbuf(se); X.check(bad.empty(), "verifier", [&] { return "from " + str(s) + " " + bad[0]; }); } });
    }
  });
}
#elif DRV == 6
void mc_main(Ctx& X) {
  inputs(X, X.thorough ? 3 : 2, [&](const G& g, bool more) {
    std::set<E2> s; for (auto e : g.e) { if (e[0] > e[1]) std::swap(e[0], e[1]); if (e[0] != e[1]) s.insert(e); } size_t tri = 0; { std::vector<std::set<int>> a(g.n); for (auto& e : s) a[e[0]].insert(e[1]); for (auto& e : s) for (int k : a[e[1]]) tri += a[e[0]].count(k); }
    for (bool bin : {false, true}) { if (bin && !more) continue; write_file<UND>(g, {}, bin); std::vector<long> th{bin ? 1 : 3};
      for (std::string fmt : {"CSR", "VOV", "VOL"}) for (int mode = 0; mode < 6; ++mode) { if (!more && (fmt != "CSR") != (mode == 3)) continue; int p = (mode + bin) % 4; rt::policy = p;
        std::vector<long> ids = mode & 1 ? std::vector<long>{0, 2, 3, 6, 10, 11, 13, 14} : std::vector<long>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14};    // the others are documented for upper triangular order only
        if (!more && mode % 3) continue;
        X.run("tc " + fmt + (mode & 1 ? " lower" : " upper") + (mode >= 4 ? " heuristic relabel" : mode & 2 ? " relabel" : ""), [&] { std::vector<std::string> b{"-f", F.path, "-v", "--log", "-", "--format", fmt, mode & 1 ? "--lower" : "--upper", "-n", "2"}; if (mode & 6) b.push_back("--relabel"); if (mode & 4) b.push_back("--heuristic");
          auto r = drive(X, &drv, args(b, ids, th)); auto k = r.out.find("\n{"); if (r.out.compare(0, 1, "{") && k == std::string::npos) X.check(false, "no log", [&] { return r.out; }); auto j = nlohmann::json::parse(r.out.substr(k + 1)); size_t n = 0; std::map<std::pair<long, long>, int> seen;
          for (auto& f : j["Files"]) { X.check(f["File"] == F.path && f["Num_trials"] == 2, "file entry"); if (!(mode & 6)) X.check(f["Relabeled"] == false && f["Relabel_time"] == 0.0, "relabeled unasked"); if ((mode & 6) == 2) X.check(f["Relabeled"] == true, "relabeling not reported");
            for (auto& t : f["Runs"]) for (auto& i : t["runs"]) for (auto& q : i["runs"]) { ++n; ++seen[{q["id"].get<long>(), q["num_threads"].get<long>()}]; X.check(q["triangles"].get<size_t>() == tri, "triangles", [&] { return "version " + q["id"].dump() + " threads " + q["num_threads"].dump() + " reports " + q["triangles"].dump() + " expected " + str(tri); }); } }
          X.check(n == ids.size() * th.size() * 2, "runs"); for (auto& [kk, c] : seen) X.check(c == 2, "trials");
          auto L = lines(r.out, "verifier"); X.check(L.size() == 1 && L[0][2] == str(tri), "verifier", [&] { return r.out.substr(0, 300); }); });
      }
    }
  });
}
#elif DRV == 0
template <directedness D, class... A> std::vector<std::vector<long>> recs(edge_list<D, A...>& el) { std::vector<std::vector<long>> r; for (auto&& e : el) r.push_back(tup(e)); return r; }
static std::vector<long> degs(const G& g, int side, bool und) { std::vector<long> d(g.n); for (auto& e : g.e) { ++d[e[side]]; if (und) ++d[e[1 - side]]; } return d; }
template <class Ad> void helpers(Ctx& X, const G& g, Ad& A, const std::vector<long>& want, const char* t) {
  for (int p = 0; p < 4; ++p) { rt::policy = p; X.run(std::string("build_degrees ") + t, [&] { auto d = nb::build_degrees(A); X.check(vals(d) == want, "degrees", [&] { return show(d) + " expected " + show(want); }); }); }
  X.run(std::string("build_random_sources ") + t, [&] { for (size_t n : {0, 1, 7, 40}) for (long seed : {0, 1, 27491095}) { auto a = nb::build_random_sources(A, n, seed), b = nb::build_random_sources(A, n, seed); X.check(a.size() == n, "number of sources"); X.check(a == b, "not reproducible"); for (auto s : a) X.check(size_t(s) < A.size() && want[s] > 0, "source", [&] { return "vertex " + str(s) + " chosen, degrees " + show(want); }); }
    std::set<long> hit; for (auto s : nb::build_random_sources(A, 400, 3)) hit.insert(long(s)); if (g.n <= 4) for (int v = 0; v < g.n; ++v) X.check(!want[v] || hit.count(v), "a vertex is never chosen", [&] { return str(v); }); });
}
void mc_main(Ctx& X) {
  auto f = [&](const G& g, bool more) {
    std::vector<int> w; for (size_t i = 0; i < g.e.size(); ++i) w.push_back(int(i) * 3 - 2);
    std::vector<std::vector<long>> plain, weighted; for (size_t i = 0; i < g.e.size(); ++i) { plain.push_back({g.e[i][0], g.e[i][1]}); weighted.push_back({g.e[i][0], g.e[i][1], w[i]}); }
    auto same = [&](auto el, auto& want, const char* how) { auto r = recs(el); X.check(r == want, "records", [&] { return std::string(how) + " has " + str(r.size()) + " records"; }); X.check(el.num_vertices()[0] == size_t(g.n), "vertices", [&] { return std::string(how) + " has " + str(el.num_vertices()[0]); }); };
    write_file<DIR>(g, {}, false); X.run("load_graph text", [&] { same(nb::load_graph<DIR>(F.path), plain, "directed"); same(nb::load_graph<UND>(F.path), plain, "undirected"); });
    write_file<DIR, int>(g, w, false); X.run("load_graph weighted text", [&] { same(nb::load_graph<DIR, int>(F.path), weighted, "directed"); });
    write_file<UND, int>(g, w, true); X.run("load_graph binary", [&] { same(nb::load_graph<UND, int>(F.path), weighted, "undirected"); });
    X.run("process_edge_list", [&] { write_file<DIR, int>(g, w, false); auto d = tmpname(".d"), u = tmpname(".u"); for (int m = 1; m < 4; ++m) { ::unlink(d.c_str()); ::unlink(u.c_str()); std::vector<std::string> a{F.path}; if (m & 2) { a.insert(a.begin(), u); a.insert(a.begin(), "-u"); } if (m & 1) { a.insert(a.begin(), d); a.insert(a.begin(), "-d"); }
      drive(X, &d_pel::drv, a); X.check((access(d.c_str(), F_OK) == 0) == bool(m & 1) && (access(u.c_str(), F_OK) == 0) == bool(m & 2), "output files"); if (m & 1) same(nb::load_graph<DIR, int>(d), weighted, "directed output"); if (m & 2) same(nb::load_graph<UND, int>(u), weighted, "undirected output"); } });
    edge_list<DIR> el(g.n); el_fill(el, g); adjacency<1> in(el); adjacency<0> out(el); edge_list<DIR, int> ew(g.n); el_fill(ew, g); adjacency<0, int> wo(ew); vov<0> vo(el);
    X.run("build_adjacency", [&] { auto a = nb::build_adjacency<0>(el); auto b = nb::build_adjacency<1>(el, true); auto ra = ref_rows(g, g.n, 0, false, 0), rb = ref_rows(g, g.n, 1, false, 0); X.check(a.size() == size_t(g.n) && b.size() == size_t(g.n), "rows"); for (int v = 0; v < g.n; ++v) { X.check(sorted(read_row(a[v])) == ra[v], "out row"); X.check(read_row(b[v]) == rb[v], "sorted in row"); } });
    if (g.e.empty()) return;
    helpers(X, g, in, degs(g, 0, false), "in-edges"); helpers(X, g, out, degs(g, 1, false), "out-edges");
    { const auto& K = in; for (int p = 0; p < 4; ++p) { rt::policy = p; X.run("build_degrees const", [&] { auto d = nb::build_degrees(K); X.check(vals(d) == degs(g, 0, false), "degrees"); }); } }
    X.run("sources driver", [&] { write_file<DIR>(g, {}, false); auto s = nb::build_random_sources(in, 6, 27491095); for (int wrong = 0; wrong < 3; ++wrong) { { std::ofstream o(tmpname(".src")); o << "%%MatrixMarket matrix array integer general\n6 1\n"; for (size_t i = 0; i < 6; ++i) o << s[i] + 1 + (wrong == 1 && i == 5) + (wrong == 2 && i % 2) << "\n"; }
      std::ostringstream o, e; auto* so = std::cout.rdbuf(o.rdbuf()); auto* se = std::cerr.rdbuf(e.rdbuf()); std::vector<std::string> a{"x", "-f", F.path, "-s", tmpname(".src"), "-i", "2", "-n", "3"}; std::vector<char*> v; for (auto& x : a) v.push_back(x.data()); v.push_back(nullptr); int rc = d_src::drv(int(a.size()), v.data()); std::cout.rdbuf(so); std::cerr.rdbuf(se);
      auto L = lines(o.str(), "failures"); long want = wrong == 1 ? 1 : wrong == 2 ? 3 : 0; X.check(rc == 0 && L.size() == 1 && L[0][0] == str(want), "failures reported", [&] { return o.str() + e.str(); });
      auto ld = nb::load_sources_from_file(in, tmpname(".src"), 6); if (!wrong) X.check(vals(ld) == vals(s), "loaded sources"); } });
  };
  X.section("empty graph"); { G g; g.n = 3; X.state([&] { return g.desc(); }, [&] { f(g, true); }); }
  inputs(X, X.thorough ? 4 : 3, f);
  X.section("timing tables");
  for (int n = 1; n <= 4; ++n) each_seq(4, n, [&](const std::vector<int>& s) { X.state([&] { return "samples " + show(s); }, [&] { X.run("Times", [&] {
    nb::Times<int> t; std::map<int, std::vector<int>> want; for (int i = 0; i < n; ++i) { t.append(s[i] % 2 ? "graph_b" : "a", 7 + s[i] % 2, 2, s[i] * 1.5, i); want[s[i] % 2].push_back(i); }
    size_t rows = 0; for (auto&& [c, v] : t) { auto [f, id, th] = c; int k = f == "graph_b"; ++rows; X.check(id == 7 + k && th == 2 && v.size() == want[k].size(), "configuration"); for (size_t i = 0; i < v.size(); ++i) X.check(std::get<0>(v[i]) == s[want[k][i]] * 1.5 && std::get<1>(v[i]) == want[k][i], "sample"); }
    X.check(rows == want.size(), "configurations"); std::ostringstream o; t.print(o); auto T = lines(o.str(), "2"); X.check(T.size() == want.size(), "rows printed", [&] { return o.str(); });
    for (auto& l : T) { auto& q = want[l[0] == "graph_b"]; double mn = 1e9, mx = -1, sm = 0; for (int i : q) { mn = std::min(mn, s[i] * 1.5); mx = std::max(mx, s[i] * 1.5); sm += s[i] * 1.5; } X.check(l.size() == 6 && std::fabs(std::stod(l[3]) - mn) < 1e-5 && std::fabs(std::stod(l[4]) - sm / q.size()) < 1e-5 && std::fabs(std::stod(l[5]) - mx) < 1e-5, "min avg max", [&] { return o.str(); }); } });
    X.run("Times record", [&] { nb::Times<int> t; int calls = 0, ver = 0; for (int x : s) { auto [r] = t.record("f", x, 1, [&] { ++calls; return x * 10; }, x); X.check(r == x * 10, "result"); t.record("f", x, 1, [&] { ++calls; return x * 10; }, [&](int v) { ++ver; X.check(v == x * 10, "verified value"); }, x); } X.check(calls == 2 * n && ver == n, "operations run", [&] { return str(calls); }); size_t k = 0; for (auto&& [c, v] : t) k += v.size(); X.check(k == size_t(2 * n), "samples kept"); }); }); });
}
#else
void mc_main(Ctx& X) {
  sc::Opt o{2, X.thorough ? 5 : 4}, o3{3, X.thorough ? 3 : 2};
  X.section("edge sequences over 3 vertices"); for (int k = 1; k <= 4; ++k) each_edge_seq(3, 3, k, [&](G g) { g.n = 3; X.state([&] { return g.desc(); }, [&] {
    edge_list<DIR> el(3); el_fill(el, g); adjacency<1> A(el); std::vector<long> want(3); for (auto& e : g.e) ++want[e[0]];
    X.run("build_degrees", [&] { sc::explore(X, k < 4 ? o : sc::Opt{2, o.bound - 1}, [&] { return nb::build_degrees(A); }, [&](auto& d) { return vals(d) == want ? std::string() : "degrees " + show(d) + " expected " + show(want); }); });
    if (k <= 3) X.run("build_degrees three tasks", [&] { sc::explore(X, o3, [&] { return nb::build_degrees(A); }, [&](auto& d) { return vals(d) == want ? std::string() : "degrees " + show(d) + " expected " + show(want); }); }); }); });
}
#endif
