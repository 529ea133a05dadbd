// Matrix Market.  PART 0: reading (text -> records).  PART 1: writing and reading back.
#include "common.hpp"
#include <nwgraph/io/mmio.hpp>
#include <fstream>
using namespace mc;
static std::string scratch(const char* t) { return std::string("mm-") + str(getpid()) + "-" + t + ".mtx"; }
static void put(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; }
template <class R> std::string shr(const R& v) { std::string s; for (auto& t : v) s += std::apply([](auto&&... x) { std::ostringstream o; o.precision(17); ((o << x << " "), ...); return "(" + o.str() + ")"; }, t); return s; }
template <class EL> auto recs(EL& el) { using T = std::decay_t<decltype(std::tuple_cat(std::tuple<long, long>{}, typename EL::attributes_t{}))>; std::vector<T> r; for (auto&& e : el) r.push_back(std::apply([](auto&&... x) { return T{x...}; }, e)); return r; }
#if PART == 0
struct File { std::string text, body; std::vector<std::array<int, 2>> e; std::vector<std::string> w; int n0, n1; bool sym; std::string field; };
template <class T> T as(const std::string& s, bool pattern) { if (pattern) return T(1); return T(std::strtod(s.c_str(), nullptr)); }
template <directedness D, class... A> void read_one(Ctx& X, const File& f, const std::string& fn, const char* t) {
  bool pat = f.field == "pattern";
  X.run(std::string("read_mm ") + t, [&] {
    using R = std::tuple<long, long, A...>; std::vector<R> want; int n = f.n0;
    for (size_t k = 0; k < f.e.size(); ++k) {
      auto mk = [&](long u, long v) { return R{u, v, as<A>(pat ? "" : f.w[k], pat)...}; };
      want.push_back(mk(f.e[k][0], f.e[k][1])); n = std::max({n, f.e[k][0] + 1, f.e[k][1] + 1});
      if (D == directedness::directed && f.sym && f.e[k][0] != f.e[k][1]) want.push_back(mk(f.e[k][1], f.e[k][0]));
    }
    for (int m = 0; m < 2; ++m) {
      std::istringstream is(f.text); edge_list<D, A...> el = m ? read_mm<D, A...>(fn) : read_mm<D, A...>(is);
      auto got = recs(el); X.check(got == want, m ? "records (file)" : "records (stream)", [&] { return shr(got) + " expected " + shr(want); });
      X.check(long(num_vertices(el)) == n && el.size() == want.size(), "sizes", [&] { return str(num_vertices(el)) + " vertices, expected " + str(n); });
    }
    X.outcome(hmix(want.size(), uint64_t(n)));
  });
}
template <class... A> void read_bi(Ctx& X, const File& f, const char* t) {
  bool pat = f.field == "pattern"; if (f.sym && f.n0 != f.n1) return;
  X.run(std::string("mm_fill bipartite ") + t, [&] {
    using R = std::tuple<long, long, A...>; std::vector<R> want; for (size_t k = 0; k < f.e.size(); ++k) { want.push_back(R{f.e[k][0], f.e[k][1], as<A>(pat ? "" : f.w[k], pat)...}); if (f.sym && f.e[k][0] != f.e[k][1]) want.push_back(R{f.e[k][1], f.e[k][0], as<A>(pat ? "" : f.w[k], pat)...}); }
    std::istringstream is(f.body); bi_edge_list<directedness::directed, A...> el(f.n0, f.n1); mm_fill(is, el, f.e.size(), f.sym, pat);
    auto got = recs(el); X.check(got == want, "records", [&] { return shr(got) + " expected " + shr(want); }); X.check(long(num_vertices(el, 0)) == f.n0 && long(num_vertices(el, 1)) == f.n1, "sides");
  });
}
template <class... V> void mapped(Ctx& X, const File& f, const std::string& fn, bool cuts) {
  if (sizeof...(V) && f.field == "pattern") return;
  X.run("MatrixMarketFile edges " + str(sizeof...(V)), [&] {
    mmio::MatrixMarketFile mm{std::filesystem::path(fn)}; int N = int(f.e.size());
    X.check(mm.getNRows() == f.n0 && mm.getNCols() == f.n1 && mm.getNEdges() == N && mm.isPattern() == (f.field == "pattern") && mm.isSymmetric() == f.sym, "header");
    using R = std::tuple<long, long, V...>; std::vector<R> want; for (int k = 0; k < N; ++k) { if constexpr (sizeof...(V) == 2) { double re, im; sscanf(f.w[k].c_str(), "%lf %lf", &re, &im); want.push_back(R{f.e[k][0], f.e[k][1], re, im}); } else want.push_back(R{f.e[k][0], f.e[k][1], as<V>(f.w[k], false)...}); }
    auto rd = [&](const std::vector<int>& c) { std::vector<R> got; for (size_t i = 0; i + 1 < c.size(); ++i) { auto r = mmio::edges<V...>(mm, c[i], c[i + 1]); for (auto it = r.begin(); it != r.end(); ++it) { got.push_back(std::apply([](auto... x) { return R{x...}; }, *it)); if (got.size() > want.size() + 4) return got; } } return got; };
    auto ck = [&](const std::vector<int>& c) { auto got = rd(c); X.check(got == want, "blocks", [&] { return "cuts " + show(c) + ": " + shr(got) + " expected " + shr(want); }); };
    ck({0, N});
    if (cuts && N <= 6) for (int m = 0; m < (1 << (N + 1)); ++m) { std::vector<int> c{0}; for (int i = 0; i <= N; ++i) if (m >> i & 1) c.push_back(i); c.push_back(N); ck(c); }
    if (N > 6) { for (int i = 0; i <= N; i += std::max(1, N / 50)) for (int j = i; j <= N; j += std::max(1, N / 50)) ck({0, i, j, N}); for (int b = 1; b <= 17; ++b) { std::vector<int> c; for (int i = 0; i <= b; ++i) c.push_back(int(long(N) * i / b)); ck(c); } }
    release(mm); mm.release();
  });
}
static const char* VALS[] = {"1", "-3", "2.5", "0.1", "1e-3", "123456789", "-0", "7.25E2"};
static const char* IVALS[] = {"1", "-3", "25", "0", "123456789", "-1000000", "42", "7"};
static File make(const G& g, int n0, int n1, const std::string& field, bool sym, int style) {
  File f; f.n0 = n0; f.n1 = n1; f.sym = sym; f.field = field; f.e.assign(g.e.begin(), g.e.end());
  std::string t = "%%MatrixMarket matrix coordinate " + field + (sym ? " symmetric\n" : " general\n");
  if (style == 1) t += "%\n% a comment with 3 3 1\n%%\n"; if (style == 2) t += "%%MatrixMarket again\n";
  t += str(n0) + " " + str(n1) + " " + str(g.e.size()); 
  std::string b; const char* sep = style == 3 ? "  \t" : " ";
  for (size_t k = 0; k < g.e.size(); ++k) { std::string w = field == "complex" ? std::string(VALS[k % 8]) + " " + VALS[(k + 3) % 8] : field == "integer" ? IVALS[k % 8] : VALS[(k * 3 + 2) % 8]; f.w.push_back(w); b += "\n" + std::string(style == 3 ? " " : "") + str(g.e[k][0] + 1) + sep + str(g.e[k][1] + 1) + (field == "pattern" ? "" : sep + w); }
  bool nl = style != 2; t += b; if (nl || g.e.empty()) t += "\n"; if (!b.empty()) f.body = b.substr(1) + (nl ? "\n" : ""); f.text = t; return f;
}
static void go(Ctx& X, const G& g, int n0, int n1, const std::string& field, bool sym, int style) {
  X.state([&] { return field + (sym ? " symmetric" : " general") + " style " + str(style) + " " + str(n0) + "x" + str(n1) + " " + g.desc(); }, [&] {
    File f = make(g, n0, n1, field, sym, style); auto fn = scratch("r"); put(fn, f.text);
    if (field != "complex") {
      read_one<directedness::directed>(X, f, fn, "directed"); read_one<directedness::undirected>(X, f, fn, "undirected");
      if (field == "real" || field == "pattern") { read_one<directedness::directed, double>(X, f, fn, "directed double"); read_one<directedness::undirected, double>(X, f, fn, "undirected double"); read_bi<double>(X, f, "double"); }
      if (field == "integer" || field == "pattern") { read_one<directedness::directed, int>(X, f, fn, "directed int"); read_one<directedness::undirected, int>(X, f, fn, "undirected int"); read_bi<int>(X, f, "int"); }
      if (field == "integer") { read_one<directedness::directed, double>(X, f, fn, "directed integers as double"); mapped<int>(X, f, fn, true); }
      read_bi<>(X, f, "plain");
    }
    mapped<>(X, f, fn, true); mapped<double>(X, f, fn, true); if (field == "complex") mapped<double, double>(X, f, fn, true); else X.run("kind", [&] { X.check(is_mm(fn), "is_mm"); X.check((get_mm_symmetry(fn) == directedness::undirected) == sym, "get_mm_symmetry"); put(fn, "1 2\n2 3\n"); X.check(!is_mm(fn), "is_mm of a plain file"); });
    unlink(fn.c_str());
  });
}
template <class... V> void complex_only() {}
void mc_main(Ctx& X) {
  X.section("every file of up to k entries over a 3x3 matrix");
  for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g) { for (const char* field : {"pattern", "real", "integer", "complex"}) for (int sym = 0; sym < 2; ++sym) for (int style = 0; style < 4; ++style) { if (field[0] == 'c' && (sym || k > 2)) continue; if (k == 4 && (style != 2)) continue; go(X, g, 3, 3, field, sym, style); } });
  X.section("rectangular and declared sizes");
  for (int a = 1; a <= 4; ++a) for (int b = 1; b <= 4; ++b) for (int k = 0; k <= 2; ++k) each_edge_seq(a, b, k, [&](const G& g) { for (const char* field : {"pattern", "real", "integer"}) go(X, g, a + (k & 1), b, field, false, a % 4); });
  X.section("size sweep: every pair of cut points");
  for (int n : {7, 12, 30, 64, 65, 100, 129, 300, 1000}) for (auto& f : {g_path(n), g_star(n), g_circ(n, {1, 5, 8})}) for (const char* field : {"pattern", "real", "integer"}) for (int style : {0, 2}) { if (n == 1000 && !X.thorough && style) continue; go(X, f, n, n, field, style == 0, style); }
  X.section("large sizes");
  for (auto& g : huge(true, {4097, 12000, 102000})) for (int k = 0; k < 3; ++k) { const char* field = k == 0 ? "pattern" : k == 1 ? "real" : "integer"; if (g.e.size() % 3 != size_t(k) && g.n > 5000) continue; X.state([&] { return field + std::string(" ") + g.desc(); }, [&] {
    File f = make(g, g.n, g.n, field, k == 1, k); auto fn = scratch("L"); put(fn, f.text); X.run("records", [&] {
      auto rd = [&]<class... V>(std::tuple<V...>*) { mmio::MatrixMarketFile mm{std::filesystem::path(fn)}; int N = int(f.e.size()); for (int B : {1, 3, 7}) { size_t at = 0; for (int i = 0; i < B; ++i) { auto [lo, hi] = nw::graph::block(N, B, i); auto r = mmio::edges<V...>(mm, lo, hi); for (auto it = r.begin(); it != r.end(); ++it, ++at) { auto t = *it; X.check(at < f.e.size() && long(std::get<0>(t)) == f.e[at][0] && long(std::get<1>(t)) == f.e[at][1], "mapped entry", [&] { return str(at); }); if constexpr (sizeof...(V)) X.check(double(std::get<2>(t)) == std::strtod(f.w[at].c_str(), nullptr), "mapped value", [&] { return str(at); }); } } X.check(at == f.e.size(), "mapped count"); } release(mm); mm.release(); };
      if (k == 0) rd((std::tuple<>*)nullptr); else rd((std::tuple<double>*)nullptr); });
    if (k == 0) read_one<directedness::directed>(X, f, fn, "directed"); else if (k == 1) { read_one<directedness::directed, double>(X, f, fn, "directed double"); read_one<directedness::undirected, double>(X, f, fn, "undirected double"); } else read_one<directedness::directed, int>(X, f, fn, "directed int");
    unlink(fn.c_str()); }); }
  X.section("line lengths: file sizes around the page size");
  for (int pad = 0; pad <= 40; ++pad) for (int nl = 0; nl < 2; ++nl) X.state([&] { return "pad " + str(pad) + " nl " + str(nl); }, [&] {
    // file length sweeps over a multiple of 4096
    G g; for (int i = 0; i < 500; ++i) g.e.push_back({i % 90, (i * 7) % 90}); File f = make(g, 90, 90, "pattern", false, 0);
    std::string t = f.text; if (!nl) t.pop_back(); long target = (long(t.size()) / 4096 + 1) * 4096 - 20 + pad; std::string c = "%" + std::string(target - t.size() - 2, 'x') + "\n"; size_t p = t.find('\n') + 1; std::string head = t.substr(0, p), rest = t.substr(p);
    while (c.size() > 900) { head += "%" + std::string(898, 'y') + "\n"; c = c.substr(900); if (c.size() < 2) break; c[0] = '%'; } f.text = head + c + rest; auto fn = scratch("p"); put(fn, f.text);
    bool multiple = f.text.size() % 4096 == 0; if (multiple && !nl) { unlink(fn.c_str()); return; }    // a number may not end at the end of the mapping
    mapped<>(X, f, fn, false); read_one<directedness::directed>(X, f, fn, "directed"); unlink(fn.c_str());
  });
  X.section("index vectors");
  for (int n = 0; n <= 4; ++n) each_seq(4, n, [&](const std::vector<int>& s) { for (int style = 0; style < 3; ++style) X.state([&] { return show(s) + " style " + str(style); }, [&] { X.run("read_mm_vector", [&] {
    std::string t = "%%MatrixMarket matrix array integer general\n"; if (style) t += "% c\n"; t += str(n) + " 1\n"; for (int x : s) t += str(x + 1) + (style == 2 ? " " : "\n"); std::istringstream is(t); auto v = read_mm_vector<unsigned>(is); X.check(v == std::vector<unsigned>(s.begin(), s.end()), "values", [&] { return show(v); });
    auto fn = scratch("v"); put(fn, t); auto w = read_mm_vector<size_t>(fn); X.check(w == std::vector<size_t>(s.begin(), s.end()), "values", [&] { return show(w); }); unlink(fn.c_str()); }); }); });
}
#else
static const double DV[] = {1.0, -0.1, 1.0 / 3, 1e-300, 123456789.123456789, 2.5e17, -7, 1234567.0};
static const long IV[] = {1, -3, 25, 0, 123456789, -1000000, 42, 7};
template <class T> T val(size_t k, int c) { if constexpr (std::is_floating_point_v<T>) return T(DV[(k + 3 * c) % 8]); else return T(IV[(k + 3 * c) % 8]); }
template <class EL> void fillv(EL& el, const G& g) { el.open_for_push_back(); for (size_t k = 0; k < g.e.size(); ++k) { [&]<class... A>(std::tuple<A...>*) { int c = 0; std::tuple<A...> t{val<A>(k, c++)...}; std::apply([&](auto... a) { el.push_back(g.e[k][0], g.e[k][1], a...); }, t); }((typename EL::attributes_t*)nullptr); } el.close_for_push_back(); }
template <size_t W, class T, directedness D, class... A> void el_rt(Ctx& X, const G& g, const char* t) {
  X.run(std::string("write_mm edge list ") + t, [&] {
    edge_list<D, A...> el(g.n); fillv(el, g); auto before = recs(el); auto fn = scratch("w");
    write_mm<W, T>(fn, el); X.check(recs(el) == before, "the written list changed");
    auto proj = [&](auto& r, bool sw) { using P = std::tuple<long, long>; P p = sw ? P{std::get<1>(r), std::get<0>(r)} : P{std::get<0>(r), std::get<1>(r)}; if constexpr (W == 0) return std::tuple_cat(p); else return std::tuple_cat(p, std::tuple{std::get<W>(r)}); };
    std::vector<decltype(proj(before[0], false))> once, both; for (auto& r : before) { once.push_back(proj(r, false)); both.push_back(proj(r, false)); if (D == directedness::undirected) both.push_back(proj(r, true)); }
    auto ck = [&](auto&& back, auto& want, const char* w) { auto got = recs(back); X.check(got == want, w, [&] { return shr(got) + " expected " + shr(want); }); X.check(num_vertices(back) == num_vertices(el), "vertex count", [&] { return str(num_vertices(back)); }); };
    auto rd = [&]<directedness R>(std::integral_constant<directedness, R>) { if constexpr (W == 0) return read_mm<R>(fn); else return read_mm<R, std::tuple_element_t<W, std::tuple<int, int, A...>>>(fn); };
    ck(rd(std::integral_constant<directedness, directedness::directed>{}), both, "general, read as directed");
    X.check(is_mm(fn) && get_mm_symmetry(fn) == directedness::directed, "symmetry of a general file");
    if constexpr (D == directedness::undirected) {
      write_mm<W, T>(fn, el, "symmetric"); X.check(get_mm_symmetry(fn) == directedness::undirected, "symmetry"); ck(rd(std::integral_constant<directedness, directedness::undirected>{}), once, "symmetric, read as undirected");
      std::vector<decltype(proj(before[0], false))> sym; for (auto& r : before) { sym.push_back(proj(r, false)); if (std::get<0>(r) != std::get<1>(r)) sym.push_back(proj(r, true)); } ck(rd(std::integral_constant<directedness, directedness::directed>{}), sym, "symmetric, read as directed");
    } else ck(rd(std::integral_constant<directedness, directedness::undirected>{}), once, "general directed, read as undirected");
    mmio::MatrixMarketFile mm{std::filesystem::path(fn)}; size_t c = 0; auto r = mmio::edges<>(mm, 0, mm.getNEdges()); for (auto it = r.begin(); it != r.end(); ++it) { auto [u, v] = *it; X.check(c < once.size() + both.size() && u >= 0 && v >= 0 && u < mm.getNRows() && v < mm.getNCols(), "entry outside the matrix"); ++c; } X.check(c == size_t(mm.getNEdges()), "entry count of the header", [&] { return str(c) + " vs " + str(mm.getNEdges()); });
    unlink(fn.c_str()); X.outcome(hmix(before.size(), g.n));
  });
}
// writes an adjacency and reads its rows back
template <class T, size_t W, class Ad> void ad_rt(Ctx& X, Ad& A, size_t n0, size_t n1, const std::string& t) {
  X.run("write_mm " + t, [&] {
    auto fn = scratch("a"); write_mm<W, T>(fn, A);
    std::ifstream is(fn); std::string banner, cm; std::getline(is, banner); while (is.peek() == '%') std::getline(is, cm);
    size_t a, b, m; is >> a >> b >> m; X.check(a == n0 && b == n1, "dimensions", [&] { return str(a) + "x" + str(b); });
    std::string want_b = std::string("%%MatrixMarket matrix coordinate ") + (W == 0 ? "pattern" : std::is_floating_point_v<T> ? "real" : "integer") + " general"; X.check(banner == want_b, "banner", [&] { return banner; });
    std::vector<std::tuple<long, long, double>> got, want; for (size_t u = 0; u < size_t(A.size()); ++u) for (auto&& e : A[u]) { if constexpr (W == 0) want.push_back({long(u), long(std::get<0>(e)), 0}); else want.push_back({long(u), long(std::get<0>(e)), double(std::get<W>(e))}); }
    long u, v; while (is >> u >> v) { double w = 0; if (W) { if constexpr (std::is_same_v<T, float>) { float x; is >> x; w = x; } else is >> w; } got.push_back({u - 1, v - 1, w}); if (got.size() > want.size() + 3) break; }
    X.check(got == want && m == want.size(), "entries", [&] { return shr(got) + " expected " + shr(want) + " header " + str(m); });
    is.close();
    if (n0 == n1) { if constexpr (W == 0) { auto back = read_mm<directedness::directed>(fn); adjacency<0> B(back); for (size_t r = 0; r < n0; ++r) { std::vector<long> x, y; for (auto&& e : A[r]) x.push_back(std::get<0>(e)); for (auto&& e : B[r]) y.push_back(std::get<0>(e)); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); X.check(x == y, "rows read back"); } X.check(size_t(num_vertices(B)) == n0, "vertex count read back"); } }
    unlink(fn.c_str());
  });
}
static void go(Ctx& X, const G& g) {
  el_rt<0, void, directedness::directed>(X, g, "directed"); el_rt<0, void, directedness::undirected>(X, g, "undirected");
  el_rt<2, double, directedness::directed, double>(X, g, "directed double"); el_rt<2, double, directedness::undirected, double>(X, g, "undirected double"); el_rt<2, int, directedness::undirected, int>(X, g, "undirected int");
  el_rt<3, double, directedness::undirected, int, double>(X, g, "undirected second attribute"); el_rt<2, int, directedness::directed, int, double>(X, g, "directed first attribute"); el_rt<2, float, directedness::directed, float>(X, g, "directed float");
  { edge_list<DIR, double> el(g.n); fillv(el, g); adjacency<0, double> A(el); adjacency<1, double> B(el); ad_rt<double, 1>(X, A, g.n, g.n, "adjacency"); ad_rt<double, 1>(X, B, g.n, g.n, "adjacency index 1"); }
  { edge_list<DIR> el(g.n); fillv(el, g); adjacency<0> A(el); adjacency<1> B(el); ad_rt<void, 0>(X, A, g.n, g.n, "plain adjacency"); ad_rt<void, 0>(X, B, g.n, g.n, "plain adjacency index 1"); }
  { edge_list<UND, int, float> el(g.n); fillv(el, g); adjacency<0, int, float> A(el); ad_rt<int, 1>(X, A, g.n, g.n, "undirected adjacency int"); ad_rt<float, 2>(X, A, g.n, g.n, "undirected adjacency float"); }
}
static void bip(Ctx& X, const G& g, int a, int b) {
  { bi_edge_list<DIR, double> el(a, b); fillv(el, g); biadjacency<0, double> A(el); biadjacency<1, double> B(el); ad_rt<double, 1>(X, A, a, b, "biadjacency 0"); ad_rt<double, 1>(X, B, b, a, "biadjacency 1"); }
  { bi_edge_list<DIR> el(a, b); fillv(el, g); biadjacency<0> A(el); biadjacency<1> B(el); ad_rt<void, 0>(X, A, a, b, "plain biadjacency 0"); ad_rt<void, 0>(X, B, b, a, "plain biadjacency 1"); }
}
void mc_main(Ctx& X) {
  X.section("edge sequences over 3 vertices"); for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(3, 3, k, [&](G g) { for (int extra = 0; extra < 2; ++extra) { g.n = 3 + 2 * extra; X.state([&] { return g.desc(); }, [&] { go(X, g); }); } });
  X.section("bipartite"); for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 3; ++b) for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(a, b, k, [&](const G& g) { X.state([&] { return str(a) + "x" + str(b) + " " + g.desc(); }, [&] { bip(X, g, a, b); }); });
  X.section("digraphs on 4 vertices"); each_digraph(4, false, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { go(X, g); }); });
  X.section("size sweep"); for (int n : sweep_sizes(X.thorough)) for (auto& f : families(n)) { if (f.e.size() > 1500) continue; X.state([&] { return f.desc(); }, [&] { go(X, f); }); }
  X.section("large sizes");
  for (auto& f : huge(true, {1025, 12000, 102000})) X.state([&] { return f.desc(); }, [&] { if (f.n < 50000) go(X, f); else { el_rt<2, double, directedness::undirected, double>(X, f, "undirected double"); el_rt<0, void, directedness::directed>(X, f, "directed"); } });
}
#endif
