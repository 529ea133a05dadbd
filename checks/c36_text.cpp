// What the containers print: every record, in order, on the stream given, and nothing anywhere else.
#include "common.hpp"
#include <nwgraph/containers/aos.hpp>
#include <iostream>
#include <sstream>
using namespace mc;
using Toks = std::vector<std::vector<std::string>>;    // lines of tokens, as written
static Toks lines(const std::string& s) { Toks o; std::istringstream in(s); std::string l, w; while (std::getline(in, l)) { std::istringstream q(l); o.emplace_back(); while (q >> w) o.back().push_back(w); } return o; }
static std::string text(const Toks& t) { std::string o; for (auto& l : t) { for (auto& w : l) o += w + " "; o += "/ "; } return o; }
// runs f with std::cout going to the second stream
template <class F> std::array<std::string, 2> printed(F&& f) { std::ostringstream given, std_out; auto* old = std::cout.rdbuf(std_out.rdbuf()); f(static_cast<std::ostream&>(given)); std::cout.rdbuf(old); return {given.str(), std_out.str()}; }
template <class T> std::string shown(const T& x) { std::ostringstream o; o << x; return o.str(); }
static std::vector<long> numbers(const std::string& s) {    // the whole-number words
  std::vector<long> v; std::istringstream in(s); std::string w; while (in >> w) if (!w.empty() && w.find_first_not_of("0123456789") == w.npos) v.push_back(std::stol(w)); return v; }
template <class F> void expect(Ctx& X, const char* key, const Toks& want, F&& f) {
  auto [a, b] = printed(f); Toks got = lines(a);
  X.check(b.empty(), "printed elsewhere", [&] { return std::string(key) + " wrote to std::cout: " + b; });
  X.check(got == want, key, [&] { return text(got) + "expected " + text(want); });
}
template <class EL> void edge_lists(Ctx& X, EL& el, const Toks& recs, std::vector<long> counts, const std::string& t) {
  X.run(t + "edges", [&] { expect(X, "stream_edges", recs, [&](std::ostream& o) { el.stream_edges(o); }); expect(X, "stream", recs, [&](std::ostream& o) { el.stream(o); });
    auto [none, out] = printed([&](std::ostream&) { el.stream_edges(); }); X.check(lines(out) == recs && none.empty(), "stream_edges to std::cout"); });
  X.run(t + "stats", [&] { counts.push_back(recs.size()); auto [a, b] = printed([&](std::ostream& o) { el.stream_stats(o); }); X.check(b.empty(), "printed elsewhere"); auto n = numbers(a);
    X.check(n.size() >= counts.size() && std::vector<long>(n.end() - counts.size(), n.end()) == counts && a.size() && a[0] == '%' && a.back() == '\n' && std::count(a.begin(), a.end(), '\n') == 1, "stream_stats", [&] { return a; }); });
  X.run(t + "unchanged", [&] { size_t k = 0; for (auto&& e : el) { std::vector<std::string> w; std::apply([&](auto&&... x) { (w.push_back(shown(x)), ...); }, e); X.check(w == recs[k], "record"); ++k; } X.check(k == recs.size(), "size"); });
}
template <int idx, class EL> void graphs(Ctx& X, EL& el, const std::string& t) {
  auto go = [&](auto a) {
    Toks byrow, pairs; size_t m = 0; for (size_t v = 0; v < a.size(); ++v) { byrow.push_back({"==>", str(v) + ":"}); for (auto&& e : a[v]) { byrow.back().push_back(str(std::get<0>(e))); pairs.push_back({"(", str(v), ",", str(std::get<0>(e)), ")"}); ++m; } }
    auto trimmed = [](Toks t) { Toks o; for (auto& l : t) if (!l.empty() && l[0] != "+++") o.push_back(l); return o; };
    auto [s, e] = printed([&](std::ostream& o) { a.stream_indices(o); }); X.check(e.empty(), "printed elsewhere", [&] { return e; }); X.check(trimmed(lines(s)) == byrow, "stream_indices", [&] { return text(lines(s)) + "expected " + text(byrow); });
    auto [n2, s2] = printed([&](std::ostream&) { a.stream_indices(); }); X.check(s2 == s && n2.empty(), "stream_indices to std::cout");
    auto [n3, s3] = printed([&](std::ostream&) { a.stream(); }); Toks sp; for (auto& l : lines(s3)) { std::string j; for (auto& w : l) j += w; sp.push_back({j}); } Toks want; for (auto& l : pairs) { std::string j; for (auto& w : l) j += w; want.push_back({j}); }
    X.check(n3.empty() && sp == want, "stream", [&] { return text(sp) + "expected " + text(want); });
    auto [n4, s4] = printed([&](std::ostream&) { a.stream("some words\n"); }); X.check(s4 == "some words\n" + s3, "stream with a message");
    auto [s5, e5] = printed([&](std::ostream& o) { a.stream_stats(o); }); X.check(e5.empty(), "printed elsewhere", [&] { return e5; }); auto n = numbers(s5); X.check(n.size() >= 2 && n[n.size() - 2] == long(a.size()) + 1 && n.back() == long(m), "stream_stats", [&] { return s5; });
  };
  X.run(t + "graph", [&] { go([&]<class V, class B, directedness D, class... P>(index_edge_list<V, B, D, P...>& l) { if constexpr (std::is_same_v<B, unipartite_graph_base>) return index_adjacency<idx, default_index_t, V, P...>(l); else return index_biadjacency<idx, default_index_t, V, P...>(l); }(el)); });
}
template <class EL, class... P> void one(Ctx& X, const G& g, EL& el, std::vector<long> counts, const std::string& t, std::tuple<P...>*) {
  Toks recs; el.open_for_push_back(); int k = 0; for (auto& e : g.e) { std::tuple<P...> p; int c = 0; std::apply([&](auto&... x) { ((x = std::decay_t<decltype(x)>(std::is_floating_point_v<std::decay_t<decltype(x)>> ? k * 0.25 - 1 : 1000 * ++c + k)), ...); }, p);
    std::apply([&](auto... x) { el.push_back(e[0], e[1], x...); recs.push_back({str(e[0]), str(e[1]), shown(x)...}); }, p); ++k; } el.close_for_push_back();
  edge_lists(X, el, recs, counts, t); graphs<0>(X, el, t + "0 "); graphs<1>(X, el, t + "1 ");
  X.run(t + "structs", [&] {
    array_of_structs<int, P...> a; Toks want; k = 0; for (auto& r : recs) { std::apply([&](auto... x) { ((x = std::decay_t<decltype(x)>(k + 0.5)), ...); a.push_back(k, x...); std::vector<std::string> w{str(k), shown(x)...}; std::string j = "("; for (size_t i = 0; i < w.size(); ++i) j += (i ? "," : "") + w[i]; want.push_back({j + ")"}); }, std::tuple<P...>()); ++k; (void)r; }
    auto glue = [](const std::string& s) { Toks o; for (auto& l : lines(s)) { std::string j; for (auto& w : l) j += w; o.push_back({j}); } return o; };
    auto [s, e] = printed([&](std::ostream& o) { a.stream(o); }); X.check(e.empty() && glue(s) == want, "array of structs", [&] { return s + e + " expected " + text(want); });
    auto [s2, e2] = printed([&](std::ostream& o) { a.stream(o, "title: \n"); }); X.check(e2.empty() && s2 == "title: \n" + s, "array of structs with a message"); auto [s3, e3] = printed([&](std::ostream&) { a.stream("x\n"); }); X.check(s3.empty() && e3 == "x\n" + s, "array of structs to std::cout");
  });
}
static void all(Ctx& X, const G& g, int extra) {
  long n = std::max<long>(el_n(g), extra);
  auto uni = [&]<directedness D, class... P>(const char* t) { edge_list<D, P...> el(extra); one(X, g, el, {n}, t, static_cast<std::tuple<P...>*>(nullptr)); };
  uni.template operator()<DIR>("directed "); uni.template operator()<UND>("undirected "); uni.template operator()<DIR, int>("directed int "); uni.template operator()<UND, double, int>("undirected double int ");
  long a = 0, b = 0; for (auto& e : g.e) { a = std::max(a, e[0] + 1L); b = std::max(b, e[1] + 1L); } a = std::max<long>(a, extra); b = std::max<long>(b, 2 * extra);
  { bi_edge_list<DIR> el(extra, 2 * extra); one(X, g, el, {a, b}, "bipartite ", static_cast<std::tuple<>*>(nullptr)); }
  { bi_edge_list<DIR, double> el(extra, 2 * extra); one(X, g, el, {a, b}, "bipartite double ", static_cast<std::tuple<double>*>(nullptr)); }
}
void mc_main(Ctx& X) {
  X.section("edge sequences over 3 vertices");
  for (int k = 0; k <= (X.thorough ? 4 : 3); ++k) each_edge_seq(3, 3, k, [&](const G& g) { X.state([&] { return g.desc(); }, [&] { for (int d : {0, 5}) if (k < 3 || !d) all(X, g, d); }); });
  X.section("size sweep");
  for (int n : sweep_sizes(X.thorough)) if (n < 12 || n > 60) for (auto& f : families(n)) if (f.e.size() < (X.thorough ? 8000u : 400u)) X.state([&] { return f.desc(); }, [&] { all(X, f, 0); });
}
