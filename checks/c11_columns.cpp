// struct_of_arrays, zipped ranges and array_of_structs behave as a vector of records under every operation history up to a depth.
#include "common.hpp"
#include <nwgraph/containers/aos.hpp>
#include <nwgraph/containers/zip.hpp>
#include <deque>
using namespace mc;
using Rec = std::tuple<int, char, double>;
using Ref = std::vector<Rec>;
static Rec rec(int k) { return {k % 3, char(40 + k), 100.0 + k}; }
template <class T> Rec val(T&& t) { return {std::get<0>(t), std::get<1>(t), std::get<2>(t)}; }
static std::string sh(const Ref& r) { std::string s; for (auto& t : r) s += "(" + str(std::get<0>(t)) + "," + str(int(std::get<1>(t))) + "," + str(std::get<2>(t)) + ")"; return s; }
template <class C> Ref snap(C& c) { Ref r; for (auto&& t : c) r.push_back(val(t)); return r; }
static auto key = [](auto&& a, auto&& b) { return std::get<0>(a) < std::get<0>(b); };

template <class C> void observe(Ctx& X, C& c, const Ref& r, bool full) {
  const C& k = c; auto got = snap(c);
  X.check(got == r, "records", [&] { return sh(got) + " expected " + sh(r); });
  X.check(c.size() == r.size() && snap(k) == r, "const view");
  for (size_t i = 0; i < r.size(); ++i) { X.check(val(c[i]) == r[i] && val(k[i]) == r[i], "operator[]"); }
  if (!full) return;
  long n = long(r.size()); auto b = c.begin(), e = c.end(); auto kb = k.begin(), ke = k.end();
  X.check(e - b == n && ke - kb == n && b + n == e && e - n == b, "end - begin");
  for (long i = 0; i <= n; ++i) {
    auto x = b + i; auto kx = kb + i; X.check(x == e - (n - i) && (i + b) == x && (x == e) == (i == n), "begin + i"); typename C::const_iterator conv = x; X.check(conv == kx, "conversion to const iterator"); typename C::const_iterator as; as = x; X.check(as == kx, "assignment to const iterator");
    for (long j = 0; j <= n; ++j) {
      auto y = b + j; X.check((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j) && y - x == j - i, "iterator order");
      auto z = x; z += j - i; X.check(z == y, "+="); z -= j - i; X.check(z == x, "-=");
      if (j < n) X.check(val(x[j - i]) == r[j] && val(kx[j - i]) == r[j], "it[n]");
    }
    if (i < n) { auto p = x, q = x; auto old = p++; X.check(old == x && p == x + 1 && ++q == p, "increment"); X.check(p-- == x + 1 && p == x && --q == x, "decrement"); X.check(val(*x) == r[i] && val(*kx) == r[i], "dereference"); auto kp = kx; X.check(val(*kp++) == r[i] && kp == kx + 1, "const increment"); X.check(val(*x) == r[i], "read twice"); }
  }
  Ref back; for (auto i = typename C::reverse_iterator(e), z = typename C::reverse_iterator(b); i != z; ++i) back.push_back(val(*i)); std::reverse(back.begin(), back.end()); X.check(back == r, "reverse iteration");
  X.check(c == c && !(c != c), "self comparison");
  X.outcome([&] { uint64_t h = 5; for (auto& t : r) { h = hmix(h, std::get<0>(t)); h = hmix(h, std::get<1>(t)); } return h; }());
}
enum { PUSH, SORT, STABLE, RSORT, REV, ROT, SWAPS, ASSIGN, UNIQ, RESIZE_UP, RESIZE_DN, CLEAR, PUSH_T, PUSH_AT, COLS, COPYC, EQ, NOPS };
static const char* NM[] = {"push_back(values)", "sort by first", "stable_sort by first", "sort descending", "reverse", "rotate", "swap ends", "assign through reference", "unique by first", "resize +2", "resize -1", "clear", "push_back(tuple)", "push_at", "move columns in", "copy columns in", "compare"};
static std::string hist(const std::vector<int>& h) { std::string s; for (int o : h) s += std::string(NM[o]) + "; "; return s; }
template <class C> bool step(Ctx& X, C& c, Ref& r, int op, int& k) {
  auto chk_perm = [&] { auto g = snap(c); auto a = g, b = r; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); X.check(a == b, "algorithm lost or mixed records", [&] { return sh(g) + " from " + sh(r); }); r = g; };
  switch (op) {
    case PUSH: if constexpr (requires { c.push_back(1, 'a', 2.0); }) { auto t = rec(k++); c.push_back(std::get<0>(t), std::get<1>(t), std::get<2>(t)); r.push_back(t); return true; } return false;
    case PUSH_T: if constexpr (requires { c.push_back(rec(0)); }) { c.push_back(rec(k)); r.push_back(rec(k++)); return true; } return false;
    case PUSH_AT: if constexpr (requires { c.push_at(0, rec(0)); }) { if (r.empty()) return true; c.push_at(r.size() - 1, rec(k)); r.back() = rec(k++); auto t = rec(k++); c.push_at(0, std::get<0>(t), std::get<1>(t), std::get<2>(t)); r[0] = t; return true; } return false;
    case SORT: std::sort(c.begin(), c.end(), key); { auto g = snap(c); X.check(std::is_sorted(g.begin(), g.end(), key), "not sorted"); } chk_perm(); return true;
    case STABLE: std::stable_sort(std::execution::par, c.begin(), c.end(), key); std::stable_sort(r.begin(), r.end(), key); return true;
    case RSORT: std::sort(std::execution::par_unseq, c.begin(), c.end(), [](auto&& a, auto&& b) { return val(b) < val(a); }); std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return b < a; }); return true;
    case REV: std::reverse(c.begin(), c.end()); std::reverse(r.begin(), r.end()); return true;
    case ROT: if (!r.empty()) { std::rotate(c.begin(), c.begin() + 1, c.end()); std::rotate(r.begin(), r.begin() + 1, r.end()); } return true;
    case SWAPS: if (r.size() > 1) { std::swap(*c.begin(), *(c.begin() + (r.size() - 1))); std::swap(r.front(), r.back()); } return true;
    case ASSIGN: for (size_t i = 0; i < r.size(); i += 2) { c[i] = rec(k); *(c.begin() + i) = rec(k + 1); std::get<1>(c.begin()[i]) = char(k + 2); r[i] = rec(k + 1); std::get<1>(r[i]) = char(k + 2); } if (r.size() > 1) { c[0] = c[1]; r[0] = r[1]; } k += 3; return true;
    case UNIQ: { auto eq = [](auto&& a, auto&& b) { return std::get<0>(a) == std::get<0>(b); }; auto n = std::unique(c.begin(), c.end(), eq) - c.begin(); r.erase(std::unique(r.begin(), r.end(), eq), r.end()); X.check(size_t(n) == r.size(), "unique length"); c.resize(n); return true; }
    case RESIZE_UP: c.resize(r.size() + 2); r.resize(r.size() + 2); return true;
    case RESIZE_DN: if (!r.empty()) { c.resize(r.size() - 1); r.resize(r.size() - 1); } return true;
    case CLEAR: c.clear(); r.clear(); return true;
  }
  return false;
}
template <class... A> using SOA = struct_of_arrays<A...>;
static void cols(const Ref& r, std::vector<int>& a, std::vector<char>& b, std::vector<double>& d) { for (auto& t : r) { a.push_back(std::get<0>(t)); b.push_back(std::get<1>(t)); d.push_back(std::get<2>(t)); } }
static void soa_hist(Ctx& X, const std::vector<int>& h) {
  X.run("struct_of_arrays", [&] {
    SOA<int, char, double> c; Ref r; int k = 0;
    for (int op : h) {
      if (!step(X, c, r, op, k)) {
        if (op == COLS) { Ref n{rec(k), rec(k + 1), rec(k + 2)}; k += 3; std::vector<int> a; std::vector<char> b; std::vector<double> d; cols(n, a, b, d); c.move(std::move(a), std::move(b), std::move(d)); r = n; }
        if (op == COPYC) { Ref n; for (size_t i = 0; i < r.size(); ++i) n.push_back(rec(k++)); std::vector<int> a; std::vector<char> b; std::vector<double> d; cols(n, a, b, d); c.copy(a, b, d); r = n; }
        if (op == EQ) {
          auto e = c; X.check(e == c && !(e != c), "copy differs"); e.push_back(rec(0)); X.check(!(e == c) && !(c == e) && e != c, "longer copy equal");
          if (r.size()) { auto f = c; std::get<2>(f[r.size() - 1]) += 1; X.check(!(f == c) && f != c, "changed copy equal"); observe(X, c, r, false); }
          std::vector<int> a; std::vector<char> b; std::vector<double> d; cols(r, a, b, d); SOA<int, char, double> g(a, b, d), g2{std::tuple(a, b, d)}, m(std::move(a), std::move(b), std::move(d)); X.check(g == c && g2 == c && m == c, "built from columns"); SOA<int, char, double> s(r.size()); X.check(s.size() == r.size(), "sized constructor");
          SOA<int, char, double> t; t = c; auto u = std::move(t); X.check(u == c, "moved");
          { SOA<int, char, double> l = r.size() == 0 ? SOA<int, char, double>(std::initializer_list<Rec>{}) : r.size() == 1 ? SOA<int, char, double>(std::initializer_list<Rec>{r[0]}) : SOA<int, char, double>(std::initializer_list<Rec>{r[0], r[1], r[r.size() - 1]}); Ref w; if (r.size() == 1) w = r; else if (r.size() > 1) w = {r[0], r[1], r.back()}; observe(X, l, w, true); }
        }
      }
      observe(X, c, r, true);
    }
  });
}
static void aos_hist(Ctx& X, const std::vector<int>& h) {
  X.run("array_of_structs", [&] {
    array_of_structs<int, char, double> c; Ref r; int k = 0;
    for (int op : h) {
      if (!step(X, c, r, op, k) && op == EQ) { auto e = c; X.check(e == c && !(e != c), "copy differs"); e.push_back(rec(0)); X.check(!(e == c) && !(c == e) && e != c, "longer copy equal"); }
      observe(X, c, r, true);
    }
  });
}
static void zip_hist(Ctx& X, const std::vector<int>& h, int n) {
  X.run("zipped vectors", [&] {
    Ref r; for (int i = 0; i < n; ++i) r.push_back(rec(7 * i % 5)); std::vector<int> a; std::vector<char> b; std::vector<double> d; cols(r, a, b, d); int k = n; auto c = make_zipped(a, b, d);
    for (int op : h) {
      step(X, c, r, op, k); observe(X, c, r, true);
      std::vector<int> a1; std::vector<char> b1; std::vector<double> d1; cols(r, a1, b1, d1); X.check(a == a1 && b == b1 && d == d1, "underlying ranges");
      if (op == EQ) { auto x = make_zipped(a1, b1, d1); X.check(x == c && !(x != c), "equal ranges differ"); a1.push_back(1); b1.push_back(1); d1.push_back(1); X.check(!(x == c) && !(c == x), "longer range equal"); if (n) { d[0] += 1; X.check(!(c == x), "changed range equal"); d[0] -= 1; } }
    }
  });
  X.run("zipped deque and pointers", [&] {
    Ref r; for (int i = 0; i < n; ++i) r.push_back(rec(3 * i % 5)); std::vector<int> a; std::vector<char> b; std::vector<double> d; cols(r, a, b, d); std::deque<char> q(b.begin(), b.end()); std::span<double> s(d); int k = n; auto c = make_zipped(a, q, s);
    for (int op : h) { if (op == UNIQ || op == RESIZE_UP || op == RESIZE_DN || op == CLEAR) continue; if constexpr (requires { c.resize(1); }) {} 
      switch (op) { case SORT: std::sort(c.begin(), c.end(), [](auto&& x, auto&& y) { return val(x) < val(y); }); std::sort(r.begin(), r.end()); break; case REV: std::reverse(c.begin(), c.end()); std::reverse(r.begin(), r.end()); break; case ROT: if (n) { std::rotate(c.begin(), c.begin() + 1, c.end()); std::rotate(r.begin(), r.begin() + 1, r.end()); } break; case ASSIGN: for (int i = 0; i < n; ++i) { c[i] = rec(k); r[i] = rec(k); ++k; } break; default: break; }
      observe(X, c, r, false); }
  });
}
void mc_main(Ctx& X) {
  X.section("histories of column containers");
  for (int d = 1; d <= (X.thorough ? 5 : 4); ++d) each_seq(NOPS, d, [&](const std::vector<int>& h) { X.state([&] { return hist(h); }, [&] { soa_hist(X, h); aos_hist(X, h); }); });
  X.section("deep histories of fewer operations");
  static const std::vector<int> sub{PUSH, SORT, REV, RESIZE_UP, ASSIGN};
  for (int d = 5; d <= (X.thorough ? 8 : 6); ++d) each_seq(int(sub.size()), d, [&](const std::vector<int>& q) { std::vector<int> h; for (int x : q) h.push_back(sub[x]); X.state([&] { return hist(h); }, [&] { soa_hist(X, h); aos_hist(X, h); }); });
  X.section("histories over zipped ranges");
  for (int n = 0; n <= 5; ++n) for (int d = 1; d <= (X.thorough ? 4 : 3); ++d) each_seq(int(sizeof NM / sizeof *NM), d, [&](const std::vector<int>& h) { for (int o : h) if (o == PUSH || o == PUSH_T || o == PUSH_AT || o == COLS || o == COPYC) return; X.state([&] { return str(n) + " records: " + hist(h); }, [&] { zip_hist(X, h, n); }); });
  X.section("sorting every key sequence");
  for (int n = 2; n <= (X.thorough ? 8 : 6); ++n) each_seq(3, n, [&](const std::vector<int>& s) { X.state([&] { return show(s); }, [&] {
    for (int pol : {0, 2}) { rt::policy = pol; X.run("sorts", [&] { SOA<int, char, double> c; Ref r; for (int i = 0; i < n; ++i) { c.push_back(s[i], char(i), i * 0.5); r.push_back({s[i], char(i), i * 0.5}); } auto b = c; int k = 0; for (int op : {SORT, STABLE, RSORT, REV}) { auto x = c; auto y = r; step(X, x, y, op, k); observe(X, x, y, false); }
      std::partial_sort(b.begin(), b.begin() + n / 2, b.end(), [](auto&& x, auto&& y) { return val(x) < val(y); }); auto y = r; std::sort(y.begin(), y.end()); auto g = snap(b); X.check(std::equal(y.begin(), y.begin() + n / 2, g.begin()), "partial_sort"); std::sort(g.begin(), g.end()); X.check(g == y, "partial_sort lost records"); }); } }); });
  X.section("larger sorts");
  for (int n : {17, 33, 100, 600, 5000, 66001}) for (int m : {2, 7, 1000}) X.state([&] { return str(n) + " records, keys mod " + str(m); }, [&] { for (int pol : {0, 3}) { rt::policy = pol; X.run("sorts", [&] { SOA<int, char, double> c; Ref r; for (int i = 0; i < n; ++i) { Rec t{(i * 7919 + 11) % m, char(i), i * 0.5}; c.push_back(t); r.push_back(t); } int k = 0; for (int op : {STABLE, SORT, RSORT, REV, ROT}) { auto x = c; auto y = r; step(X, x, y, op, k); observe(X, x, y, false); } }); } });
}
