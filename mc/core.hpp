// Exhaustive-enumeration harness.  A check is `void mc_main(mc::Ctx& X)`, which walks a finite
// space of inputs/histories ("states") and, for each, runs the implementation one or more
// times ("executions") comparing what it does with a reference model ("observations").
//   X.state(desc, body)   one element of the enumerated space; sharded across worker processes
//   X.run(name, body)     one execution of the implementation inside that state
//   X.check(ok, key, msg) one observation compared with the model
// desc/msg are callables returning std::string, only evaluated when needed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <map>
#include <chrono>
#include <vector>

namespace mc {

struct Status {    // shared with the driver through a mapped file
  volatile uint64_t heartbeat, idx, cfg, states, runs, checks;
  char name[160];
};

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

struct Violation {};

struct Ctx {
  int shard = 0, nshards = 1;
  bool thorough = false, describe = false;
  uint64_t from = 0; int64_t only = -1;
  uint64_t idx = 0, cfg = 0, states = 0, runs = 0, checks = 0, skipped = 0, nviol = 0;
  uint64_t max_viol = 4;
  double deadline = 0; bool capped = false;
  int outfd = 1;
  std::string cur_name = "-";
  std::string section_;
  std::unordered_set<uint64_t> outcomes;
  std::map<std::string, uint64_t> per_section, names;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> counters;
  Status* st = nullptr;
  Status dummy{};
  std::function<std::string()> cur_desc;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  void emit(const std::string& line) {
    std::string l = line + "\n"; size_t o = 0;
    while (o < l.size()) { ssize_t w = write(outfd, l.data() + o, l.size() - o); if (w <= 0) _exit(9); o += size_t(w); }
  }
  void section(const std::string& s) { section_ = s; }

  template <class D, class B> void state(D&& desc, B&& body) {
    uint64_t i = idx++;
    if (only >= 0) { if (uint64_t(only) != i) return; }
    else if (int(i % uint64_t(nshards)) != shard || i < from) return;
    if (describe) { emit("{\"describe\":\"" + jesc(section_ + ": " + desc()) + "\"}"); return; }
    if (capped) { ++skipped; return; }
    if (deadline > 0 && (states & 15) == 0 && elapsed() > deadline) { capped = true; ++skipped; return; }
    ++states; cfg = 0;
    if (st) { st->idx = i; st->cfg = 0; st->heartbeat = st->heartbeat + 1; st->states = states; st->runs = runs; st->checks = checks; }
    ++per_section[section_];
    cur_desc = [&] { return section_ + ": " + desc(); };
    if (samples.size() < 2 && (states == 3 || states == 40)) samples.push_back(cur_desc());
    name("-");
    try { body(); }
    catch (Violation&) {}
    catch (std::exception& e) { violation("exception", std::string("unexpected exception: ") + e.what()); }
    if (nviol >= max_viol) finish();
  }
  void name(const char* n) { cur_name = n; if (st) { strncpy(st->name, n, sizeof st->name - 1); } }
  template <class B> void run(const std::string& n, B&& body) {
    name(n.c_str());
    ++cfg; ++runs;
    if (st) { st->cfg = cfg; st->heartbeat = st->heartbeat + 1; }
    try { body(); }
    catch (Violation&) {}
    catch (std::exception& e) { violation("exception", std::string("unexpected exception: ") + e.what()); }
    name("-");
  }
  void violation(const std::string& key, const std::string& msg) {
    ++nviol;
    emit("{\"violation\":1,\"idx\":" + std::to_string(idx - 1) + ",\"run\":\"" + jesc(cur_name) + "\",\"key\":\"" + jesc(key) +
         "\",\"msg\":\"" + jesc(msg.substr(0, 1500)) + "\",\"desc\":\"" + jesc(cur_desc ? cur_desc().substr(0, 3000) : "") + "\"}");
  }
  // a failed check reports and abandons the current execution
  template <class M> void check(bool ok, const char* key, M&& msg) {
    ++checks;
    if (!ok) { violation(key, msg()); throw Violation{}; }
  }
  void check(bool ok, const char* key) { check(ok, key, [] { return std::string(); }); }
  void outcome(uint64_t h) { if (outcomes.size() < 2000000) outcomes.insert(h); }

  [[noreturn]] void finish() {
    std::string s = "{\"done\":1,\"states\":" + std::to_string(states) + ",\"runs\":" + std::to_string(runs) + ",\"checks\":" + std::to_string(checks) +
                    ",\"skipped\":" + std::to_string(skipped) + ",\"capped\":" + (capped ? "1" : "0") + ",\"outcomes\":" + std::to_string(outcomes.size()) +
                    ",\"total\":" + std::to_string(idx) + ",\"stopped\":" + (nviol >= max_viol ? "1" : "0") + ",\"sections\":{";
    bool f = true;
    for (auto& [k, v] : per_section) { s += (f ? "\"" : ",\"") + jesc(k) + "\":" + std::to_string(v); f = false; }
    s += "},\"counters\":{"; f = true;
    for (auto& [k, v] : counters) { s += (f ? "\"" : ",\"") + jesc(k) + "\":" + std::to_string(v); f = false; }
    s += "},\"samples\":["; f = true;
    for (auto& v : samples) { s += (f ? "\"" : ",\"") + jesc(v.substr(0, 400)) + "\""; f = false; }
    s += "]}";
    emit(s);
    _exit(0);
  }
};

inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
template <class C> uint64_t hash_all(const C& c) { uint64_t h = 1; for (auto&& x : c) h = hmix(h, uint64_t(x)); return h; }

template <class T> std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }
template <class C> std::string show(const C& c) {
  std::ostringstream o; o << "["; bool f = true;
  for (auto&& x : c) { if (!f) o << ","; f = false; o << +x; }
  o << "]"; return o.str();
}

inline Ctx* self = nullptr;
}    // namespace mc

void mc_main(mc::Ctx& X);

// --shard i/n --out FILE --status FILE [--from I] [--only I] [--describe I] [--thorough] [--deadline S]
#ifndef MC_NO_MAIN
int main(int argc, char** argv) {
  static mc::Ctx X;
  mc::self = &X;
  // stdout of the code under test is not ours
  int keep = dup(1);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--shard") { auto s = next(); sscanf(s.c_str(), "%d/%d", &X.shard, &X.nshards); }
    else if (a == "--out") { X.outfd = open(next().c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); }
    else if (a == "--status") {
      int fd = open(next().c_str(), O_RDWR | O_CREAT, 0644);
      if (ftruncate(fd, sizeof(mc::Status))) return 9;
      X.st = (mc::Status*)mmap(nullptr, sizeof(mc::Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    else if (a == "--from") X.from = std::stoull(next());
    else if (a == "--only") X.only = std::stoll(next());
    else if (a == "--describe") { X.only = std::stoll(next()); X.describe = true; }
    else if (a == "--thorough") X.thorough = true;
    else if (a == "--deadline") X.deadline = std::stod(next());
    else if (a == "--max-viol") X.max_viol = std::stoull(next());
  }
  if (X.outfd == 1) X.outfd = keep;
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  try { mc_main(X); }
  catch (std::exception& e) { X.emit(std::string("{\"harness_error\":\"") + mc::jesc(e.what()) + "\"}"); _exit(8); }
  X.finish();
}
#endif
