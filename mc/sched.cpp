// Runtime behind -fsanitize=thread instrumentation (linked instead of libtsan): every plain or atomic
// access of the code under test calls in here, so each one can be a scheduling point.  Points are taken
// only at locations that two unordered tasks were seen to touch (at least one writing); whenever a new
// such location shows up, exploration of the program restarts with it included, until a fixpoint.
#define MC_NO_MAIN
#include "sched.hpp"
#include <cerrno>
#include <dlfcn.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>

namespace mc { namespace sc {
namespace {
using u64 = uint64_t; using uptr = uintptr_t; using u8 = uint8_t;

template <class T> struct MA {    // own bookkeeping must not come from the modelled heap
  using value_type = T; MA() = default; template <class U> MA(const MA<U>&) {}
  T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); }
  friend bool operator==(MA, MA) { return true; }
};
template <class T> using Vec = std::vector<T, MA<T>>;
constexpr int MAXF = 3000;                      // tasks per execution
constexpr size_t ROOT_STACK = 4 << 20, STACK = 512 << 10;
constexpr size_t ROOT_ARENA = 128 << 20, ARENA = 2 << 20;
constexpr size_t ARENA_TOTAL = ROOT_ARENA + size_t(MAXF) * ARENA;
constexpr u64 STEP_LIMIT = 3000000, FAIR = 3000;

extern "C" void mc_switch(void** save, void* to);
asm(R"(
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

enum St : u8 { READY, BLOCKED, DONE };
struct Region;
struct Fiber {
  int id, parent, slot, stack, region; St st; bool async, closed, asleep, detached;
  u64 start; void* sp;
  void (*fn)(void*, size_t); void* arg; size_t idx; void* (*pfn)(void*);
  bool (*pred)(void*); void* parg;
  uptr pend_a; uptr pend_e; bool pend_w;
  uptr ar, ar_end; std::exception_ptr ex;
};
Fiber F[MAXF]; int nF = 0;
Vec<char*>* stacks; Vec<int>* freestk;
char* root_stack; u8* arena; u8* shadow;
void* host_sp;
bool g_on = false; int g_quiet = 0; int g_open = 0; Fiber* cur = nullptr;
u64 steps, tick, since_switch;
int budget, used, nregion; Opt opt;
bool slots_used[64];

struct Choice { int n, c; uint32_t step; int task; };
Vec<Choice>* path; size_t depth;
bool prune; std::string* failkey; std::string* failmsg;
bool replay_broken;

// conflict set (kept across executions of one program) and per-execution access records
constexpr size_t CS = 1 << 16;
uptr cset[CS]; size_t ncs = 0;
inline size_t hsh(uptr g) { return (g * 0x9e3779b97f4a7c15ull) >> 48; }
inline bool cs_has(uptr g) { for (size_t h = hsh(g);; h = (h + 1) & (CS - 1)) { if (cset[h] == g) return true; if (!cset[h]) return false; } }
inline void cs_add(uptr g) { size_t h = hsh(g); while (cset[h]) { if (cset[h] == g) return; h = (h + 1) & (CS - 1); } cset[h] = g; if (++ncs > CS / 2) abort(); }
Vec<uptr>* newconf;
Vec<int*>* held_mutexes;    // mutexes outside the arena locked in this execution: an execution cut short leaves them locked
struct Rec { uptr g; u64 gen; int n; struct E { int f; bool w; u64 t; } e[6]; bool conf; };
constexpr size_t RS = 1 << 17; Rec* recs; u64 gen = 0; size_t nrec;
// a location conflicts in one top-level parallel region, not for good
inline uptr ckey(uptr g) { return g << 14 | uptr(cur->region & 0x3fff); }

inline int resolve(int f) { while (F[f].closed) f = F[f].parent; return f; }
bool ordered_before(int e, u64 t, const Fiber& c) {    // access by e at time t precedes everything c does?
  if (e == c.id) return true;
  for (int f = c.id; F[f].parent >= 0; f = F[f].parent) if (F[f].parent == e) return t < F[f].start;
  return false;
}
void record(uptr g, bool w) {
  size_t h = (g ^ (g >> 17)) & (RS - 1);
  for (;; h = (h + 1) & (RS - 1)) { Rec& r = recs[h]; if (r.gen != gen) { if (++nrec > RS * 3 / 4) { fprintf(stderr, "SCHED: access table full\n"); _exit(7); } r.gen = gen; r.g = g; r.n = 0; r.conf = false; break; } if (r.g == g) break; }
  Rec& r = recs[h];
  if (r.conf) return;
  int k = 0; bool mine = false;
  for (int i = 0; i < r.n; ++i) {
    auto e = r.e[i]; e.f = resolve(e.f);
    if (e.f == cur->id && !F[e.f].closed) {
      bool dup = false; for (int j = 0; j < k; ++j) if (r.e[j].f == e.f && r.e[j].w == e.w) { r.e[j].t = std::max(r.e[j].t, e.t); dup = true; }
      if (e.w == w) { mine = true; e.t = tick; if (dup) { for (int j = 0; j < k; ++j) if (r.e[j].f == e.f && r.e[j].w == e.w) r.e[j].t = tick; } }
      if (!dup) r.e[k++] = e;
      continue;
    }
    if ((e.w || w) && !ordered_before(e.f, e.t, *cur)) { r.conf = true; newconf->push_back(ckey(g)); return; }
    bool dup = false; for (int j = 0; j < k; ++j) if (r.e[j].f == e.f && r.e[j].w == e.w) { r.e[j].t = std::max(r.e[j].t, e.t); dup = true; }
    if (!dup) r.e[k++] = e;
  }
  r.n = k;
  if (!mine) { if (r.n == 6) { r.conf = true; newconf->push_back(ckey(g)); return; } r.e[r.n++] = {cur->id, w, tick}; }
}

[[noreturn]] void leave() { void* d; mc_switch(&d, host_sp); __builtin_unreachable(); }
[[noreturn]] void fail(const char* key, const std::string& msg) { g_on = false; if (failkey->empty()) { *failkey = key; *failmsg = msg; } leave(); }

int choose(int n) {
  if (n <= 1) return 0;
  if (depth < path->size()) {
    Choice& c = (*path)[depth++];
    if (c.n != n || c.step != uint32_t(steps)) { replay_broken = true; fail("harness-nondeterminism", "at choice " + std::to_string(depth) + " n=" + std::to_string(n) + "/" + std::to_string(c.n) + " step " + std::to_string(steps) + "/" + std::to_string(c.step)); }
    return c.c;
  }
  path->push_back({n, 0, uint32_t(steps), -1}); ++depth;
  return 0;
}
bool enabled(Fiber& f) {
  if (f.st == READY) return true;
  if (f.st == BLOCKED) return f.pred(f.parg);
  return false;
}
void go(Fiber* to) {
  since_switch = 0;
  if (to == cur) return;
  Fiber* me = cur; cur = to; to->st = READY;
  mc_switch(&me->sp, to->sp);
}
int live[MAXF]; int nlive;    // ids of unfinished tasks, ascending
void switch_free(bool include_cur) {    // current cannot (or need not) go on: pick anybody, at no cost
  int c[64]; int n = 0; bool sleeping = false;
  for (int i = 0; i < nlive && n < 64; ++i) {
    Fiber& f = F[live[i]];
    if (&f == cur && !include_cur) continue;
    if (!enabled(f)) continue;
    if (f.asleep) { sleeping = true; continue; }
    c[n++] = f.id;
  }
  if (n == 0) {
    if (sleeping) { prune = true; g_on = false; leave(); }
    fail("deadlock", "every unfinished task is blocked");
  }
  int k = choose(n);
  if (depth && n > 1) (*path)[depth - 1].task = c[k];
  // those tried first at this point stay asleep until somebody touches a shared location (until then the order is immaterial)
  for (int i = 0; i < k; ++i) { Fiber& f = F[c[i]]; f.asleep = true; f.pend_a = 0; f.pend_e = ~uptr(0); f.pend_w = true; }
  F[c[k]].st = READY;
  go(&F[c[k]]);
}
void wake(uptr a, uptr e, bool w) { for (int i = 0; i < nlive; ++i) { Fiber& f = F[live[i]]; if (f.asleep && &f != cur && a < f.pend_e && f.pend_a < e && (w || f.pend_w)) f.asleep = false; } }
void point(uptr a, size_t n, bool w) {
  ++steps; ++since_switch;
  if (steps > STEP_LIMIT) fail("livelock", "no termination after " + std::to_string(STEP_LIMIT) + " scheduling points");
  cur->pend_a = a; cur->pend_e = a + n; cur->pend_w = w;
  if (nlive > 1) {
    if (since_switch > FAIR) {    // fairness: a task spinning alone must let the others run
      since_switch = 0;
      Fiber* nx = nullptr;
      for (int i = 0; i < nlive; ++i) { Fiber& f = F[live[i]]; if (&f != cur && enabled(f) && f.id > cur->id) { nx = &f; break; } }
      if (!nx) for (int i = 0; i < nlive; ++i) { Fiber& f = F[live[i]]; if (&f != cur && enabled(f)) { nx = &f; break; } }
      if (nx) { nx->asleep = false; go(nx); }
    } else if (used < budget) {
      int c[64]; int k = 1; c[0] = cur->id;
      for (int i = 0; i < nlive && k < 64; ++i) { Fiber& f = F[live[i]]; if (&f != cur && !f.asleep && enabled(f)) c[k++] = f.id; }
      int p = choose(k);
      if (p) { (*path)[depth - 1].task = c[p]; ++used; cur->asleep = true; go(&F[c[p]]); }
    }
    wake(a, a + n, w);
  }
}

inline bool in_arena(uptr a) { return a >= uptr(arena) && a < uptr(arena) + ARENA_TOTAL; }
void check_mem(uptr a, size_t n, bool w) {
  for (uptr p = a & ~uptr(7); p < a + n; p += 8) {
    u8 s = shadow[(p - uptr(arena)) >> 3];
    uptr lim = p + s;
    if (std::min(a + n, p + 8) > lim) fail(s == 0 ? "invalid-access" : "out-of-bounds", std::string(w ? "write" : "read") + " of " + std::to_string(n) + " bytes outside any live allocation");
  }
}
uptr tls_lo, tls_hi;
inline __attribute__((always_inline)) void access(const volatile void* pp, size_t n, bool w) {
  if (!g_on || g_quiet) return;
  uptr a = uptr(pp);
  if (in_arena(a)) check_mem(a, n, w);
  if (!g_open) return;
  if (a >= tls_lo && a < tls_hi) return;
  bool hit = false;
  for (uptr g = a >> 2; g <= (a + n - 1) >> 2; ++g) if (cs_has(ckey(g))) hit = true; else record(g, w);
  if (hit) point(a, n, w);
}

void* arena_alloc(size_t n, size_t al = 16) {
  Fiber& f = *cur;
  if (al < 16) al = 16;
  uptr p = (f.ar + al - 1) & ~uptr(al - 1);
  size_t r = (n + 15) & ~size_t(15);
  if (p + r + 32 > f.ar_end) { fprintf(stderr, "SCHED: arena exhausted\n"); _exit(7); }
  f.ar = p + r + 32;
  u8* s = shadow + ((p - uptr(arena)) >> 3);
  for (size_t k = 0; k < n; k += 8) *s++ = u8(std::min<size_t>(8, n - k));
  memset((void*)p, 0xBE, r);
  return (void*)p;
}
void arena_free(void* p, size_t) {
  if (!g_on) return;
  uptr a = uptr(p); u8* s = shadow + ((a - uptr(arena)) >> 3);
  if (*s == 0) fail("invalid-free", "delete of memory that is not live");
  while (*s == 8) *s++ = 0;
  *s = 0;
}

void entry();
int take_slot() { for (int i = 0; i < 64; ++i) if (!slots_used[i]) { slots_used[i] = true; return i; } return 63; }
Fiber* spawn(int parent, bool async) {
  if (nF == MAXF) { fprintf(stderr, "SCHED: too many tasks\n"); _exit(7); }
  Fiber& f = F[nF]; f.id = nF; f.parent = parent; f.async = async; f.closed = f.asleep = f.detached = false; f.st = READY; f.start = ++tick; f.ex = nullptr;
  f.region = parent < 0 ? 0 : F[parent].region;
  f.pend_a = f.pend_e = 0; f.pend_w = false; f.pfn = nullptr; f.fn = nullptr;
  char* top; 
  if (nF == 0) { f.stack = -1; top = root_stack + ROOT_STACK; f.ar = uptr(arena); f.ar_end = f.ar + ROOT_ARENA; }
  else {
    if (freestk->empty()) { stacks->push_back((char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); freestk->push_back(int(stacks->size()) - 1); }
    f.stack = freestk->back(); freestk->pop_back(); top = (*stacks)[f.stack] + STACK;
    f.ar = uptr(arena) + ROOT_ARENA + size_t(nF - 1) * ARENA; f.ar_end = f.ar + ARENA;
  }
  ++nF;
  void** sp = (void**)(uptr(top) & ~uptr(63)); *--sp = nullptr; *--sp = (void*)&entry; for (int i = 0; i < 6; ++i) *--sp = nullptr;
  f.sp = sp;
  live[nlive++] = f.id;
  return &f;
}
void retire(Fiber* f) {    // joined
  f->closed = true; ++tick;
  if (f->stack >= 0) { freestk->push_back(f->stack); f->stack = -1; }
}
void (*root_body)(void*); void* root_arg;
void finish_cur() {
  cur->st = DONE; cur->asleep = false;
  int k = 0; for (int i = 0; i < nlive; ++i) if (live[i] != cur->id) live[k++] = live[i]; nlive = k;
  if (cur->id == 0) {
    if (nlive) fail("task-outlives-program", "a thread was still running when the call returned");
    g_on = false; leave();
  }
  switch_free(false);
  __builtin_unreachable();
}
void entry() {
  Fiber* me = cur;
  try {
    if (me->id == 0) root_body(root_arg);
    else if (me->pfn) me->pfn(me->arg);
    else me->fn(me->arg, me->idx);
  } catch (...) { me->ex = std::current_exception(); }
  if (me->ex && (me->id == 0 || me->pfn)) {
    std::string m = "unknown";
    try { std::rethrow_exception(me->ex); } catch (std::exception& e) { m = e.what(); } catch (...) {}
    fail("exception", "unexpected exception: " + m);
  }
  finish_cur();
}
struct Join { int first, n; };
struct Impl : rt::Sched {
  bool active() override { return g_on && !g_quiet; }
  int width() override { return opt.width; }
  int worker() override { return cur ? cur->slot : 0; }
  void touch(const void* p, bool w) override { access(p, 4, w); }
  void atomic(int d) override { g_quiet += d; }
  void block_until(bool (*pred)(void*), void* arg) override {
    if (!g_on) return;
    if (pred(arg)) return;
    cur->st = BLOCKED; cur->pred = pred; cur->parg = arg;
    switch_free(false);
  }
  void run(size_t n, void (*f)(void*, size_t), void* arg) override {
    Fiber* me = cur; Join j{nF, int(n)};
    ++g_quiet; ++g_open;
    const int reg = me->region ? me->region : ++nregion;
    for (size_t i = 0; i < n; ++i) { Fiber* c = spawn(me->id, false); c->fn = f; c->arg = arg; c->region = reg; c->idx = i; c->slot = i == 0 ? me->slot : take_slot(); }
    --g_quiet;
    me->st = BLOCKED; me->parg = &j;
    me->pred = [](void* a) { auto j = (Join*)a; for (int i = 0; i < j->n; ++i) if (F[j->first + i].st != DONE) return false; return true; };
    switch_free(false);
    --g_open;
    std::exception_ptr ex;
    for (int i = 0; i < j.n; ++i) { Fiber& c = F[j.first + i]; if (i) slots_used[c.slot] = false; if (c.ex && !ex) ex = c.ex; retire(&c); }
    if (ex) std::rethrow_exception(ex);
  }
} impl;

void init_once() {
  static bool done = false; if (done) return; done = true;
  auto mm = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(7); } return (char*)p; };
  root_stack = mm(ROOT_STACK); arena = (u8*)mm(ARENA_TOTAL); shadow = (u8*)mm(ARENA_TOTAL / 8 + 64);
  recs = (Rec*)mm(sizeof(Rec) * RS);
  stacks = new Vec<char*>(); freestk = new Vec<int>(); path = new Vec<Choice>(); newconf = new Vec<uptr>(); held_mutexes = new Vec<int*>();
  failkey = new std::string; failmsg = new std::string;
  uptr tp = uptr(__builtin_thread_pointer()); tls_lo = tp - 0x4000; tls_hi = tp + 0x1000;
  rt::sched = &impl;
}
void reset_exec() {
  for (int* m : *held_mutexes) *m = 0;
  held_mutexes->clear();
  for (int i = 0; i < nF; ++i) {
    uptr b = i == 0 ? uptr(arena) : uptr(arena) + ROOT_ARENA + size_t(i - 1) * ARENA;
    size_t n = F[i].ar - b;
    if (n) memset(shadow + ((b - uptr(arena)) >> 3), 0, n / 8 + 8);
    F[i].ex = nullptr;
  }
  // stacks are handed out in the same order in every execution
  freestk->clear(); for (int i = int(stacks->size()); i-- > 0;) freestk->push_back(i);
  nF = 0; nlive = 0; nregion = 0; g_open = 0; g_quiet = 0; steps = tick = since_switch = 0; used = 0; depth = 0; prune = false; ++gen; nrec = 0;
  for (auto& s : slots_used) s = false;
}
void run_exec() {
  reset_exec();
  Fiber* f = spawn(-1, false); f->slot = take_slot();
  cur = f; g_on = true;
  mc_switch(&host_sp, f->sp);
  g_on = false;
}
bool backtrack() {
  while (!path->empty()) { auto& c = path->back(); if (c.c + 1 < c.n) { ++c.c; return true; } path->pop_back(); }
  return false;
}
std::string sched_str() {
  std::string s; for (size_t i = 0; i < path->size() && i < depth; ++i) { auto& c = (*path)[i]; if (c.c) s += std::to_string(c.step) + ":" + std::to_string(c.task) + " "; }
  return s + "(other points: first runnable task)";
}
}    // namespace

Res explore(const Opt& o, void (*body)(void*), std::string (*oracle)(void*), void (*drop)(void*, bool), void* arg, void (*beat)(uint64_t)) {
  init_once();
  Res R; opt = o; root_body = body; root_arg = arg;
  memset(cset, 0, sizeof cset); ncs = 0; newconf->clear();
  u64 total = 0;
  for (budget = 0; budget <= o.bound; ++budget) {
   again:
    path->clear();
    u64 ex = 0, pr = 0;
    for (;;) {
      failkey->clear(); failmsg->clear(); replay_broken = false;
      run_exec();
      ++total; R.points += steps;
      if ((total & 255) == 0) beat(total);
      if (!failkey->empty()) { drop(arg, false); R.key = *failkey; R.msg = *failmsg; R.schedule = sched_str(); R.execs += ex + 1; R.conflicts = ncs; return R; }
      if (prune) { ++pr; drop(arg, false); }
      else {
        ++ex;
        std::string m = oracle(arg);
        if (!m.empty()) { R.key = "schedule-outcome"; R.msg = m; R.schedule = sched_str(); R.execs += ex; R.conflicts = ncs; drop(arg, true); return R; }
        drop(arg, true);
      }
      if (!newconf->empty()) { for (auto g : *newconf) cs_add(g); newconf->clear(); ++R.restarts; R.execs += ex; goto again; }
      if (total > o.cap) { R.capped = true; break; }
      if (!backtrack()) break;
    }
    R.execs += ex; R.pruned += pr;
    if (R.capped) break;
  }
  R.conflicts = ncs;
  return R;
}
void par(size_t n, const std::function<void(size_t)>& f) { impl.run(n, [](void* a, size_t i) { (*(const std::function<void(size_t)>*)a)(i); }, (void*)&f); }
u64 now() { return steps; }
}}    // namespace mc::sc

using namespace mc::sc;
// ------------------------------------------------------------------ allocation
static void* mc_new(size_t n, size_t al) {
  if (g_on) return arena_alloc(n ? n : 1, al);
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void mc_del(void* p) { if (!p) return; if (arena && in_arena(uptr(p))) arena_free(p, 0); else free(p); }
void* operator new(size_t n) { return mc_new(n, 16); }
void* operator new[](size_t n) { return mc_new(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mc_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mc_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return mc_new(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return mc_new(n, size_t(a)); }
void operator delete(void* p) noexcept { mc_del(p); }
void operator delete[](void* p) noexcept { mc_del(p); }
void operator delete(void* p, size_t) noexcept { mc_del(p); }
void operator delete[](void* p, size_t) noexcept { mc_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mc_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mc_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { mc_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mc_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { mc_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { mc_del(p); }

// ------------------------------------------------------------------ threads
template <class T> static T real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!g_on) return real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create")(t, a, fn, arg);
  ++g_open;
  if (!cur->region) cur->region = ++nregion;    // from now on the creator runs alongside
  Fiber* f = spawn(cur->id, true); f->pfn = fn; f->arg = arg; f->slot = take_slot();
  *t = pthread_t(0x10000 + f->id);
  point(uptr(f), 1, true);    // the new thread may run at once
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  int id = int(uptr(t)) - 0x10000;
  if (id <= 0 || id >= MAXF) return real<int (*)(pthread_t, void**)>("pthread_join")(t, r);
  if (!g_on) return 0;
  impl.block_until([](void* a) { return ((Fiber*)a)->st == DONE; }, &F[id]);
  if (!F[id].closed) { --g_open; slots_used[F[id].slot] = false; retire(&F[id]); }
  if (r) *r = nullptr;
  return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { static pthread_t (*r)() = real<pthread_t (*)()>("pthread_self"); return g_on ? pthread_t(0x10000 + cur->id) : r(); }
int pthread_once(pthread_once_t* c, void (*f)()) {
  int& s = *(int*)c;
  if (s == 2) return 0;
  if (s == 1) { if (g_on) impl.block_until([](void* a) { return *(int*)a == 2; }, c); return 0; }
  s = 1; f(); s = 2;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  int& h = *(int*)m;
  if (!g_on || g_quiet) { return 0; }
  impl.touch(m, true);
  while (h) impl.block_until([](void* a) { return *(int*)a == 0; }, m);
  h = 1; if (!in_arena(uptr(m))) { ++g_quiet; held_mutexes->push_back(&h); --g_quiet; }
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { int& h = *(int*)m; if (!g_on || g_quiet) return 0; impl.touch(m, true); if (h) return EBUSY; h = 1; if (!in_arena(uptr(m))) held_mutexes->push_back(&h); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { int& h = *(int*)m; if (!g_on || g_quiet) return 0; impl.touch(m, true); h = 0; return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
struct CondWait { int* seq; int v; };
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!g_on) return 0;
  CondWait w{(int*)c, *(int*)c};
  pthread_mutex_unlock(m);
  impl.block_until([](void* a) { auto w = (CondWait*)a; return *w->seq != w->v; }, &w);
  return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_signal(pthread_cond_t* c) { if (g_on) { impl.touch(c, true); ++*(int*)c; } return 0; }    // every waiter may wake (spurious wake-ups are legal)
int pthread_cond_broadcast(pthread_cond_t* c) { return pthread_cond_signal(c); }
int sched_yield() { if (g_on && !g_quiet && nlive > 1) { ++steps; since_switch = 0; switch_free(true); } return 0; }
struct FutexW { unsigned* a; unsigned v; };
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* a, unsigned v, bool, long, long) {
  if (!g_on) return true;
  FutexW w{a, v};
  impl.block_until([](void* p) { auto w = (FutexW*)p; return *w->a != w->v; }, &w);
  return true;
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void* t, unsigned* a, unsigned v, bool b, long x, long y) {
  return _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(t, a, v, b, x, y);
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned*) {}

// ------------------------------------------------------------------ instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false); } \
  void __tsan_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int) { access(a, sizeof(T), false); return *a; } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { access(a, sizeof(T), true); *a = v; } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { access(a, sizeof(T), true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { access(a, sizeof(T), true); T o = *a; *a = T(o + v); return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { access(a, sizeof(T), true); T o = *a; *a = T(o - v); return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { access(a, sizeof(T), true); T o = *a; *a = T(o & v); return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { access(a, sizeof(T), true); T o = *a; *a = T(o | v); return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { access(a, sizeof(T), true); T o = *a; *a = T(o ^ v); return o; } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { access(a, sizeof(T), true); T o = *a; *a = T(~(o & v)); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access(a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access(a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access(a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, uint32_t) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
