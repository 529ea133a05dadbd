// Controlled scheduler: runs a closed concurrent program on one OS thread as fibers and walks every
// schedule up to a preemption bound.  Interface used by the schedule harnesses; sched.cpp implements it.
#pragma once
#include "core.hpp"
#include <optional>
namespace mc { namespace sc {
struct Opt { int width = 2; int bound = 2; uint64_t cap = 400000; };
struct Res {
  uint64_t execs = 0, pruned = 0, points = 0, restarts = 0, conflicts = 0, choice_points = 0;
  bool capped = false; std::string key, msg, schedule;
};
// body runs inside a fiber; oracle after each complete execution, outside the scheduler; drop() forgets the result
Res explore(const Opt& o, void (*body)(void*), std::string (*oracle)(void*), void (*drop)(void*, bool destroy), void* arg, void (*beat)(uint64_t));
// explicit two-step threads for harnesses that have no parallel region of their own
void par(std::size_t n, const std::function<void(std::size_t)>& f);
uint64_t now();    // logical time (number of scheduling points passed), for histories

template <class Body, class Oracle>
__attribute__((no_sanitize("thread"))) void explore(Ctx& X, const Opt& o, Body&& body, Oracle&& oracle) {
  using R = decltype(body());
  struct Pack { Body& b; Oracle& o; std::optional<R> r; };
  Pack* pk = new Pack{body, oracle, std::nullopt};
  auto res = explore(o, [](void* a) { auto p = static_cast<Pack*>(a); p->r.emplace(p->b()); },
    [](void* a) -> std::string { auto p = static_cast<Pack*>(a); return p->o(*p->r); },
    [](void* a, bool d) { auto p = static_cast<Pack*>(a); if (d) p->r.reset(); else new (&p->r) std::optional<R>(); }, pk,
    [](uint64_t n) { if (self->st) { self->st->heartbeat = self->st->heartbeat + 1; } });
  delete pk;
  X.runs += res.execs; X.checks += res.execs; if (X.runs) --X.runs;
  X.counters["schedules of " + X.cur_name] += res.execs;
  X.counters["schedules executed to completion"] += res.execs;
  X.counters["schedules cut as equivalent to an earlier one"] += res.pruned;
  X.counters["scheduling points passed"] += res.points;
  X.counters["shared locations found to conflict"] += res.conflicts;
  X.counters["preemption bound " + std::to_string(o.bound) + ", at most " + std::to_string(o.width) + " tasks per region: programs"] += 1;
  if (res.capped) { X.counters["programs whose schedule count hit the cap"] += 1; }
  if (!res.key.empty()) {
    if (res.key == "harness-nondeterminism") { X.emit("{\"harness_error\":\"schedule replay diverged: " + jesc(res.msg + " in " + X.cur_name + " " + (X.cur_desc ? X.cur_desc() : "")) + "\"}"); _exit(8); }
    X.violation(res.key, res.msg + " | schedule (point:task): " + res.schedule);
    throw Violation{};
  }
}
}}    // namespace mc::sc
