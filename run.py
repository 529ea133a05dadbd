#!/usr/bin/env python3
"""Driver: compile the harnesses of one property against /repo's working tree, run them sharded,
confirm every violation by replaying it alone, write /verif/evidence/<id>.json."""
import concurrent.futures as cf, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))
import table  # noqa: E402
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:hard_rss_limit_mb=6000:max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_odr_violation=0:quarantine_size_mb=16:malloc_context_size=3:print_summary=1:detect_stack_use_after_return=0:allocator_may_return_null=0")
HANG, HANG_ALONE = 90, 180
NPROC = max(1, len(os.sched_getaffinity(0)))

def flags(unit):
    mode = unit.get("mode", "seq")
    inc = ["-I" + VERIF + "/mc/shadow"] if mode != "real" else ["-DMC_REAL_TBB"]
    f = ["-std=c++20", "-O1", "-g1", "-w", "-include", "cstdint", "-include", "functional", "-include", VERIF + "/mc/rt.hpp"] + inc
    f += ["-I" + VERIF + "/mc", "-I" + REPO + "/include", "-I" + REPO + "/include/nwgraph"]
    if mode in ("seq", "real"):
        f += ["-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
    return f + unit.get("flags", [])

def compile_unit(unit, build):
    src = os.path.join(VERIF, "checks", unit["src"])
    exe = os.path.join(build, unit["name"])
    mode = unit.get("mode", "seq")
    if mode == "sched":
        objs = []
        cmds = [["g++"] + flags(unit) + ["-O2", "--param", "tsan-instrument-func-entry-exit=0", "-fsanitize=thread", "-c", src, "-o", exe + ".o"],
                ["g++", "-std=c++20", "-O2", "-g1", "-w", "-include", VERIF + "/mc/rt.hpp", "-I" + VERIF + "/mc", "-c", VERIF + "/mc/sched.cpp", "-o", exe + ".s.o"],
                ["g++", exe + ".o", exe + ".s.o", "-lpthread", "-ldl", "-rdynamic", "-o", exe]]
    else:
        cmds = [["g++"] + flags(unit) + [src, "-o", exe] + (["-ltbb"] if mode == "real" else []) + unit.get("libs", [])]
    for c in cmds:
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode:
            return None, " ".join(c) + "\n" + r.stderr[:1500]
    return exe, None

class Shard:
    def __init__(self, unit, exe, k, n, tmp, tier, deadline):
        self.unit, self.exe, self.k, self.n, self.tmp, self.tier, self.deadline = unit, exe, k, n, tmp, tier, deadline
        self.viol, self.done, self.crashes, self.err = [], None, 0, None
        self.extra = dict(states=0, runs=0, checks=0)
    def cmd(self, more):
        c = [self.exe, "--shard", "%d/%d" % (self.k, self.n)] + self.unit.get("args", []) + more
        if self.tier == "thorough": c.append("--thorough")
        return c

def read_status(path):
    try:
        d = open(path, "rb").read()
        hb, idx, cfg, states, runs, checks = struct.unpack_from("6Q", d)
        return hb, idx, cfg, states, runs, checks, d[48:48 + 160].split(b"\0")[0].decode(errors="replace")
    except Exception:
        return 0, 0, 0, 0, 0, 0, "?"

def run_once(cmd, tmp, tag, hang, stop=None):
    """returns (lines, status, kind) kind in done/crash/hang/stopped"""
    out, stf, err = [os.path.join(tmp, tag + x) for x in (".out", ".st", ".err")]
    for p in (out, stf): open(p, "wb").close()
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd + ["--out", out, "--status", stf], stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=ENV, start_new_session=True, cwd=tmp)
    last, t_last, kind = None, time.time(), None
    while True:
        try:
            p.wait(0.2 if not stop else 0.2); break
        except subprocess.TimeoutExpired: pass
        hb = read_status(stf)[0]
        if hb != last: last, t_last = hb, time.time()
        elif time.time() - t_last > hang: kind = "hang"
        if stop and stop(): kind = "stopped"
        if kind:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait(); break
    lines = []
    for l in open(out, errors="replace"):
        try: lines.append(json.loads(l))
        except ValueError: pass
    if kind is None:
        kind = "done" if any("done" in l for l in lines) else "crash"
    e = open(err, errors="replace").read()
    return lines, read_status(stf), kind, p.returncode, e

def asan_key(err, rc):
    m = re.search(r"AddressSanitizer:? ([a-zA-Z0-9_-]+)", err)
    if m: return "asan:" + m.group(1)
    if "hard rss limit" in err: return "memory-exhausted"
    m = re.search(r"SCHED: (.*)", err)
    if m: return m.group(1)[:80]
    if "terminate called" in err: return "terminate"
    if rc is not None and rc < 0:
        try: return "signal:" + signal.Signals(-rc).name
        except ValueError: return "signal:%d" % -rc
    return "exit:%s" % rc

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.spec = table.CHECKS[pid]
        self.known = []
        kf = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"finding: property=(\S+) run=(\S+) key=(\S+) input=`(.*?)`\s*(.*)", l)
                if m and m.group(1) == pid: self.known.append(m.groups())
        self.hit = {}
        self.violations, self.notes = [], []
        self.stop_at = None
    def is_known(self, v):
        for k in self.known:
            if k[1] == v["run"].replace(" ", "_") and k[2] == v["key"].replace(" ", "_") and k[3] == v["desc"]:
                return k
        return None

    def confirm(self, sh, v):
        """replay one violation alone; the same schedule/input must fail again"""
        tries = 6 if sh.unit.get("mode") == "real" else 3
        for t in range(tries):
            lines, st, kind, rc, err = run_once(sh.cmd(["--only", str(v["idx"])]), self.tmp, "confirm-%s-%d" % (sh.unit["name"], sh.k), HANG_ALONE)
            for l in lines:
                if "violation" in l and l["run"] == v["run"]: v["msg"] = l["msg"]; v["key"] = l["key"]; return True
            if kind == "hang" or kind == "crash":
                if v["kind"] != kind: v["kind"] = kind
                if kind == "crash": v["key"] = asan_key(err, rc); v["msg"] = "\n".join(err.strip().splitlines()[:12])[:1500]
                return True
        return False

    def shard_main(self, sh):
        frm, deadline = 0, sh.deadline
        while True:
            left = max(5, deadline - time.time())
            more = ["--from", str(frm), "--deadline", "%.0f" % left]
            lines, st, kind, rc, err = run_once(sh.cmd(more), self.tmp, "%s-%d" % (sh.unit["name"], sh.k), HANG,
                                                lambda: self.stop_at is not None and time.time() > self.stop_at)
            for l in lines:
                if "harness_error" in l: sh.err = l["harness_error"]
                if "violation" in l:
                    l["kind"] = "mismatch"; self.handle(sh, l)
                if "done" in l: sh.done = l
            if kind in ("done", "stopped"): return
            if sh.err: return
            if kind == "crash" and st[0] == 0:
                sh.err = "worker died before the first state: rc=%s %s" % (rc, err[-1500:]); return
            d = subprocess.run(sh.cmd(["--describe", str(st[1])]), capture_output=True, text=True, env=ENV, cwd=self.tmp)
            desc = "?"
            for l in d.stdout.splitlines():
                try: desc = json.loads(l)["describe"]
                except Exception: pass
            v = dict(idx=st[1], run=st[6], key="hang" if kind == "hang" else asan_key(err, rc), kind=kind, desc=desc[:3000],
                     msg=("no progress for %d s" % HANG) if kind == "hang" else "\n".join(err.strip().splitlines()[:14])[:1500])
            for k, i in (("states", 3), ("runs", 4), ("checks", 5)): sh.extra[k] += st[i]
            self.handle(sh, v)
            sh.crashes += 1
            if sh.crashes >= 2 or (sh.crashes >= 1 and kind == "hang"): sh.done = sh.done or dict(states=0, runs=0, checks=0, skipped=0, capped=1, outcomes=0, total=0, stopped=1, sections={}, counters={}, samples=[]); return
            frm = st[1] + 1

    def handle(self, sh, v):
        if not self.confirm(sh, v):
            self.notes.append("not reproduced on replay, dropped: %s %s %s" % (v["run"], v["key"], v["desc"][:200])); return
        k = self.is_known(v)
        if k:
            self.hit[k] = 1; return
        v["unit"] = sh.unit["name"]; v["shard"] = "%d/%d" % (sh.k, sh.n)
        self.violations.append(v)
        if self.stop_at is None: self.stop_at = time.time() + 3

    def main(self):
        t0 = time.time()
        units = [u for u in self.spec["units"] if self.tier == "thorough" or not u.get("thorough_only")]
        self.tmp = tempfile.mkdtemp(prefix="mc-%s-" % self.pid)
        try: return self.body(units, t0)
        finally: shutil.rmtree(self.tmp, ignore_errors=True)

    def body(self, units, t0):
        pid, tier = self.pid, self.tier
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda u: compile_unit(u, self.tmp), units))
        for u, (exe, err) in zip(units, res):
            if exe is None:
                print("ERROR: unit %s of %s does not compile against this tree:\n%s" % (u["name"], pid, err)); return 2
        tc = time.time()
        total = float(os.environ.get("MC_DEADLINE", 700 if tier == "quick" else self.spec.get("thorough_s", 3000)))
        deadline = t0 + total
        shards = []
        for u, (exe, _) in zip(units, res):
            n = u.get("shards", NPROC)
            shards += [Shard(u, exe, k, n, self.tmp, tier, deadline) for k in range(n)]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(self.shard_main, shards))
        errs = [s.err for s in shards if s.err]
        if errs:
            print("ERROR: %s" % errs[0]); return 2
        cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True)
        sect, cnt, outc, skipped = {}, {}, 0, 0
        for s in shards:
            d = s.done or {}
            cov["states"] += d.get("states", 0) + s.extra["states"]
            cov["traces_validated_against_impl"] += d.get("runs", 0) + s.extra["runs"]
            cov["transitions"] += d.get("checks", 0) + s.extra["checks"]
            outc += d.get("outcomes", 0); skipped += d.get("skipped", 0)
            if not s.done or d.get("capped") or d.get("stopped"): cov["exhaustive"] = False
            for k, v in d.get("sections", {}).items(): sect[s.unit["name"] + "/" + k] = sect.get(s.unit["name"] + "/" + k, 0) + v
            for k, v in d.get("counters", {}).items(): cnt[k] = cnt.get(k, 0) + v
            if len(cov["samples"]) < 6: cov["samples"] += d.get("samples", [])[:1]
        cov["states_per_section"] = sect
        if cnt: cov["counters"] = cnt
        if outc: cov["distinct_outcomes_summed_over_shards"] = outc
        if skipped: cov["states_skipped_by_time_cap"] = skipped
        cov["explanation"] = self.spec.get("explanation", "states = elements of the bounded input/history space enumerated; traces = executions of the real implementation compared with the reference model; transitions = single observations compared")
        if self.notes: cov["dropped"] = self.notes[:10]
        vs = self.violations
        seen, uniq = set(), []
        for v in vs:
            k = (v["unit"], v["run"], v["key"])
            if k not in seen: seen.add(k); uniq.append(v)
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=self.spec.get("level", "model_checking"), coverage=cov,
                  assumptions=self.spec.get("assumptions", table.ASSUME), wall_s=round(time.time() - t0, 2), violations=len(uniq))
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.known:
            if k in self.hit: print("KNOWN-FINDING: property=%s %s" % (pid, k[4] or k[3]))
        for i, v in enumerate(uniq[:8]):
            path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (pid, i))
            v["replay_cmd"] = "MC_REPLAY=%d python3 %s/run.py %s %s" % (v["idx"], VERIF, pid, tier)
            with open(path, "w") as f: json.dump(v, f, indent=1)
            print("  [%s] %s / %s\n    input: %s\n    %s" % (v["unit"], v["run"], v["key"], v["desc"][:400], v["msg"].replace("\n", "\n    ")[:1200]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        for n in self.notes[:5]: print("note:", n)
        print("%s %s: states=%d executions=%d observations=%d exhaustive=%s violations=%d known=%d wall=%.1fs (compile %.1fs)" % (
            pid, tier, cov["states"], cov["traces_validated_against_impl"], cov["transitions"], cov["exhaustive"], len(uniq), len(self.hit), time.time() - t0, tc - t0))
        return 1 if uniq else 0

def replay(pid, tier, path):
    """re-run exactly the case of a replay file, verbosely"""
    v = json.load(open(path)); c = Check(pid, tier)
    u = [x for x in c.spec["units"] if x["name"] == v["unit"]][0]
    c.tmp = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        exe, err = compile_unit(u, c.tmp)
        if not exe: print(err); return 2
        k, n = map(int, v["shard"].split("/"))
        sh = Shard(u, exe, k, n, c.tmp, tier, time.time() + 600)
        lines, st, kind, rc, e = run_once(sh.cmd(["--only", str(v["idx"])]), c.tmp, "replay", HANG_ALONE)
        for l in lines: print(json.dumps(l, indent=1))
        print(kind, rc, st, e[-4000:])
        return 1 if kind != "done" or any("violation" in l for l in lines) else 0
    finally: shutil.rmtree(c.tmp, ignore_errors=True)

def setup():
    """nothing is built ahead (every check compiles its harness against /repo's current tree); make sure the tools are there"""
    for t in ("g++",): 
        if not shutil.which(t): print("missing", t); return 1
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    print("ok"); return 0

if __name__ == "__main__":
    if sys.argv[1] == "--setup": sys.exit(setup())
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 3 and sys.argv[2] == "replay": sys.exit(replay(pid, "quick", sys.argv[3]))
    sys.exit(Check(pid, tier).main())
