#!/usr/bin/env python3
"""run.py ID [--replay FILE]: builds the check, runs the seeded search, minimises, gates, reports.

Exit 0: held on everything explored. Exit 1 with "VIOLATION property=<id> replay=<path>": broken.
Anything else: the machinery itself failed.
"""
import json, os, re, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as bld

V = bld.V
WORKERS = max(2, min(8, os.cpu_count() or 8))
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C", HDF5_USE_FILE_LOCKING="FALSE",
           ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096:"
                        "detect_stack_use_after_return=0:handle_segv=1:handle_abort=0:quarantine_size_mb=8:malloc_context_size=4")


def seed_of(x):
    """VERIF_SEED as an integer, whatever text it holds."""
    try:
        return int(x) & 0xffffffffffffffff
    except ValueError:
        h = 1469598103934665603
        for c in x.encode():
            h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
        return h


def crash_class(rc, err):
    if rc == 97:
        return "hang", "no progress within the CPU limit of one run"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        loc = re.findall(r"#\d+ 0x\w+ in (\S+)", err)
        loc = [l for l in loc if not l.startswith(("__interceptor", "__asan", "operator", "std::", "sim::"))]
        return "memory-error:" + m.group(1), "AddressSanitizer: %s in %s" % (m.group(1), ", ".join(loc[:3]))
    if rc < 0:
        return "crash:signal%d" % -rc, "killed by signal %d" % -rc
    return "crash:exit%d" % rc, "exited with %d unexpectedly: %s" % (rc, err[-200:].replace("\n", " "))


def execute(binary, plan_text, verbose=False, keep=None, hang=None):
    """Runs one plan in a fresh process: (class or None, message, hash, log)."""
    d = tempfile.mkdtemp(prefix="vsim")
    try:
        f = os.path.join(d, "plan")
        open(f, "w").write(plan_text)
        st = os.path.join(d, "state")
        e = dict(ENV, SIM_STDERR="1")
        if hang:
            e["SIM_HANG"] = str(hang)
        r = subprocess.run([binary, "--exec", f, "--state", st] + (["-v"] if verbose else []),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=d)
        out, err = r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
        h = re.search(r"^HASH (\w+)", out, re.M)
        if r.returncode in (0, 1) and h:
            m = re.search(r"^FAIL ([^|\n]*)\|(.*)$", out, re.M)
            return (m.group(1) if m else None), (m.group(2) if m else ""), h.group(1), out
        c, msg = crash_class(r.returncode, err)
        hh = ""
        if os.path.exists(st):
            b = open(st, "rb").read(16)
            hh = b[:8][::-1].hex()
        return c, msg, "crash-" + hh, out + err[-3000:]
    finally:
        subprocess.run(["rm", "-rf", d])


class Worker:
    def __init__(self, binary, master, first, stride, count, tier, limit, nhash):
        self.args = (binary, master, first, stride, count, tier, limit, nhash)
        self.t_end = time.time() + limit
        self.lines, self.cur, self.viol, self.hashes = [], None, [], {}
        self.stats, self.faults, self.probes = {}, {}, {}
        self.states, self.runs = set(), set()
        self.done = False
        self.crashes = 0
        self.start(first)

    def start(self, first):
        b, master, _, stride, count, tier, limit, nhash = self.args
        self.err = tempfile.TemporaryFile()
        left = max(1.0, self.t_end - time.time())
        self.p = subprocess.Popen([b, "--batch", str(master), str(first), str(stride), str(count), str(tier),
                                   "%.2f" % left, str(nhash)], stdout=subprocess.PIPE, stderr=self.err,
                                  env=dict(ENV, SIM_STDERR="1"), cwd="/tmp")

    def pump(self):
        ok = False
        for raw in self.p.stdout:
            l = raw.decode("utf8", "replace").rstrip("\n")
            k, _, rest = l.partition(" ")
            if k == "B":
                self.cur = int(rest)
            elif k == "H":
                i, h = rest.split()
                self.hashes[int(i)] = h
            elif k == "V":
                i, s, m = rest.split(" ", 2)
                c, _, m = m.partition("|")
                self.viol.append((int(i), int(s), c, m))
            elif k == "S":
                for kv in rest.split():
                    a, v = kv.split("=")
                    self.stats[a] = self.stats.get(a, 0) + float(v)
            elif k in "FP" and len(k) == 1:
                d = self.faults if k == "F" else self.probes
                for kv in rest.split():
                    a, v = kv.rsplit("=", 1)
                    d[a] = d.get(a, 0) + int(v)
            elif k == "C":
                self.states.update(rest.split())
            elif k == "X":
                self.runs.update(rest.split())
            elif k == "DONE":
                ok = True
        rc = self.p.wait()
        if not ok:
            self.err.seek(0)
            err = self.err.read().decode("utf8", "replace")
            if self.cur is None:
                raise RuntimeError("worker died before its first run (rc %d): %s" % (rc, err[-2000:]))
            c, m = crash_class(rc, err)
            self.viol.append((self.cur, None, c, m))
            self.crashes += 1
            if self.crashes < 3:
                nxt = self.cur + self.args[3]
                if nxt < self.args[4] and time.time() < self.t_end:
                    self.start(nxt)
                    return self.pump()
        return self


def search(binary, master, count, tier, limit, nhash, workers=WORKERS):
    import threading
    ws, errs = [], []

    def go(k):
        try:
            w = Worker(binary, master, k, workers, count, tier, limit, nhash)
            ws.append(w)
            w.pump()
        except Exception as e:  # noqa
            errs.append(e)
    th = [threading.Thread(target=go, args=(k,)) for k in range(workers)]
    [t.start() for t in th]
    [t.join() for t in th]
    if errs:
        raise errs[0]
    return ws


def mix(z):
    M = 0xffffffffffffffff
    z = (z + 0x9e3779b97f4a7c15) & M
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M
    return z ^ (z >> 31)


def run_seed(master, i):
    return mix((master * 0x9e3779b97f4a7c15 + i) & 0xffffffffffffffff)


def minimise(binary, plan, cls, budget=90.0):
    """Delta debugging on plan lines, then on arguments, in fresh processes."""
    t_end = time.time() + budget
    hang = 6 if cls == "hang" else None
    tried = {}

    def bad(lines):
        if time.time() > t_end:
            return False
        t = "\n".join(lines) + "\n"
        if t not in tried:
            tried[t] = execute(binary, t, hang=hang)[0] == cls
        return tried[t]
    cur = [l for l in plan.splitlines() if l and not l.startswith("#")]
    n = 2
    while len(cur) >= 2 and time.time() < t_end:
        size = max(1, len(cur) // n)
        for i in range(0, len(cur), size):
            cand = cur[:i] + cur[i + size:]
            if cand and bad(cand):
                cur, n = cand, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(cur), n * 2)
    # simpler arguments
    changed = True
    while changed and time.time() < t_end:
        changed = False
        for i, l in enumerate(cur):
            if l.startswith("cfg-fixed"):
                continue
            head, q, text = l.partition(" '")
            w = head.split()
            for j in range(1, len(w)):
                try:
                    v = float(w[j])
                except ValueError:
                    continue
                for c in ("0", "1", str(int(v / 2)) if abs(v) >= 2 else None, str(int(v) - 1) if v == int(v) and v > 1 else None):
                    if c is None or c == w[j] or abs(float(c)) >= abs(v):
                        continue
                    cand = cur[:i] + [" ".join(w[:j] + [c] + w[j + 1:]) + q + text] + cur[i + 1:]
                    if bad(cand):
                        cur, w, changed = cand, w[:j] + [c] + w[j + 1:], True
                        break
    return "\n".join(cur) + "\n"


def known(cid):
    f = os.path.join(V, "known_findings.txt")
    res = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == cid:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    t0 = time.time()
    cid = sys.argv[1]
    cfg = bld.config()[cid]
    tier = os.environ.get("VERIF_TIER", "quick")
    master = seed_of(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in sys.argv:
        binary = bld.build(cid)
        txt = open(sys.argv[sys.argv.index("--replay") + 1]).read()
        c, m, h, log = execute(binary, txt, verbose=True)
        print(log)
        print("replay: %s %s (log hash %s)" % (c or "no violation", m, h))
        return 1 if c else 0
    try:
        binary = bld.build(cid)
    except bld.BuildError as e:
        print("build error:", e)
        return 2
    t_build = time.time() - t0
    count = int(os.environ.get("SIM_RUNS", cfg["quick_runs"] if tier == "quick" else cfg.get("thorough_runs", cfg["quick_runs"] * 100)))
    limit = float(os.environ.get("SIM_LIMIT", cfg.get("quick_limit", 60) if tier == "quick" else cfg.get("thorough_limit", 1800)))
    nhash = min(count, 400 if tier == "quick" else 4000)
    t1 = time.time()
    ws = search(binary, master, count, 0 if tier == "quick" else 1, limit, nhash)
    t_run = time.time() - t1
    viol = sorted(v for w in ws for v in [(a, b or 0, c, m) for a, b, c, m in w.viol])
    hashes = {}
    for w in ws:
        hashes.update(w.hashes)
    nondet = []
    if not viol:
        # determinism: the same seeds again, other process partition, other order of predecessors
        ws2 = search(binary, master, nhash, 0 if tier == "quick" else 1, limit, nhash, workers=3)
        for w in ws2:
            for i, h in w.hashes.items():
                if i in hashes and hashes[i] != h:
                    nondet.append(i)
            viol += [(a, b or 0, c, m) for a, b, c, m in w.viol]
    tot = {}
    faults, probes, states, runs = {}, {}, set(), set()
    for w in ws:
        for k, v in w.stats.items():
            tot[k] = tot.get(k, 0) + v
        for d, s in ((faults, w.faults), (probes, w.probes)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        states |= w.states
        runs |= w.runs

    reported, knownhit, errors = [], {}, []
    kn = known(cid)
    seen = set()
    for i, s, c, m in viol:
        if c in seen or len(reported) >= 3:
            continue
        kf = [k for k in kn if k[0] == c]
        if kf:
            knownhit[c] = kf[0][1]
            continue
        seen.add(c)
        s = run_seed(master, i)
        plan = subprocess.run([binary, "--gen", str(s), "0" if tier == "quick" else "1"], stdout=subprocess.PIPE, env=ENV,
                              stderr=subprocess.DEVNULL).stdout.decode()
        a = execute(binary, plan)
        if a[0] != c and not (a[0] and a[0].split(":")[0] == c.split(":")[0]):
            b = execute(binary, plan)
            errors.append("run %d (seed %d) reported %s but replays as %s / %s" % (i, s, c, a[0], b[0]))
            continue
        c = a[0]
        small = plan if reported else minimise(binary, plan, c)
        x, y = execute(binary, small), execute(binary, small)
        if x[0] != c or y[0] != c or x[2] != y[2]:
            errors.append("seed %d: %s does not replay exactly (%s %s / %s %s)" % (s, c, x[0], x[2], y[0], y[2]))
            continue
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", "%s-%d.plan" % (cid, s))
        with open(path, "w") as f:
            f.write("# property=%s seed=%d run=%d master=%d class=%s\n# %s\n# log hash %s\n# replay: python3 tools/run.py %s --replay %s\n"
                    % (cid, s, i, master, c, x[1], x[2], cid, path))
            f.write(small)
        reported.append((path, s, c, x[1]))
    if nondet and not reported:
        errors.append("log hashes of runs %s differ between two executions" % nondet[:5])
        # is it the code under test?  a run that differs from itself in fresh processes
    wall = time.time() - t0
    nontriv = int(tot.get("nontrivial", 0))
    samples = []
    for i in range(3):
        samples.append(subprocess.run([binary, "--gen", str(run_seed(master, i)), "0" if tier == "quick" else "1"],
                                      stdout=subprocess.PIPE, env=ENV, stderr=subprocess.DEVNULL).stdout.decode()[:1500].splitlines())
    done = int(tot.get("done", 0))
    ev = dict(property=cid, tier=tier, seed=master & 0x7fffffffffffffff, level="exploration",
              coverage=dict(evaluations=done, distinct_nontrivial=nontriv, rule=cfg["rule"], samples=samples,
                            distinct_event_logs=len(runs), distinct_states=len(states), state_measure=cfg.get("measure", ""),
                            log_events=int(tot.get("events", 0)), simulated_time_s=tot.get("simtime", 0.0),
                            faults_injected=faults, rare_conditions_hit=probes,
                            seeds_per_hour=round(done / max(t_run, 1e-3) * 3600),
                            search_wall_s=round(t_run, 2), build_wall_s=round(t_build, 2),
                            time_limit_reached=bool(tot.get("stopped")),
                            determinism_reruns=len(hashes) if not viol else 0, determinism_mismatches=len(nondet),
                            components_real=cfg.get("real", []), components_stubbed=cfg.get("stub", [])),
              assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=len(reported))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", cid + ".json"), "w"), indent=1)
    print("%s: %d runs (%d distinct non-trivial), %d log events, build %.1f s, search %.1f s" %
          (cid, done, nontriv, int(tot.get("events", 0)), t_build, t_run))
    if faults:
        print("  faults:", " ".join("%s=%d" % kv for kv in sorted(faults.items())))
    if probes:
        print("  probes:", " ".join("%s=%d" % kv for kv in sorted(probes.items())))
    for c, t in knownhit.items():
        print("KNOWN-FINDING: property=%s %s" % (cid, t))
    for path, s, c, m in reported:
        print("violation class %s, seed %d: %s" % (c, s, m))
        print("VIOLATION property=%s replay=%s" % (cid, path))
    if reported:
        return 1
    for e in errors:
        print("ERROR:", e)
    if errors:
        return 3
    missing = [p for p in cfg.get("must_probe", []) if not probes.get(p) and not faults.get(p)]
    if missing and "SIM_RUNS" not in os.environ:
        if tot.get("stopped") and done < cfg["quick_runs"] / 2:
            print("note: never reached in the time given:", missing) # a slow machine
        else:
            print("ERROR: never reached:", missing)
            return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
