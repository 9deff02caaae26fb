#!/usr/bin/env python3
"""Driver of the goost simulator.

  check.py setup                    build everything from /repo's working tree
  check.py run ID [--tier quick|thorough]
                                    the registered check of one property
  check.py replay FILE [-v]         re-run a replay file; exit 1 if it still fails
  check.py trace ID SEED INDEX      print the event log of one generated run
  check.py determinism [IDS..]      run many seeds repeatedly, diff the histories

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Anything else: the check itself failed.
"""
import argparse, array, fcntl, hashlib, json, os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GOOST_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("GOOST_SIM_BUILD", os.path.join(HERE, "build"))
CXX = "clang++-18"
CORES = max(1, min(8, len(os.sched_getaffinity(0))))

# operations whose result the language leaves open trap, so that the answer
# cannot depend on what this compiler happens to make of them
TRAPS = "shift-exponent,bounds,integer-divide-by-zero,return,unreachable"
INSTR = ("-std=c++17 -O1 -g -fsanitize=thread,%s -fsanitize-trap=%s -DNDEBUG -include array -w" % (TRAPS, TRAPS)).split()
PLAIN = "-std=c++17 -O2 -g -w".split()
INSTRUMENTED = ["seams", "jobs", "scn_streams", "scn_share", "scn_misc", "scn_live", "scn_more"]
UNINSTRUMENTED = ["rt", "ref"]

# runs of the quick tier, chosen for some 25-30 s on 8 cores
QUICK_RUNS = json.load(open(os.path.join(HERE, "budget.json")))["quick_runs"]
QUICK_CAP_S = 330        # hard wall-clock cap of the exploration
THOROUGH_S = float(os.environ.get("GOOST_THOROUGH_S", "1500"))
SHRINK_S = 60


def die(msg, code=2):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(code)


# ------------------------------------------------------------------- build
def read(p):
    with open(p, "rb") as f:
        return f.read()


def build():
    """Compiles /repo's working tree and the simulator; returns the binary.

    Objects are cached by content: same source, same headers, same flags."""
    root = os.path.join(REPO, "goost")
    srcs, hdrs = [], []
    for d, _, fs in os.walk(root):
        for f in fs:
            (srcs if f.endswith((".cpp", ".cc", ".cxx")) else hdrs).append(os.path.join(d, f))
    srcs.sort()
    hdrs.sort()
    if not srcs:
        die("no sources under %s" % root)
    h = hashlib.sha256()
    for f in hdrs:
        h.update(os.path.relpath(f, REPO).encode() + b"\0" + read(f) + b"\0")
    repo_hdr = h.digest()
    h = hashlib.sha256(repo_hdr)
    for f in sorted(os.listdir(SIM)):
        if f.endswith(".h"):
            h.update(f.encode() + b"\0" + read(os.path.join(SIM, f)) + b"\0")
    sim_hdr = h.digest()
    rth = hashlib.sha256(read(os.path.join(SIM, "rt.h")) + read(os.path.join(SIM, "ref.h"))).digest()

    jobs = []
    for f in srcs:
        jobs.append((f, INSTR + ["-I" + REPO], repo_hdr))
    for n in INSTRUMENTED:
        jobs.append((os.path.join(SIM, n + ".cpp"), INSTR + ["-I" + REPO, "-I" + SIM], sim_hdr))
    for n in UNINSTRUMENTED:
        jobs.append((os.path.join(SIM, n + ".cpp"), PLAIN + ["-I" + SIM], rth))

    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        def one(job):
            src, flags, key = job
            hh = hashlib.sha256(key + src.encode() + b"\0" + " ".join([CXX] + flags).encode() + b"\0" + read(src))
            obj = os.path.join(BUILD, "obj", hh.hexdigest()[:32] + ".o")
            if not os.path.exists(obj):
                tmp = obj + ".tmp"
                r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    return obj, "%s:\n%s" % (src, r.stdout)
                os.rename(tmp, obj)
            else:
                os.utime(obj)
            return obj, None
        with ThreadPoolExecutor(CORES) as ex:
            done = list(ex.map(one, jobs))
        errs = [e for _, e in done if e]
        if errs:
            die("the tree does not compile:\n" + errs[0][:4000])
        objs = [o for o, _ in done]
        binary = os.path.join(BUILD, "sim-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24])
        if not os.path.exists(binary):
            r = subprocess.run([CXX, "-no-pie", "-rdynamic"] + objs + ["-o", binary + ".tmp", "-pthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                die("link failed:\n" + r.stdout[:4000])
            os.rename(binary + ".tmp", binary)
        os.utime(binary)
        # keep the cache small: drop what has not been used for a while
        for d in (BUILD, os.path.join(BUILD, "obj")):
            fs = sorted((os.path.join(d, f) for f in os.listdir(d) if f.endswith(".o") or f.startswith("sim-")),
                        key=lambda p: -os.stat(p).st_mtime)
            for f in fs[(600 if d.endswith("obj") else 6):]:
                os.unlink(f)
        return binary
    finally:
        lock.close()


# ------------------------------------------------------------- the simulator
def sim_env(core=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("GOOST_SIM")}
    if core is not None:
        cs = sorted(os.sched_getaffinity(0))
        e["GOOST_SIM_CPU"] = str(cs[core % len(cs)])
    return e


class Server:
    """One `sim serve` process: runs single executions on demand."""

    def __init__(self, binary, pid, core=None, verbose_to=None):
        self.err = verbose_to
        self.p = subprocess.Popen([binary, "serve", pid], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=verbose_to or subprocess.DEVNULL, env=sim_env(core), text=True)

    def ask(self, line):
        self.p.stdin.write(line + "\n")
        self.p.stdin.flush()
        out = self.p.stdout.readline()
        if not out:
            die("the simulator ended unexpectedly")
        return json.loads(out)

    def seed(self, seed, idx, v=False):
        return self.ask("%sS %d %d" % ("v" if v else "", seed, idx))

    def trace(self, ch, v=False):
        return self.ask("%sT %s" % ("v" if v else "", " ".join(
            "%d %s" % (len(s), " ".join(map(str, s))) for s in ch)))

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def explore(binary, pid, seed, runs, limit_s, workers):
    """runs indices 0..runs-1 striped over the workers; stops early at a violation"""
    tmp = tempfile.mkdtemp(prefix="goost-sim-")
    procs = []
    t0 = time.time()
    for w in range(workers):
        n = (runs - w + workers - 1) // workers
        hf = os.path.join(tmp, "h%d" % w)
        of = open(os.path.join(tmp, "o%d" % w), "w+")
        p = subprocess.Popen([binary, "batch", pid, str(seed), str(w), str(n), str(workers), hf, "%.1f" % limit_s],
                             stdout=of, stderr=subprocess.DEVNULL, env=sim_env(w))
        procs.append((p, of, hf))
    total = dict(runs=0, inconclusive=0, switches=0, steps=0, ticks=0, max_tasks=0, faults={}, probes={})
    bad, records = [], []
    pending = list(procs)
    stop_at = None
    while pending:
        for t in list(pending):
            p, of, hf = t
            if p.poll() is None:
                continue
            pending.remove(t)
            of.seek(0)
            txt = of.read()
            of.close()
            if p.returncode == 0 and txt:
                d = json.loads(txt)
                for k in ("runs", "inconclusive", "switches", "steps", "ticks"):
                    total[k] += d[k]
                total["max_tasks"] = max(total["max_tasks"], d["max_tasks"])
                for g in ("faults", "probes"):
                    for k, v in d[g].items():
                        total[g][k] = total[g].get(k, 0) + v
                if d["bad"]:
                    bad.append((d["bad_index"], d["last"]))
                    if stop_at is None:
                        stop_at = time.time() + 3     # let the others find something too
                elif d["inconclusive"] and d["last"]["status"] == 3:
                    total["inconclusive_why"] = d["last"]["msg"]
            elif p.returncode not in (-15, -9):
                for q, _, _ in pending:
                    q.kill()
                die("simulator worker failed with status %s" % p.returncode)
            if os.path.exists(hf):
                a = array.array("Q")
                b = read(hf)
                a.frombytes(b[:len(b) // 48 * 48])
                records.append(a)
                os.unlink(hf)
        if pending:
            time.sleep(0.02)
            if stop_at and time.time() > stop_at:
                for q, _, _ in pending:
                    q.terminate()
                stop_at = float("inf")
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    total["wall"] = time.time() - t0
    return total, sorted(bad, key=lambda b: b[0]), records


# -------------------------------------------------------------- minimisation
def same(a, b):
    return a["status"] == 2 and b["status"] == 2 and a["cls"] == b["cls"]


def trim(ch):
    ch = [list(s) for s in ch]
    for s in ch:
        while s and s[-1] == 0:
            s.pop()
    return ch


def size(ch):
    return (sum(len(s) for s in ch), sum(1 for s in ch for v in s if v), sum(v.bit_length() for s in ch for v in s))


def shrink(srv, ch, want, deadline):
    """Greedy minimisation of the four choice streams; 0 is the simplest choice.
    Keeps a candidate only if the same class of violation persists."""
    best = trim(ch)
    tried = 0

    def attempt(c):
        nonlocal best, tried
        c = trim(c)
        if size(c) >= size(best) or time.time() > deadline:
            return False
        tried += 1
        r = srv.trace(c)
        if r["status"] == 2 and r["cls"] == want:
            best = c
            return True
        return False

    def swap(i, s):
        c = list(best)
        c[i] = s
        return c

    order = [1, 2, 3, 0]          # schedule, faults, data, operations
    progress = True
    while progress and time.time() < deadline:
        progress = False
        start = size(best)
        for i in order:
            attempt(swap(i, []))
            n = len(best[i])       # cut the tail
            cut = n // 2
            while cut >= 1 and time.time() < deadline:
                if len(best[i]) < cut or not attempt(swap(i, best[i][:len(best[i]) - cut])):
                    cut //= 2
            step = max(1, len(best[i]) // 2)
            while time.time() < deadline:        # remove or zero chunks
                j = 0
                while j < len(best[i]) and time.time() < deadline:
                    s = best[i]
                    if attempt(swap(i, s[:j] + s[j + step:])):
                        continue
                    if any(s[j:j + step]):
                        attempt(swap(i, s[:j] + [0] * len(s[j:j + step]) + s[j + step:]))
                    j += step
                if step == 1:
                    break
                step = max(1, step // 2)
            for j in range(len(best[i])):        # smaller values
                if time.time() > deadline:
                    break
                if j >= len(best[i]) or not best[i][j]:
                    continue
                v = best[i][j]
                for w in (0, 1, v >> 32, v >> 8, v // 2, v - 1):
                    if w < v and j < len(best[i]) and attempt(swap(i, best[i][:j] + [w] + best[i][j + 1:])):
                        break
        progress = size(best) < start
    return best, tried


def event_log(binary, pid, ch=None, seed=None, idx=None, limit=400):
    f = tempfile.TemporaryFile("w+", errors="replace")
    s = Server(binary, pid, verbose_to=f)
    r = s.trace(ch, v=True) if ch is not None else s.seed(seed, idx, v=True)
    s.close()
    f.seek(0)
    lines = f.read().splitlines()
    return r, lines[:limit] + (["... %d more" % (len(lines) - limit)] if len(lines) > limit else [])


def gate(binary, pid, seed, idx, found):
    """A violation counts only if it repeats exactly. Returns the replay record or None."""
    s1, s2 = Server(binary, pid, 0), Server(binary, pid, CORES - 1)
    a, b = s1.seed(seed, idx), s2.seed(seed, idx)
    s2.close()
    key = lambda r: (r["status"], r["cls"], r["hist"], r["sched"], r["steps"])
    if key(a) != key(b) or key(a) != key(found) or a["status"] != 2:
        s1.close()
        return None, "the same seed gave different executions"
    r = s1.trace(a["choices"])
    if not same(r, a):
        s1.close()
        return None, "the recorded choices did not reproduce the violation"
    budget = 6 if a["cls"] == "hang" else SHRINK_S
    ch, tried = shrink(s1, a["choices"], a["cls"], time.time() + budget)
    s1.close()
    s3, s4 = Server(binary, pid, 1), Server(binary, pid)
    c, d = s3.trace(ch), s4.trace(ch)
    s3.close()
    s4.close()
    if key(c) != key(d) or not same(c, a):
        return None, "the minimised trace did not replay"
    _, lines = event_log(binary, pid, ch)
    return {"property": pid, "violation_class": c["cls"], "message": c["msg"], "seed": seed, "run": idx,
            "hist": c["hist"], "sched": c["sched"], "steps": c["steps"],
            "original_choices": [len(x) for x in a["choices"]],
            "minimised_choices": [len(x) for x in ch], "shrink_attempts": tried,
            "streams": ["operations", "schedule", "faults", "data"], "choices": ch,
            "events": lines}, None


# ------------------------------------------------------------------ evidence
COMPONENTS = {
    "real": "all of /repo/goost (gost89, kuznyechik, magma), compiled from the working tree with memory-access instrumentation; libstdc++ containers, shared_ptr, streams and exceptions",
    "simulated": "caller threads and their scheduling, mutexes/condition variables/once/static guards, heap (operator new), task stacks, clocks and sleeps, the byte sources, sinks, channel and append-only device, key and sbox providers, user-written streams and blocks, key containers",
    "oracle": "sim/ref.cpp: an independent table-driven model of the ciphers, CFB/ECB/CTR and MACs, self-tested against the published vectors at start-up",
}
ASSUMPTIONS = [
    "the standard library and compiler are trusted; instrumented at -O1 with clang 18, -O2 with g++ ships",
    "sequentially consistent interleavings of instrumented accesses; weak-memory effects are covered by the happens-before race check, not by reordering",
    "user-written collaborators keep the interfaces' contracts (a source never returns more than asked and nothing only at its end)",
    "sampled, not enumerated: a clean batch is evidence, not proof",
]


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                out.append(l[len("known: "):])
    return out


def run_check(pid, tier):
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    ev_path = os.path.join(ev_dir, pid + ".json")
    binary = build()
    t_built = time.time()
    if tier == "quick":
        runs, cap = QUICK_RUNS[pid], QUICK_CAP_S
    else:
        runs, cap = 1 << 40, THOROUGH_S
    total, bad, records = explore(binary, pid, seed, runs, cap, CORES)

    record, why, errors = None, None, []
    for idx, found in bad[:4]:
        record, why = gate(binary, pid, seed, idx, found)
        if record:
            break
        errors.append("run %d (%s): %s" % (idx, found["cls"], why))

    hist, sched, both = set(), set(), set()
    for a in records:
        for i in range(0, len(a), 6):
            hist.add(a[i + 1])
            if a[i + 3] & 0xffffffff:
                sched.add(a[i + 2])
            if a[i + 3] or a[i + 5] > 1:
                both.add(a[i + 4])
    n = total["runs"]
    # a sample of the same seeds again, in fresh processes on other cores
    mism = checked = 0
    want = {}
    for a in records:
        for i in range(0, len(a), 6):
            if a[i] < 48:
                want[a[i]] = (a[i + 1], a[i + 2])
    if not bad:
        s = Server(binary, pid, CORES // 2)
        for i in sorted(want):
            r = s.seed(seed, i)
            checked += 1
            if (int(r["hist"], 16), int(r["sched"], 16)) != want[i]:
                mism += 1
        s.close()
    samples = []
    _, lines = event_log(binary, pid, seed=seed, idx=min(2, max(0, n - 1)), limit=60)
    samples.append({"seed": seed, "run": 2, "events": lines})
    if record:
        samples.append({"violation": record["message"], "class": record["violation_class"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(both),
            "rule": "one evaluation is one simulated execution, whose operations, data, schedule and faults are all "
                    "drawn from (VERIF_SEED, property, run number); it is non-trivial if a fault fired, a context switch "
                    "happened or the code under test was entered at least twice, and distinct if its sequence of operation, "
                    "schedule and fault choices is new (data choices such as key bits and message contents do not count)",
            "samples": samples,
            "runs_per_hour": int(n / max(total["wall"], 1e-9) * 3600),
            "exploration_wall_s": round(total["wall"], 2),
            "workers": CORES,
            "simulated_ticks": total["ticks"],
            "simulated_steps": total["steps"],
            "context_switches": total["switches"],
            "max_parallel_tasks": total["max_tasks"],
            "distinct_histories": len(hist),
            "distinct_interleavings": len(sched),
            "interleaving_measure": "distinct hashes of the sequence of (task switched to, global step number), runs with a switch only",
            "faults_fired": {k: v for k, v in total["faults"].items() if v},
            "rare_conditions_reached": {k: v for k, v in total["probes"].items() if v and k != "runs"},
            "inconclusive_runs": total["inconclusive"],
            "determinism_sample": {"reruns": checked, "mismatches": mism},
            "components": COMPONENTS,
            "build_s": round(t_built - t_start, 2),
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t_start, 2),
        "violations": 1 if record else 0,
    }
    with open(ev_path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(ev_path + ".tmp", ev_path)

    for k in known_findings(pid):
        print("KNOWN-FINDING: " + k)
    if record:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%d-%d.json" % (pid, seed, record["run"]))
        with open(path, "w") as f:
            json.dump(record, f, indent=1)
        print("%s: %s" % (record["violation_class"], record["message"]))
        print("seed %d run %d, minimised from %s to %s choices (operations, schedule, faults, data)" % (
            seed, record["run"], record["original_choices"], record["minimised_choices"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if bad:
        die("a violation did not pass the reproduction gate: " + "; ".join(errors))
    if n == 0 or total["inconclusive"] * 2 > n:
        die("too few conclusive runs (%d of %d inconclusive: %s)" % (
            total["inconclusive"], n, total.get("inconclusive_why", "?")))
    print("%s held on %d simulated executions (%d distinct and non-trivial, %d interleavings) in %.0f s" % (
        pid, n, len(both), len(sched), time.time() - t_start))
    return 0


def replay(path, verbose):
    rec = json.load(open(path))
    binary = build()
    r, lines = event_log(binary, rec["property"], rec["choices"], limit=100000)
    if verbose:
        print("\n".join(lines))
    print("%s: %s" % (r["cls"] or "no violation", r["msg"]))
    exact = (r["cls"], r["hist"], r["sched"]) == (rec["violation_class"], rec["hist"], rec["sched"])
    print("exactly as recorded" if exact else "differs from the recorded execution")
    if r["status"] == 2:
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    return 0


def determinism(ids, runs, seeds):
    binary = build()
    worst = 0
    for pid in ids or sorted(QUICK_RUNS):
        mism = cnt = 0
        for seed in seeds:
            ref = None
            for workers in (8, 3, 1, 16):
                total, bad, recs = explore(binary, pid, seed, runs, 600, workers)
                m = {a[i]: (a[i + 1], a[i + 2], a[i + 3]) for a in recs for i in range(0, len(a), 6)}
                if ref is None:
                    ref = m
                else:
                    cnt += len(m)
                    mism += sum(1 for k in m if ref.get(k) != m[k]) + abs(len(ref) - len(m))
        print("%s: %d re-runs, %d mismatches" % (pid, cnt, mism))
        sys.stdout.flush()
        worst = max(worst, mism)
    return 1 if worst else 0


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    sp.add_parser("setup")
    p = sp.add_parser("run")
    p.add_argument("id")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    p = sp.add_parser("replay")
    p.add_argument("file")
    p.add_argument("-v", action="store_true")
    p = sp.add_parser("trace")
    p.add_argument("id")
    p.add_argument("seed", type=int)
    p.add_argument("index", type=int)
    p = sp.add_parser("determinism")
    p.add_argument("ids", nargs="*")
    p.add_argument("--runs", type=int, default=300)
    p.add_argument("--seeds", default="1,2,3")
    a = ap.parse_args()
    if a.cmd == "setup":
        binary = build()
        r = subprocess.run([binary, "list"], stdout=subprocess.PIPE, text=True, env=sim_env())
        ids = [l.split()[0] for l in r.stdout.splitlines()]
        if r.returncode or sorted(ids) != sorted(QUICK_RUNS):
            die("scenario list and budget disagree")
        print("built %s with %d scenarios" % (binary, len(ids)))
        return 0
    if a.cmd == "run":
        if a.id not in QUICK_RUNS:
            die("unknown property " + a.id)
        return run_check(a.id, a.tier)
    if a.cmd == "replay":
        return replay(a.file, a.v)
    if a.cmd == "trace":
        r, lines = event_log(build(), a.id, seed=a.seed, idx=a.index, limit=100000)
        print("\n".join(lines))
        r.pop("choices", None)
        print(r)
        return 0
    return determinism(a.ids, a.runs, [int(x) for x in a.seeds.split(",")])


if __name__ == "__main__":
    sys.exit(main())
