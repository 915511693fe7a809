#!/usr/bin/env python3
"""Driver of the simulation checks: builds from /repo's working tree, searches
seeds in parallel, gates, minimises and replays violations, writes evidence.

  check.py PROP [quick|thorough]     run the check of one property
  check.py --replay FILE             replay a recorded violation, with trace
  check.py --build-all               compile everything (setup)
Exit: 0 property held, 1 violation (VIOLATION line), 2 error of the check."""
import array, glob, hashlib, json, mmap, os, signal, struct, subprocess, sys, time, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CISTA_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
EVID = os.environ.get("VERIF_EVID", os.path.join(V, "evidence"))
sys.path.insert(0, os.path.join(V, "bin"))
from props_table import PROPS, BINARIES

NW = min(8, os.cpu_count() or 1)
O_MODEL, O_MEM, O_IO, O_RACE, O_ALL = 1, 2, 4, 8, 255

def err(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)

# ------------------------------------------------------------------ building
def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, "rb").read()); continue
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh: h.update(fh.read())
    return h.hexdigest()

def build(names):
    os.makedirs(BUILD, exist_ok=True)
    inc = os.path.join(REPO, "include")
    ih = tree_hash([inc, os.path.join(REPO, "tools/wyhash"), os.path.join(REPO, "tools/xxh3")])
    wrap = ["-Wl,--wrap=" + w for w in open(os.path.join(V, "sim/wrap.txt")).read().split()]
    jobs, outs = [], {}
    for n in names:
        b = BINARIES[n]
        srcs = [os.path.join(V, s) for s in b["src"]]
        hdrs = [os.path.join(V, "sim"), os.path.join(V, "props")]
        key = hashlib.sha256((ih + tree_hash(srcs) + tree_hash([p for d in hdrs for p in sorted(glob.glob(d + "/*.h"))]) +
              tree_hash([os.path.join(V, "sim/sim.cpp")]) + json.dumps(b, sort_keys=True) + V).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, f"{n}-{key}")
        outs[n] = out
        if os.path.exists(out): continue
        for old in glob.glob(os.path.join(BUILD, n + "-*")):
            try: os.unlink(old)
            except OSError: pass
        jobs.append((n, b, srcs, out))
    procs = []
    for n, b, srcs, out in jobs:
        common = [f.replace("-Itools", "-I" + REPO + "/tools").replace("sim/cas.h", os.path.join(V, "sim/cas.h")) for f in b["flags"]] + ["-I" + inc, "-U_FORTIFY_SOURCE", "-g1", "-w"]
        objs, cmds = [], []
        for i, s in enumerate(srcs):
            o = f"{out}.{i}.o"; objs.append(o)
            # the simulator itself is not instrumented by its own scheduler
            fl = common if os.path.basename(os.path.dirname(s)) != "sim" or "-fsanitize=thread" not in common else [
                f for f in common if "sanitize" not in f]
            cmds.append([b["cxx"]] + fl + ["-c", s, "-o", o])
        link = [b["cxx"]] + b.get("link", b["flags"]) + objs + (wrap if b.get("wrap", True) else []) + b.get("libs", []) + ["-o", out + ".tmp"]
        ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in cmds]
        procs.append((n, ps, link, objs, out))
    for n, ps, link, objs, out in procs:
        for p in ps:
            o, _ = p.communicate()
            if p.returncode != 0:
                err(f"build of {n} failed:\n" + (o or "")[-4000:])
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: err(f"link of {n} failed:\n" + r.stdout[-3000:])
        for o in objs: os.unlink(o)
        os.rename(out + ".tmp", out)
    return outs

# ------------------------------------------------------------------ shared area
U64 = ["magic","status","cur_seed","runs","ops","events","nontrivial_runs","sim_ns","faults_armed",
       "run_hash","run_events","cur_op","oracle","all_hash","n_states","n_paths"]
KC, KS = 160, 1 << 17
def read_shared(path, sets=False):
    with open(path, "rb") as f: d = f.read() if sets else f.read(128 + 96 + 4096 + 64 + KC * 56)
    r = dict(zip(U64, struct.unpack_from("<16Q", d, 0)))
    cs = lambda o, n: d[o:o+n].split(b"\0")[0].decode("utf8", "replace")
    r["sig"], r["msg"], r["harness"] = cs(128, 96), cs(224, 4096), cs(4320, 64)
    r["counters"] = {}
    o = 4384
    for i in range(KC):
        nm = cs(o + i * 56, 48)
        if nm: r["counters"][nm] = struct.unpack_from("<Q", d, o + i * 56 + 48)[0]
    if sets:
        o += KC * 56
        for k in ("states", "paths"):
            a = array.array("Q"); a.frombytes(d[o:o + 8 * KS]); o += 8 * KS
            r[k] = set(a); r[k].discard(0)
    return r

_noaslr = None
def base_cmd():
    global _noaslr
    if _noaslr is None:
        try:
            _noaslr = ["setarch", "-R"] if subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0 else []
        except OSError: _noaslr = []
    return _noaslr

class Work:
    def __init__(self):
        self.dir = os.path.join(BUILD, f"work-{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
    def path(self, n): return os.path.join(self.dir, n)
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

def run_once(work, binary, args, timeout, tag="r", stdout=subprocess.DEVNULL, env=None):
    out = work.path(f"{tag}.shm")
    if os.path.exists(out): os.unlink(out)
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(base_cmd() + [binary] + args + ["--out=" + out], stdout=stdout,
                           stderr=subprocess.DEVNULL if stdout == subprocess.DEVNULL else subprocess.STDOUT, timeout=timeout, env=e, text=True)
        rc, txt = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, txt = -99, None
    r = read_shared(out)
    r["rc"], r["stdout"] = rc, txt
    if r["status"] not in (1, 2):
        r["status"], r["sig"], r["msg"], r["oracle"] = 2, "died", f"process ended with code {rc}", O_ALL
    return r

def known_findings(prop):
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=" + prop + " "):
                res.append(l)
    return res

# ------------------------------------------------------------------ one check
def main():
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    if sys.argv[1] == "--build-all":
        build(sorted(BINARIES)); return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    outs = build(sorted({t["bin"] for t in cfg["targets"]}))
    t_build = time.time() - t0
    budget = float(os.environ.get("VERIF_BUDGET", cfg.get("thorough_s" if tier == "thorough" else "quick_s", 900 if tier == "thorough" else 40)))
    work = Work()
    try:
        return search(prop, tier, seed, cfg, outs, budget, work, t0, t_build)
    finally:
        work.close()

def search(prop, tier, seed, cfg, outs, budget, work, t0, t_build):
    tnum = 1 if tier == "thorough" else 0
    agg = dict(runs=0, ops=0, events=0, nontrivial_runs=0, sim_ns=0, faults_armed=0)
    counters, states, paths, per_target = {}, set(), set(), {}
    violation = None
    ungated = []
    selftest = 0
    total_w = sum(t.get("weight", 1) for t in cfg["targets"])
    base = 1 + (seed * 1000003 + (500009 if tnum else 0)) * 1000000
    t_search = time.time()
    for ti, t in enumerate(cfg["targets"]):
        binary = outs[t["bin"]]
        args = [f"--mask={t.get('mask', O_ALL)}", f"--tier={tnum}"] + ([f"--harness={t['harness']}"] if "harness" in t else [])
        # determinism self test: the same seeds in two fresh processes
        st = []
        for k in range(2):
            st.append(subprocess.Popen(base_cmd() + [binary, "run", f"--start={base + 900000}", "--count=12", "--out=" + work.path(f"st{k}.shm")] + args,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        for p in st: p.wait()
        a, b = (read_shared(work.path(f"st{k}.shm")) for k in range(2))
        if (a["all_hash"], a["run_hash"], a["runs"], a["status"]) != (b["all_hash"], b["run_hash"], b["runs"], b["status"]):
            print(f"note: determinism self test differs for {t['bin']}: {a['runs']},{a['sig']} vs {b['runs']},{b['sig']}")
            ungated.append(("selftest", a["sig"] or b["sig"]))
        selftest += a["runs"]
        slot = budget * t.get("weight", 1) / total_w
        end = time.time() + slot
        done_files = []
        def start(w, s, k):
            out = work.path(f"t{ti}w{w}-{k}.shm")
            left = max(1, int(end - time.time() + 0.5))
            p = subprocess.Popen(base_cmd() + [binary, "run", f"--start={s}", f"--stride={NW}", f"--time={left}", "--out=" + out] + args,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            done_files.append(out)
            return dict(p=p, out=out, w=w, k=k)
        live = [start(w, base + ti * 100000000 + w, 0) for w in range(NW)]
        cands, restarts = [], 0
        while live:
            time.sleep(0.05)
            for x in list(live):
                hard = time.time() > end + 60
                if x["p"].poll() is None and not hard: continue
                if x["p"].poll() is None:
                    x["p"].kill(); x["p"].wait()
                live.remove(x)
                r = read_shared(x["out"])
                if r["status"] == 1: continue
                if r["status"] != 2: r["sig"], r["msg"], r["oracle"] = "died", f"exit code {x['p'].returncode}", O_ALL
                cands.append((r["cur_seed"], r["sig"], r["msg"]))
            if cands and violation is None:
                s, sig, msg = cands.pop(0)
                v = handle(prop, t, binary, args, s, sig, msg, work)
                if v is None:
                    ungated.append((s, sig))
                    restarts += 1
                    if time.time() < end and restarts < 12:
                        live.append(start(s % NW, s + NW, 100 + restarts))
                else:
                    violation = v
                    for x in live:
                        x["p"].kill(); x["p"].wait()
                    live = []
        tr = 0
        for f in done_files:
            if not os.path.exists(f): continue
            r = read_shared(f, sets=True)
            for k in agg: agg[k] += r[k]
            tr += r["runs"]
            for k, n in r["counters"].items(): counters[k] = counters.get(k, 0) + n
            states |= r["states"]; paths |= r["paths"]
            os.unlink(f)
        per_target[t["bin"] + ("/" + t["harness"] if "harness" in t else "")] = tr
        if violation: break
    wall = time.time() - t0
    search_s = max(0.01, time.time() - t_search)
    # samples: two plans of this run
    samples = []
    for t in cfg["targets"][:3]:
        o = subprocess.run([outs[t["bin"]], "gen", str(base + 3), f"--tier={tnum}"] + ([f"--harness={t['harness']}"] if "harness" in t else []), capture_output=True, text=True)
        samples.append(o.stdout[:1500])
    faults = {k[6:]: n for k, n in counters.items() if k.startswith("fault:")}
    known = known_findings(prop)
    cov = dict(evaluations=agg["runs"], distinct_nontrivial=len(paths),
        rule=cfg["rule"] + " A run counts as non-trivial when at least one fault fired or a restart/crash/context switch happened in it; distinct = different event-log hash (operations, outcomes, allocations, I/O and schedule events).",
        samples=samples, simulated_runs_per_hour=int(agg["runs"] / search_s * 3600), seeds_per_hour=int(agg["runs"] / search_s * 3600),
        operations=agg["ops"], io_events=agg["events"], nontrivial_runs=agg["nontrivial_runs"],
        simulated_time_s=round(agg["sim_ns"] / 1e9, 3), faults_planned=agg["faults_armed"], faults_fired=faults,
        distinct_states=len(states), states_measure=cfg.get("states", "hash of the abstract state the harness reports after each operation"),
        other_counters={k: n for k, n in counters.items() if not k.startswith("fault:")},
        runs_per_target=per_target, real_components=cfg.get("real", "all of /repo/include/cista that the harness instantiates, compiled from the working tree"),
        stub_components=cfg.get("stub", "heap (malloc family, operator new)"),
        determinism_selftest_runs=selftest, ungated_candidates=len(ungated), build_s=round(t_build, 1), search_s=round(search_s, 1), workers=NW,
        first_seed=base)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=cfg.get("assumptions", []),
              wall_s=round(wall, 2), violations=1 if violation else 0)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in known: print(k)
    if violation:
        print(f"violation [{violation['sig']}] {violation['msg'][:700]}")
        print(f"VIOLATION property={prop} replay={violation['path']}", flush=True)
        return 1
    if ungated:
        err(f"{len(ungated)} candidate violations did not reproduce exactly: {ungated[:5]}")
    if agg["runs"] == 0: err("no run completed")
    print(f"{prop} {tier}: {agg['runs']} runs, {len(paths)} distinct non-trivial, {len(states)} states, faults {faults}, {wall:.1f}s: held")
    return 0

def handle(prop, t, binary, args, s, sig, msg, work):
    margs = [a for a in args if a.startswith("--mask")]
    g = subprocess.run(base_cmd() + [binary, "gen", str(s)] + args, capture_output=True, text=True)
    plan = work.path("cand.plan")
    open(plan, "w").write(g.stdout)
    r = [run_once(work, binary, ["replay", plan] + margs, 120, "g%d" % k) for k in range(2)]
    same = all(x["status"] == 2 for x in r) and r[0]["sig"] == r[1]["sig"] and (r[0]["run_hash"] == r[1]["run_hash"] or r[0]["sig"] == "hang")
    if not same:
        print(f"note: seed {s} [{sig}] {msg[:200]}: not reproduced exactly in fresh processes: "
              f"{[(x['status'], x['sig'], x['run_hash']) for x in r]}", flush=True)
        return None
    sig = r[0]["sig"]
    mini = work.path("mini.plan")
    subprocess.run(base_cmd() + [binary, "minimise", plan, mini, "--sig=" + sig, "--time=25", "--hang=5"] + margs,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    best = plan
    if os.path.exists(mini):
        m = [run_once(work, binary, ["replay", mini] + margs, 120, "m%d" % k) for k in range(2)]
        if all(x["status"] == 2 and x["sig"] == sig for x in m) and (m[0]["run_hash"] == m[1]["run_hash"] or sig == "hang"):
            best, r = mini, m
    tr = run_once(work, binary, ["replay", best, "--trace"] + margs, 120, "tr", stdout=subprocess.PIPE)
    d = os.path.join(EVID, "replays"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{s}.plan")
    head = [f"# property {prop}", f"# binary {t['bin']}", f"# args {' '.join(margs)}", f"# seed {s}", f"# sig {sig}", f"# hash {r[0]['run_hash']}",
            "# violation: " + r[0]["msg"].replace("\n", "\n#   ")[:1500]]
    tail = ["# trace:"] + ["#   " + l for l in (tr["stdout"] or "").splitlines()[-400:]]
    open(path, "w").write("\n".join(head) + "\n" + open(best).read() + "\n".join(tail) + "\n")
    return dict(sig=sig, msg=r[0]["msg"], path=path)

def replay(path):
    meta = {}
    for l in open(path):
        if l.startswith("# ") and len(l.split(None, 2)) == 3:
            k, v = l[2:].split(None, 1); meta.setdefault(k, v.strip())
    outs = build([meta["binary"]])
    work = Work()
    try:
        r = run_once(work, outs[meta["binary"]], ["replay", path, "--trace"] + meta.get("args", "").split(), 300, "rp",
                     stdout=subprocess.PIPE, env={"ASAN_OPTIONS": "symbolize=1"})
        print(r["stdout"])
        print(f"status={r['status']} sig={r['sig']} hash={r['run_hash']} (recorded: {meta.get('sig')} {meta.get('hash')})")
        if r["status"] == 2:
            print(f"VIOLATION property={meta['property']} replay={path}")
            return 1
        return 0
    finally:
        work.close()

if __name__ == "__main__":
    sys.exit(main())
