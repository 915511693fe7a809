#!/usr/bin/env python3
"""Development tool: mutation survey.  mutate.py FILE BIN[/HARNESS][,BIN2..] [count] [seconds] [jobs] [seed]
Small textual mutants of one library file, each searched for `seconds` on one core
per target; prints the survivors (candidates for gaps in the checks)."""
import os, random, re, subprocess, sys, glob, shutil, struct, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props_table import BINARIES
REPO = os.environ.get("CISTA_REPO", "/tmp/drepo")
OPS = [
 (r"(?<![<>=!\-])<(?![<=>])(?=\s)", ["<=", ">="]), (r"(?<=\s)<=(?=\s)", ["<", ">"]), (r"(?<=\s)>(?=\s)(?!=)", [">=", "<="]), (r"(?<=\s)>=(?=\s)", [">", "<"]),
 (r"(?<=\s)==(?=\s)", ["!="]), (r"(?<=\s)!=(?=\s)", ["=="]), (r"(?<=\s)&&(?=\s)", ["||"]), (r"(?<=\s)\|\|(?=\s)", ["&&"]),
 (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"(?<=\s)\*(?=\s)", ["+"]),
 (r"(?<=\s)&(?=\s)", ["|"]), (r"(?<=\s)\|(?=\s)", ["&"]), (r"<<(?=\s)", [">>"]), (r"(?<=\s)>>(?=\s)", ["<<"]), (r"\|=", ["&=", "="]), (r"&=", ["|="]),
 (r"\b0U?\b", ["1"]), (r"\b1U?\b", ["0", "2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"\bif \((?!constexpr)", ["if (!!!(", ]), (r"!(?=[a-z(])", [""]), (r"\bbegin\(\)", ["end()"]), (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]),
 (r"\bsizeof\(T\)", ["1"]), (r"\bmemmove\b", ["memcpy"]), (r"\bnullptr\b", None), (r"\breturn;", ["; "]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]),
]
def mutants(path):
    L = open(path).read().split("\n"); res = []
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(("//", "#", "template", "using", "static_assert", "*", "/*", "namespace", "struct", "class", "typename", "enum", "case", "CISTA_UNION")): continue
        if "static_assert" in s or "std::enable_if" in s or "operator" in s and "{" not in s: pass
        for pat, reps in OPS:
            if reps is None: continue
            for m in re.finditer(pat, l):
                if l[:m.start()].count('"') % 2: continue
                if pat.startswith(r"\bif"):
                    # negate a one-line condition
                    k, d = m.end(), 1
                    while k < len(l) and d: d += (l[k] == "(") - (l[k] == ")"); k += 1
                    if d: continue
                    res.append((i, l[:m.start()] + "if (!(" + l[m.end():k - 1] + "))" + l[k:])); continue
                for r in reps: res.append((i, l[:m.start()] + r + l[m.end():]))
        # statement deletion
        if s.endswith(";") and not s.startswith(("return", "}", "throw", "auto", "const", "T ", "using", "static", "break", "continue", "friend", "typedef", ":", ",", ".", "+", "-", "?")) and (i == 0 or L[i-1].strip().endswith((";", "{", "}", ")", ":")) or L[i-1].strip() == ""):
            if l.count("(") == l.count(")"): res.append((i, re.match(r"\s*", l).group() + ";"))
    return L, res
def main():
    f, targets = sys.argv[1], sys.argv[2].split(",")
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 60
    secs = int(sys.argv[4]) if len(sys.argv) > 4 else 10
    jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 7
    rnd = random.Random(int(sys.argv[6]) if len(sys.argv) > 6 else 1)
    L, ms = mutants(f"{REPO}/include/cista/{f}")
    lo, hi = map(int, os.environ.get("LINES", "0-999999").split("-"))
    ms = [m for m in ms if lo <= m[0] + 1 <= hi]
    rnd.shuffle(ms); ms = ms[:n]
    wrap = ["-Wl,--wrap=" + w for w in open(V + "/sim/wrap.txt").read().split()]
    os.makedirs("/tmp/mut", exist_ok=True)
    tag = f.replace("/", "_").replace(".h", "")
    lock = threading.Lock(); it = iter(ms); stat = dict(killed=0, survived=0, nocompile=0); surv = []
    simo = {}
    for san in (0, 1):
        o = f"/tmp/mut/sim-{tag}-{san}.o"; simo[san] = o
        fl = ["-std=c++17", "-O1", "-g1", "-w", "-U_FORTIFY_SOURCE"] + (["-fsanitize=address"] if san else [])
        subprocess.run(["clang++"] + fl + ["-c", V + "/sim/sim.cpp", "-o", o], check=True)
    if True:
        subprocess.run(["clang++", "-std=c++17", "-O1", "-g1", "-w", "-c", V + "/sim/tsanrt.cpp", "-o", f"/tmp/mut/tsan-{tag}.o"], check=True)
    def worker(w):
        d = f"/tmp/mut/{tag}-{w}"; shutil.rmtree(d, ignore_errors=True); shutil.copytree(REPO + "/include", d + "/include")
        while True:
            with lock: m = next(it, None)
            if m is None: break
            i, nl = m
            T = list(L); T[i] = nl
            open(f"{d}/include/cista/{f}", "w").write("\n".join(T))
            st = "survived"; sig = ""
            built = None
            for t in targets:
                bn, _, h = t.partition("/"); b = BINARIES[bn]
                tsan = "-fsanitize=thread" in b["flags"]
                fl = [x.replace("-Itools", "-I" + REPO + "/tools").replace("sim/cas.h", V + "/sim/cas.h") for x in b["flags"]]
                objs, ok = [], True
                for k, s in enumerate(b["src"]):
                    if s.startswith("sim/") or bn == built: continue
                    o = f"{d}/{k}.o"
                    c = subprocess.run(["timeout", "300", "clang++"] + fl + ["-I" + d + "/include", "-U_FORTIFY_SOURCE", "-g0", "-w", "-c", f"{V}/{s}", "-o", o], capture_output=True)
                    objs.append(o)
                    if c.returncode: ok = False; break
                if not ok: st = "nocompile"; break
                if bn != built: objs += [simo[0 if tsan else 1]] + ([f"/tmp/mut/tsan-{tag}.o"] if tsan else [])
                c = None if bn == built else subprocess.run(["clang++"] + b.get("link", b["flags"]) + objs + wrap + ["-o", d + "/x"], capture_output=True)
                built = bn
                if c and c.returncode: st = "nocompile"; break
                out = d + "/o.shm"
                if os.path.exists(out): os.unlink(out)
                try: subprocess.run(["setarch", "-R", d + "/x", "run", "--start=77", "--stride=8", f"--time={secs}", "--out=" + out, "--mask=255", "--tier=0"] + ([f"--harness={h}"] if h else []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs * 3 + 60)
                except subprocess.TimeoutExpired: st, sig = "killed", "timeout"; break
                stt = struct.unpack_from("<2Q", open(out, "rb").read(16))[1] if os.path.exists(out) else 3
                if stt != 1: st = "killed"; break
            with lock:
                stat[st] += 1
                if st == "survived":
                    surv.append(i); print(f"SURVIVED {f}:{i+1}\n  - {L[i].strip()}\n  + {nl.strip()}", flush=True)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print("DONE", f, stat, "of", len(ms), flush=True)
main()
