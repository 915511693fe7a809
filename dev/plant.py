#!/usr/bin/env python3
"""Development tool: confirm a planted bug in a scratch copy of /repo and keep it
under /verif/seeded/<id>/.   plant.py SPEC.py   (SPEC defines a list BUGS)
Each bug: id, prop, edits=[(file, old, new)], demo=C++ source, needs, breaks."""
import json, os, subprocess, sys, shutil
WT = os.environ.get("PLANT_WT", "/tmp/wt")
def sh(c, **k):
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    r.stdout = r.stdout.decode("utf-8", "replace")  # keep CR in diffs
    return r
def ensure():
    if not os.path.exists(WT): assert sh(f"cp -a /repo {WT} && rm -rf {WT}/_build").returncode == 0
    sh(f"cd {WT} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    for s in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + s).read().replace("/repo", WT).replace("/opt/vp/build.sh", WT + "-build.sh")
        if s == "test.sh": t = t.replace('python3 /opt/vp/results.py "$OUT" lines:', "cp ") 
        t = t.replace("results/results.txt\n", "results/results.txt\n")
        open(WT + "-" + s, "w").write(t)
    # the copy step at the end of test.sh
    t = open(WT + "-test.sh").read().rstrip()
    if t.splitlines()[-1].startswith("cp "): t += ' "$OUT"'
    open(WT + "-test.sh", "w").write(t + "\n")
DEMO = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Runs with the repository as the working directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
%s -std=%s -g -O1 %s -Iinclude "$here/demo.cpp" -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
"""
def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    return set(d["stable"])
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    ensure()
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        sh(f"cd {WT} && git checkout -q -- .")
        d = f"/tmp/plant/{b['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO % (b.get("cxx", "g++"), b.get("std", "c++17"), b.get("flags", "")))
        os.chmod(d + "/demo.sh", 0o755)
        c = sh(f"cd {WT} && {d}/demo.sh")
        if c.returncode != 0: print(b["id"], "REJECT: demo fails on clean tree", c.returncode, c.stdout[-1500:]); continue
        bad = False
        for f, o, n in b["edits"]:
            p = f"{WT}/{f}"; t = open(p, newline="").read()
            if "\r\n" in t: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
            if t.count(o) != 1: print(b["id"], "REJECT: edit matches", t.count(o), "times in", f, repr(o[:60])); bad = True; break
            open(p, "w", newline="").write(t.replace(o, n))
        if bad: continue
        diff = sh(f"cd {WT} && git diff").stdout
        open(d + "/patch.diff", "w", newline="").write(diff)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        # only original lines changed
        base = sh(f"cd {WT} && git rev-list --max-parents=0 HEAD").stdout.strip()
        mine = []
        for f in {e[0] for e in b["edits"]}:
            bl = sh(f"cd {WT} && git blame -l -s HEAD -- {f}").stdout.splitlines()
            cur, ln = None, 0
            for l in sh(f"cd {WT} && git diff -U0 -- {f}").stdout.splitlines():
                if l.startswith("@@"):
                    ln = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    if not bl[ln - 1].lstrip("^").startswith(base[:30]): mine.append(l)
                    ln += 1
        if mine: print(b["id"], "REJECT: changes lines my fixes added:", mine[:3]); continue
        c = sh(f"cd {WT} && {d}/demo.sh")
        if "error:" in c.stdout and "demo.cpp" in c.stdout: print(b["id"], "REJECT: demo does not compile with patch", c.stdout[-1500:]); continue
        if c.returncode == 0: print(b["id"], "REJECT: demo passes with the patch"); continue
        t = sh(f"bash {WT}-test.sh {WT}-out.txt")
        try: res = {l.split(" ", 1)[1].strip() for l in open(WT + "-out.txt") if l.startswith("PASS")}
        except Exception: res = set()
        miss = stable() - res
        if miss: print(b["id"], "REJECT: tests fail:", sorted(miss)[:4], len(miss), t.stdout[-800:] if len(miss) > 100 else ""); continue
        out = f"/verif/seeded/{b['id']}"; shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        chk = ""
        if not os.environ.get("NOCHECK"):
            for p in [b["prop"]] + b.get("also", []):
                k = sh(f"cd /verif && CISTA_REPO={WT} VERIF_EVID={WT}-ev VERIF_BUILD={WT}-vb python3 bin/check.py {p} quick")
                v = [l for l in k.stdout.splitlines() if l.startswith("violation [")]
                chk += f" {p}:{'CAUGHT' if k.returncode == 1 else 'missed' if k.returncode == 0 else 'ERR ' + k.stdout[-300:]} {v[0][:150] if v else ''}"
        print(b["id"], "KEPT", f"(demo rc {c.returncode})", chk, flush=True)
    sh(f"cd {WT} && git checkout -q -- .")
main()
