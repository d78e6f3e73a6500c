#!/usr/bin/env python3
"""plant.py [--nocheck] [--all] ID...  : confirm planted bugs (seeded/ID) and see which checks catch them.  Works on /repo and undoes the patch."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "41b17ab"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def stable_ok():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "build failed: " + b.stdout[-800:]
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable") or base.get("tests") or base.get("passed")
    names = names if isinstance(names, list) else list(names)
    p = set(json.load(open("/tmp/plant.json")).get("passed", []))
    miss = [n for n in names if n not in p]
    return "tests fail: %s" % miss[:3] if miss else ""
def demo(d):
    t = tempfile.mkdtemp(prefix="demo")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(os.path.join(d, f), t)
    try:
        r = subprocess.run(["bash", t + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout[-600:]
    finally:
        shutil.rmtree(t)
def blame_ok(d):
    n = orig = 0
    cur = None; line = 0
    for l in open(d + "/patch.diff", errors="replace", newline="\n"):
        if l.startswith("--- a/"): cur = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m: line = int(m.group(1)); continue
        if cur and l[:1] == "-" and not l.startswith("---"):
            n += 1
            b = sh("git -C /repo blame -s -L%d,%d HEAD -- %s" % (line, line, cur)).stdout
            if b.startswith("^" + BASE) or b.startswith(BASE): orig += 1
            line += 1
        elif cur and l[:1] == " ": line += 1
    return n, orig
def main():
    a = sys.argv[1:]
    nocheck = "--nocheck" in a; allc = "--all" in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    claims = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    if not os.path.exists("/repo/src/sat_skymap"): stable_ok()
    clean = {}
    sh("bash /opt/vp/build.sh")
    for i in ids: clean[i] = demo(V + "/seeded/" + i)
    for i in ids:
        d = V + "/seeded/" + i
        meta = json.load(open(d + "/meta.json"))
        res = []
        n, o = blame_ok(d)
        res.append("lines removed %d, original %d" % (n, o))
        if clean[i][0]: res.append("DEMO FAILS ON CLEAN TREE: " + clean[i][1])
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(i, "DOES NOT APPLY", r.stdout); continue
        try:
            t = stable_ok()
            if t: res.append("NOT STABLE: " + t)
            rc, out = demo(d)
            if rc == 0: res.append("DEMO PASSES WITH THE PATCH")
            if not nocheck:
                for p in (claims if allc else [meta["property"]]):
                    c = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s quick" % (V, p))
                    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION property=%s " % p)]
                    if c.returncode == 1 and v: res.append("CAUGHT by %s (%s)" % (p, ",".join(os.path.basename(x.split("replay=")[1]) for x in v)))
                    elif c.returncode == 0: res.append(("missed by " if allc else "MISSED by ") + p)
                    else: res.append("ERROR exit %d of %s: %s" % (c.returncode, p, c.stdout[-500:]))
        finally:
            sh("git -C /repo checkout -- .")
        print(i, "[%s]:" % meta["property"], "; ".join(x for x in res if not (allc and x.startswith("missed"))), flush=True)
    sh("bash /opt/vp/build.sh")
if __name__ == "__main__": main()
