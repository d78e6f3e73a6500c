"""Driver of fitssim: the FITS functions of HealpixC above a simulated disk, heap and clock (F01, F02)."""
import json, os, subprocess, time
from .common import *

FSIM = os.path.join(VERIF, "fsim")
KINDS = ("plain", "asan")
BUDGET = {"quick": (100000, 25), "thorough": (10 ** 8, 800)}
REAL = ["HealpixC/chealpix.c with its FITS functions, compiled through HealpixC/Makefile", "cfitsio (the installed static library)", "the C library's stdio above the simulated descriptors"]
STUB = ["the disk (files, capacity, read/write/seek/close/truncate/remove)", "the heap (which allocation fails, what fresh memory contains)", "the clock", "process death and restart", "network access of cfitsio (none)"]


def build():
    with Lock("lock-fsim"):
        key = tree_hash(REPO + "/HealpixC") + file_hash([FSIM + "/fitssim.cpp", FSIM + "/build.sh"])
        jobs = []
        for k in KINDS:
            if os.path.exists(os.path.join(BUILD, "fitssim_" + k)) and stamp_ok(os.path.join(BUILD, "fitssim_%s.stamp" % k), key):
                continue
            jobs.append((k, subprocess.Popen(["bash", FSIM + "/build.sh", k], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, REPO=REPO, BUILD=BUILD))))
        for k, p in jobs:
            out, _ = p.communicate()
            if p.returncode:
                raise CheckError("building /repo failed:\n" + out[-4000:])
            with open(os.path.join(BUILD, "fitssim_%s.stamp" % k), "w") as f:
                f.write(key)
    return [os.path.join(BUILD, "fitssim_" + k) for k in KINDS]


def replay_one(exe, path):
    r = subprocess.run([exe, "replay", path, "-q"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    h = [l.split()[1] for l in r.stdout.splitlines() if l.startswith("HASH ")]
    bad = [l[4:] for l in r.stdout.splitlines() if l.startswith("BAD ")]
    return r.returncode, (h or [""])[0], bad


def check(prop, tier, seed):
    exes = build()
    t_built = time.time()
    count, wall = BUDGET["thorough" if tier == "thorough" else "quick"]
    if os.environ.get("SIM_SECONDS"):
        wall = float(os.environ["SIM_SECONDS"])
    out = outdir(prop)
    n = max(2, NCPU)
    ps = [subprocess.Popen([exes[1 if w % 4 == 3 else 0], "batch", prop, str(seed), str(w * 10000000), str(count), str(wall), tier, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace") for w in range(n)]
    st, found = {"sigs": set(), "kinds": {}, "feats": {}, "samples": []}, []
    dig = 0
    for p in ps:
        o, e = p.communicate()
        if p.returncode:
            raise CheckError("simulator failed (%s): %s" % (p.returncode, (o + e)[-2000:]))
        lines = o.splitlines()
        for i, l in enumerate(lines):
            if l.startswith("FOUND "):
                _, cls, path = l.split(" ", 2)
                found.append((cls, path, ps.index(p), lines[i + 1].strip() if i + 1 < len(lines) else ""))
            elif l.startswith("STATS "):
                s = json.loads(l[6:])
                for k, v in s.items():
                    if k == "sigs":
                        st[k].update(v)
                    elif k in ("kinds", "feats"):
                        for a, b in v.items():
                            st[k][a] = st[k].get(a, 0) + b
                    elif k == "samples":
                        st[k] += v
                    elif k == "digest":
                        dig ^= int(v, 16)
                    elif k == "clock":
                        st[k] = max(st.get(k, 0), v)
                    else:
                        st[k] = st.get(k, 0) + v
    t_run = time.time() - t_built
    known, reported, errors, violations = known_findings(prop), set(), [], 0
    for cls, path, w, msg in found:
        exe = exes[1 if w % 4 == 3 else 0]
        if cls in reported:
            continue
        mini = os.path.join(out, "%s-%s.replay" % (prop, cls))
        sh([exe, "min", path, mini, "20" if tier == "quick" else "120", cls])
        picked = None
        for cand in (mini, path):
            if not os.path.exists(cand):
                continue
            a, b = replay_one(exe, cand), replay_one(exe, cand)
            if a[0] == 1 and b[0] == 1 and a[2] and a[2][0].split(" ")[0] == cls and b[2][0].split(" ")[0] == cls:
                picked = (cand, a, b)
                break
        if not picked:
            errors.append("%s (%s) does not replay" % (path, msg))
            continue
        cand, a, b = picked
        m = a[2][0]
        if any(k[0] in m for k in known):
            continue
        reported.add(cls)
        violations += 1
        say("VIOLATION property=%s replay=%s" % (prop, cand))
        say("  " + m[:700] + ("" if a[1] == b[1] else "   (hashes of two replays differ)"))
        say("  replay with: %s replay %s" % (exe, cand))
    for k in known:
        say("KNOWN-FINDING: property=%s %s" % (prop, k[1] or k[0]))
    faults = {k[7:]: v for k, v in st["kinds"].items() if k.startswith("fault: ")}
    faults.update({k: v for k, v in st["kinds"].items() if k.startswith("damage: ")})
    cov = {"evaluations": st.get("runs", 0), "distinct_nontrivial": len(st["sigs"]), "samples": st["samples"][:4], "scenarios": st.get("scenarios", 0), "seeds": {"master": seed, "workers": n},
           "runs_per_hour": int(st.get("runs", 0) / max(t_run, .01) * 3600), "seeds_per_hour": int(st.get("scenarios", 0) / max(t_run, .01) * 3600), "simulated_processes": st.get("processes", 0),
           "operations": {k: v for k, v in st["kinds"].items() if ": " not in k}, "outcomes": st["feats"], "faults_injected": faults,
           "real_code": REAL, "simulated": STUB, "digest": "%016x" % dig, "simulated_time": "the clock only dates the file: one value per run, between 1970 and 2477",
           "rule": "One evaluation is one simulated run (a sequence of operations with its faults). Non-trivial: a fault fired or a file was damaged; distinct: by the sequence of system calls, faults and outcomes of all operations."}
    write_evidence(prop, tier, seed, cov, violations, assumptions=["cfitsio's test whether the file exists succeeds (an open that fails for another reason looks like a missing file to it).", "A crash inside cfitsio after one of its own allocations failed counts as a reported failure.",
                                                                   "Not-a-number and infinite values are read as HEALPIX_NULLVAL and denormal numbers as 0, as cfitsio does."])
    if violations:
        return 1
    if errors:
        raise CheckError("; ".join(errors))
    say("%s: %d scenarios, %d simulated runs, %d distinct, no violation" % (prop, st.get("scenarios", 0), st.get("runs", 0), len(st["sigs"])))
    return 0
