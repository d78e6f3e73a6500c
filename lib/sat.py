"""Driver of satsim: the query tools in a simulated operating system (S01..S11)."""
import json, os, subprocess, time
from .common import *

CXX = ["-std=c++20", "-O2", "-g1", "-Wall"]
OBJS = ["common.cpp", "seam.cpp", "model.cpp", "gen.cpp", "main.cpp"]
# property -> (quick scenarios per worker, quick wall, thorough scenarios per worker, thorough wall)
BUDGET = {"S01": (900, 16, 40000, 500), "S02": (900, 16, 40000, 500), "S03": (900, 14, 40000, 400), "S04": (500, 16, 20000, 500), "S05": (900, 16, 40000, 600),
          "S06": (360, 20, 12000, 600), "S07": (500, 16, 20000, 500), "S08": (900, 16, 40000, 500), "S09": (700, 20, 40000, 700), "S10": (220, 18, 8000, 400), "S11": (2500, 10, 100000, 200), "S12": (900, 16, 40000, 500)}
REAL = ["src/sat_skymap.c, src/sat_visibility.c, src/mjdnow.c with the whole of libsatskymap and libchealpix, built from /repo with the project's own Makefile and flags",
        "glibc stdio (buffering, fgets/printf), number formatting and mathematics"]
STUB = ["files and directories (bytes, open/read errors, replacement while being read)", "standard output device", "allocator (failures, moving realloc, residual contents, red zones, quarantine)",
        "clock, time zone and environment", "calls that would create, change or remove files or start processes (recorded and refused)"]


def build_kind(kind):
    flags = CXX + (["-fsanitize=address", "-fno-omit-frame-pointer"] if kind == "asan" else [])
    d = os.path.join(BUILD, "simobj-" + kind)
    key = tree_hash(REPO + "/src", REPO + "/HealpixC") + file_hash([SIM + "/build.sh", SIM + "/seams.map.sh"])
    stamp = os.path.join(BUILD, kind + ".stamp")
    prod = None
    have = all(os.path.exists(os.path.join(BUILD, kind, "obj", n + ".o")) for n in ("skymap", "visibility", "mjdnow"))
    if not (have and stamp_ok(stamp, key)):
        prod = subprocess.Popen(["bash", os.path.join(SIM, "build.sh"), kind], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                env=dict(os.environ, REPO=REPO, BUILD=BUILD))
    objs = compile_objects(OBJS, flags, d)
    if prod:
        out, _ = prod.communicate()
        if prod.returncode:
            raise CheckError("building /repo failed:\n" + out[-4000:])
        with open(stamp, "w") as f:
            f.write(key)
    exe = os.path.join(BUILD, "satsim" + ("_asan" if kind == "asan" else ""))
    tmp = exe + ".tmp%d" % os.getpid()
    r = sh(["g++"] + (["-fsanitize=address"] if kind == "asan" else []) + objs + [os.path.join(BUILD, kind, "obj", n + ".o") for n in ("skymap", "visibility", "mjdnow")] + ["-lm", "-o", tmp])
    if r.returncode:
        raise CheckError("linking the simulator failed:\n" + r.stdout[-4000:])
    os.rename(tmp, exe)
    return exe


def build(kinds):
    with Lock("lock"):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(len(kinds)) as ex:
            return list(ex.map(build_kind, kinds))


def merge(a, b):
    for k, v in b.items():
        if k in ("runs", "scenarios", "nontrivial", "executions"):
            a[k] = a.get(k, 0) + v
        elif k in ("fired", "probes", "ends"):
            d = a.setdefault(k, {})
            for x, y in v.items():
                d[x] = d.get(x, 0) + y
        elif k == "behaviours":
            a.setdefault(k, set()).update(v)
        elif k == "samples":
            a.setdefault(k, []).extend(v)
        elif k == "digest":
            a[k] = "%016x" % (int(a.get(k, "0"), 16) ^ int(v, 16))


def replay(exe, path):
    r = subprocess.run([exe, "replay", path, "-q"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    h = [l.split()[1] for l in r.stdout.splitlines() if l.startswith("HASH ")]
    bad = [l[4:] for l in r.stdout.splitlines() if l.startswith("BAD ")]
    return r.returncode, (h or [""])[0], bad


def check(prop, tier, seed):
    kinds = ["plain", "asan"] if prop == "S09" else ["plain"]
    exes = build(kinds)
    t_built = time.time()
    q = BUDGET[prop]
    count, wall = (q[2], q[3]) if tier == "thorough" else (q[0], q[1])
    out = outdir(prop)
    workers = []
    n = max(2, NCPU)
    for w in range(n):
        exe = exes[w % len(exes)]
        c = count if len(exes) == 1 or w % 2 == 0 else count // 2
        workers.append((exe, subprocess.Popen([exe, "batch", prop, str(seed), str(w * 10000000), str(c), str(wall), tier, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")))
    st, found, per_kind = {}, [], {}
    for exe, p in workers:
        o, e = p.communicate()
        if p.returncode:
            raise CheckError("simulator failed (%s): %s" % (p.returncode, (o + e)[-2000:]))
        lines = o.splitlines()
        for i, l in enumerate(lines):
            if l.startswith("FOUND "):
                _, cls, path = l.split(" ", 2)
                found.append((cls, path, exe, lines[i + 1].strip() if i + 1 < len(lines) else ""))
            elif l.startswith("STATS "):
                s = json.loads(l[6:])
                merge(st, s)
                k = "AddressSanitizer build" if exe.endswith("asan") else "product build"
                per_kind[k] = per_kind.get(k, 0) + s["runs"]
    t_run = time.time() - t_built
    violations, errors, reported = 0, [], set()
    known = known_findings(prop)
    used = set()
    for cls, path, exe, msg in found:
        if cls in reported:
            continue
        mini = os.path.join(out, "%s-%s.replay" % (prop, cls))
        sh([exe, "min", path, mini, "25" if tier == "quick" else "120", cls])
        picked = None
        for cand in (mini, path):
            if not os.path.exists(cand):
                continue
            a, b = replay(exe, cand), replay(exe, cand)
            if a[0] == 1 and b[0] == 1 and any(x.split(" ")[0] == cls for x in a[2]) and any(x.split(" ")[0] == cls for x in b[2]):
                picked = (cand, a, b)
                break
        if not picked:
            errors.append("%s (%s) does not replay" % (path, msg))
            continue
        cand, a, b = picked
        msg = next(x for x in a[2] if x.split(" ")[0] == cls)
        k = next((x for x in known if x[0] in msg), None)
        if k:
            used.add(k)
            continue
        reported.add(cls)
        violations += 1
        say("VIOLATION property=%s replay=%s" % (prop, cand))
        say("  " + msg[:600] + ("" if a[1] == b[1] else "   (event hashes of two replays differ)"))
        say("  replay with: %s replay %s" % (exe, cand))
    for k in known:
        say("KNOWN-FINDING: property=%s %s" % (prop, k[1] or k[0]))
    cov = {"evaluations": st.get("runs", 0), "distinct_nontrivial": len(st.get("behaviours", ())),
           "rule": "One evaluation is one simulated process execution. Distinct non-trivial counts different behaviours among the scenarios in which a file was read or a fault fired: program, set of fault kinds fired, "
                   "exit status, reported status and message, number of satellites (up to 6), number of files opened, output size class and relative position of read faults.",
           "samples": st.get("samples", [])[:4], "scenarios": st.get("scenarios", 0), "simulated_runs": st.get("runs", 0), "distinct_event_logs": st.get("executions", 0),
           "scenarios_in_which_something_happened": st.get("nontrivial", 0), "seeds": {"master": seed, "scenarios_per_worker": count, "workers": n},
           "runs_per_hour": int(st.get("runs", 0) / max(t_run, .01) * 3600), "seeds_per_hour": int(st.get("scenarios", 0) / max(t_run, .01) * 3600),
           "faults_injected": st.get("fired", {}), "probes": st.get("probes", {}), "expected_endings": st.get("ends", {}), "runs_by_build": per_kind, "digest": st.get("digest", ""),
           "simulated_time": "the programs have no timers; their clock readings advance 1 microsecond each plus the injected jumps",
           "real_code": REAL, "simulated": STUB, "build_s": round(t_built - T0, 1)}
    write_evidence(prop, tier, seed, cov, violations, assumptions=["The simulated operating system answers as POSIX and glibc document.", "A scenario outside the modelled request grammar or file format (probes *_skipped, request_outside_model) is judged only by the rules that need no model."])
    if violations:
        return 1
    if errors:
        raise CheckError("; ".join(errors))
    say("%s: %d scenarios, %d simulated runs, %d behaviours, no violation" % (prop, st.get("scenarios", 0), st.get("runs", 0), len(st.get("behaviours", ()))))
    return 0
