"""Driver of libsim: the libraries called by several threads (L01) and in arbitrary histories (L02)."""
import json, os, subprocess, time
from .common import *

LSIM = os.path.join(VERIF, "lsim")
POOL = os.path.join(SIM, "pool")
KIND = {"L01": "cov", "L02": "prod"}
BUDGET = {"quick": (100000, 25), "thorough": (10 ** 8, 800)}
REAL = {"L01": ["libsatskymap and libchealpix, every source file the project's Makefile puts into them, compiled with clang -O1 and -fsanitize-coverage (the switch points)", "glibc (mathematics, sscanf, sprintf)"],
        "L02": ["libsatskymap and libchealpix built with the project's own Makefile and flags", "glibc (mathematics, sscanf, sprintf)"]}
STUB = {"L01": ["the thread scheduler (one token; seeded decisions at every basic block, load and store of the libraries and between calls)", "locks, should the libraries use any (waiting lets another thread run)"],
        "L02": ["the contents of parameter blocks and of the stack before a call", "the order of calls and what was called before"]}


def build(kinds=("cov", "prod")):
    with Lock("lock-lsim"):
        jobs = []
        key = tree_hash(REPO + "/src", REPO + "/HealpixC") + file_hash([LSIM + "/libsim.cpp", LSIM + "/build.sh"])
        for k in kinds:
            if os.path.exists(os.path.join(BUILD, "libsim_" + k)) and stamp_ok(os.path.join(BUILD, "libsim_%s.stamp" % k), key):
                continue
            jobs.append((k, subprocess.Popen(["bash", LSIM + "/build.sh", k], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, REPO=REPO, BUILD=BUILD))))
        for k, p in jobs:
            out, _ = p.communicate()
            if p.returncode:
                raise CheckError("building /repo failed:\n" + out[-4000:])
            with open(os.path.join(BUILD, "libsim_%s.stamp" % k), "w") as f:
                f.write(key)
    return [os.path.join(BUILD, "libsim_" + k) for k in kinds]


def replay_one(exe, path):
    r = subprocess.run([exe, "replay", path, "-q"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    h = [l.split()[1] for l in r.stdout.splitlines() if l.startswith("HASH ")]
    bad = [l[4:] for l in r.stdout.splitlines() if l.startswith("BAD ")]
    return r.returncode, (h or [""])[0], bad


def check(prop, tier, seed):
    exe = build((KIND[prop],))[0]
    t_built = time.time()
    count, wall = BUDGET["thorough" if tier == "thorough" else "quick"]
    if os.environ.get("SIM_SECONDS"):
        wall = float(os.environ["SIM_SECONDS"])
    out = outdir(prop)
    n = max(2, NCPU)
    ps = [subprocess.Popen([exe, "batch", prop, str(seed), str(w * 10000000), str(count), str(wall), tier, out, POOL], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace") for w in range(n)]
    st, found = {"sigs": set(), "places": set(), "kinds": {}, "feats": {}, "samples": []}, []
    dig = 0
    for p in ps:
        o, e = p.communicate()
        if p.returncode:
            raise CheckError("simulator failed (%s): %s" % (p.returncode, (o + e)[-2000:]))
        lines = o.splitlines()
        for i, l in enumerate(lines):
            if l.startswith("FOUND "):
                _, cls, path = l.split(" ", 2)
                found.append((cls, path, lines[i + 1].strip() if i + 1 < len(lines) else ""))
            elif l.startswith("STATS "):
                s = json.loads(l[6:])
                for k, v in s.items():
                    if k in ("sigs", "places"):
                        st[k].update(v)
                    elif k in ("kinds", "feats"):
                        for a, b in v.items():
                            st[k][a] = st[k].get(a, 0) + b
                    elif k == "samples":
                        st[k] += v
                    elif k == "digest":
                        dig ^= int(v, 16)
                    elif k.startswith("worst"):
                        st[k] = max(st.get(k, 0), v)
                    else:
                        st[k] = st.get(k, 0) + v
    t_run = time.time() - t_built
    known, reported, errors, violations = known_findings(prop), set(), [], 0
    for cls, path, msg in found:
        if cls in reported:
            continue
        mini = os.path.join(out, "%s-%s.replay" % (prop, cls))
        sh([exe, "min", path, mini, "20" if tier == "quick" else "120", cls])
        picked = None
        for cand in (mini, path):
            if not os.path.exists(cand):
                continue
            a, b = replay_one(exe, cand), replay_one(exe, cand)
            if a[0] == 1 and b[0] == 1 and a[2] and a[2][0].split(" ")[0] == cls and b[2][0].split(" ")[0] == cls:
                picked = (cand, a, b)
                break
        if not picked:
            errors.append("%s (%s) does not replay" % (path, msg))
            continue
        cand, a, b = picked
        m = a[2][0]
        if any(k[0] in m for k in known):
            continue
        reported.add(cls)
        violations += 1
        say("VIOLATION property=%s replay=%s" % (prop, cand))
        say("  " + m[:700] + ("" if a[1] == b[1] else "   (hashes of two replays differ)"))
        say("  replay with: %s replay %s" % (exe, cand))
    for k in known:
        say("KNOWN-FINDING: property=%s %s" % (prop, k[1] or k[0]))
    cov = {"evaluations": st.get("runs", 0), "distinct_nontrivial": len(st["sigs"]), "samples": st["samples"][:4], "scenarios": st.get("scenarios", 0), "seeds": {"master": seed, "workers": n},
           "runs_per_hour": int(st.get("runs", 0) / max(t_run, .01) * 3600), "seeds_per_hour": int(st.get("scenarios", 0) / max(t_run, .01) * 3600), "library_calls": st.get("ops", 0), "calls_by_kind": st["kinds"],
           "real_code": REAL[prop], "simulated": STUB[prop], "digest": "%016x" % dig, "simulated_time": "%.0f days of orbital motion were spanned by the requested times" % (st.get("span_min", 0) / 1440)}
    f = dict(st["feats"])
    if prop == "L01":
        cov["rule"] = "One evaluation is one process execution (every thread alone, then all interleaved). Non-trivial: at least one switch inside or between library calls; distinct: by the sequence of (code address, next thread) at the switches."
        cov["interleavings"] = {"scheduling_points": st.get("points", 0), "switches": st.get("switches", 0), "distinct_switch_places": len(st["places"]), "switch_points_after_stores_to_global_data": st.get("hot", 0)}
        f["switches forced by a stalled thread"] = st.get("stalls", 0)
    else:
        cov["rule"] = "One evaluation is one process execution (the target calls alone in a fresh process, then after and among a history). Non-trivial: the history is not empty; distinct: by the full sequence of calls."
        cov["sequence_vs_fresh_worst"] = {"near_earth": st.get("worst_near", 0), "deep_space": st.get("worst_deep", 0), "resonant": st.get("worst_resonant", 0)}
    cov["faults_injected"] = f
    write_evidence(prop, tier, seed, cov, violations, assumptions=["Threads do not share an element set, a parameter block or an output buffer, and no thread changes the process-wide integration settings." if prop == "L01" else "The caller passes finite times and the parameter block of the element set it was initialised for."]
                   + (["glibc calls are executed without a switch inside; the processor's memory order is sequentially consistent in the simulation."] if prop == "L01" else []))
    if violations:
        return 1
    if errors:
        raise CheckError("; ".join(errors))
    say("%s: %d scenarios, %d simulated runs, %d distinct, no violation" % (prop, st.get("scenarios", 0), st.get("runs", 0), len(st["sigs"])))
    return 0
