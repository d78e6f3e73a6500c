"""Shared by the checks: building, violations, known findings, evidence."""
import fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")
T0 = time.time()
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        with open(p, "rb") as f:
            h.update(p.encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()[:24]


def tree_hash(*dirs):
    paths = []
    for d in dirs:
        for base, _, fs in os.walk(d):
            for f in fs:
                if f.endswith((".c", ".h", ".cpp", ".sh", ".lis", ".txt", ".tle")) or f in ("Makefile", "makefile"):
                    paths.append(os.path.join(base, f))
    return file_hash(paths)


def stamp_ok(path, val):
    try:
        return open(path).read() == val
    except OSError:
        return False


def compile_objects(names, flags, outdir, compiler="g++"):
    """Compile the simulator's own sources (cached by content)."""
    os.makedirs(outdir, exist_ok=True)
    heads = [os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith(".h")]
    jobs, objs = [], []
    for n in names:
        src = os.path.join(SIM, n)
        obj = os.path.join(outdir, os.path.splitext(n)[0] + ".o")
        objs.append(obj)
        key = file_hash([src] + heads, " ".join(flags))
        if os.path.exists(obj) and stamp_ok(obj + ".key", key):
            continue
        cc = compiler if n.endswith(".cpp") else "gcc"
        jobs.append((obj, key, subprocess.Popen([cc] + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for obj, key, p in jobs:
        out, _ = p.communicate()
        if p.returncode:
            raise CheckError("compiling the simulator failed:\n" + out[-4000:])
        with open(obj + ".key", "w") as f:
            f.write(key)
    return objs


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            l = l.strip()
            if l.startswith("KNOWN property=%s " % prop):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out.append((key, what))
    except OSError:
        pass
    return out


def write_evidence(prop, tier, seed, coverage, violations, level="exploration", assumptions=()):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    d = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
         "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


def outdir(prop):
    d = os.path.join(BUILD, "replays", prop)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            os.unlink(p)
    return d
