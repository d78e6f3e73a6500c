"""scriptsim: the maintenance scripts (R01-R07) under the deterministic runner of scr/, against small models.

A scenario is one JSON object: an initial file tree and a list of runs of tle_retrieve.sh / tle_satcount.sh, each with
its clock, scheduler seed, network plan, faults and kill.  One scenario and one tree of /repo are one exact execution."""
import json, multiprocessing, os, random, re, shutil, signal, subprocess, time, traceback
from .common import *
from . import box as B

MAIN = "last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other".split()
SUPP = "starlink oneweb planet iridium gps glonass meteosat intelsat ses telesat orbcomm iss cpf".split()
DEB = "1982-092 1999-025 iridium-33-debris cosmos-2251-debris".split()
SPECIAL = "gpz gpz-plus".split()
U_GROUP = "https://celestrak.com/NORAD/elements/gp.php?FORMAT=tle&GROUP="
U_SPEC = "https://celestrak.com/NORAD/elements/gp.php?FORMAT=tle&SPECIAL="
U_SUPP = "https://celestrak.org/NORAD/elements/supplemental/sup-gp.php?FORMAT=tle&FILE="
TARGETS = ([(n, U_GROUP + n, n + ".txt") for n in MAIN]
           + [(n, U_SUPP + n, {"iridium": "iridium-NEXT.txt", "gps": "gps-ops.txt"}.get(n, n + ".txt")) for n in SUPP]
           + [(n, U_GROUP + n, n + ".txt") for n in DEB] + [("SPECIAL " + n, U_SPEC + n, n + ".txt") for n in SPECIAL])
FILE_OF = {u: f for _, u, f in TARGETS}
COUNT_MAIN = MAIN + SPECIAL
COUNT_SUPP = "starlink oneweb planet glonass meteosat intelsat ses telesat orbcomm cpf".split()
SCIENCE = "HST CXO GLAST SWIFT NUSTAR AGILE INTEGRAL ASTROSAT HXMT XMM WISE SDO IXPE".split()
EPH = [("gaia_2025.txt", "Gaia", "GAIA"), ("jwt_2025.txt", "James", "JAMES WEBB"), ("euclid_2025.txt", "Euclid", "EUCLID"), ("juice_2024.txt", "JUICE", "JUICE")]
DEFDIR = "/usr/local/TLErepo"
BUDGET = {"quick": 70, "thorough": 900}
BUDGET_P = {}
TRANSFER_FAULTS = ["status", "none", "timeout", "partial", "reset", "hang", "kill", "short_ok", "empty", "blank", "redirect", "slow"]


# ------------------------------------------------------------------ element sets
def checksum(l):
    return str(sum(int(c) if c.isdigit() else c == "-" for c in l) % 10)


def tle_lines(norad, rng):
    norad = norad if isinstance(norad, str) else "%05d" % norad
    a = "1 %sU %02d%03dA   25100.5%07d  .0000%04d  00000-0  %05d-4 0  999" % (norad, rng.randint(58, 99), rng.randint(1, 150), rng.randint(0, 9999999), rng.randint(0, 999), rng.randint(10000, 30000))
    b = "2 %s %8.4f %8.4f %07d %8.4f %8.4f %11.8f%5d" % (norad, rng.uniform(1, 100), rng.uniform(0, 359), rng.randint(1000, 20000), rng.uniform(0, 359), rng.uniform(0, 359), rng.uniform(14, 15.3), rng.randint(1, 99999))
    return a + checksum(a), b + checksum(b)


def make_body(rng, cat, nmax=4, nmin=1, eol=None, messy=False):
    """text of one catalogue"""
    e = eol or ("\r\n" if rng.random() < .8 else "\n")
    out = []
    for _ in range(rng.randint(nmin, nmax)):
        n = rng.choice(POOL) if rng.random() < .8 else rng.randint(100, 69999)
        if messy and rng.random() < .15:
            n = rng.choice(["A0001", "B1234", "Z9999", "T0005", "A0002", "E0042"])       # numbers above 99999
        name = "%s %s" % (rng.choice(["SAT", "COSMOS", "STARLINK-", "OBJECT", "YAOGAN"]), n)
        if messy and rng.random() < .12:
            name = rng.choice(["2 PATHFINDER", "1 KUNS", "2 ", "2"])
        if cat == "science" and rng.random() < .6:
            name = rng.choice(["HST", "CXO", "FGRST (GLAST)", "SWIFT", "NUSTAR", "AGILE", "INTEGRAL", "ASTROSAT", "HXMT (HUIYAN)", "XMM-NEWTON", "WISE", "SDO", "IXPE", "IRIS", "HINODE"])
        if cat == "stations" and rng.random() < .6:
            name = rng.choice(["ISS (ZARYA)", "CSS (TIANHE)", "ISS (NAUKA)"])
        if cat == "active" and rng.random() < .6:
            name = rng.choice(["CHEOPS", "TESS", "HST", "ISS (ZARYA)"])
        a, b = tle_lines(n, rng)
        if messy and rng.random() < .15:
            out += [rng.choice(["", "# comment", "#2 not an element line"])]
        if not (messy and rng.random() < .2):
            out.append(name.ljust(24) if rng.random() < .9 else name)
        out += [a, b]
    t = e.join(out) + e
    if messy and rng.random() < .15:
        t = t[:-len(e)]
    return t


POOL = [5 + 37 * k for k in range(60)] + [25544, 20580, 43435, 99999, 100]


def counted(text):
    p, n, ids = "", 0, []
    for l in text.split("\n"):
        if p.startswith("1 ") and l.startswith("2 "):
            n += 1
            ids.append(p[2:7])
        p = l
    return n, ids


def select(text, names):
    out, ls = [], text.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    i = 0
    while i < len(ls):
        if any(n in ls[i] for n in names):
            out += ls[i:i + 3]
            i += 3
        else:
            i += 1
    return "".join(l + "\n" for l in out).replace("\r", "")


def eph_block(text, mjd, key, name):
    out, ls = "", text.split("\n")
    for i, l in enumerate(ls):
        f = l.split()
        if len(f) >= 3 and f[1] == "MJD" and f[0] == "#" and int(float(f[2])) == mjd:
            nm = ls[i + 1]
            out += l + "\n" + (name if key in (nm.split() or [""])[0] else nm) + "\n" + ls[i + 2] + "\n" + ls[i + 3] + "\n"
    return out


def special_models(files, days):
    """all that special.txt may be.  files: name -> text; days: the UTC day numbers the clock showed during the run"""
    t = {select(files.get("science.txt", ""), SCIENCE) + select(files.get("stations.txt", ""), ["ZARYA"]) + select(files.get("active.txt", ""), ["CHEOPS", "TESS"])}
    for f, key, name in EPH:
        if f in files:
            blocks = {eph_block(files[f], 40588 + day, key, name) for day in days}
            t = {x + y for x in t for y in blocks}
            if len(t) > 5000:
                return None
    return t


def fnv(b):
    x = 1469598103934665603
    for c in b:
        x = ((x ^ c) * 1099511628211) & 0xffffffffffffffff
    return "%d %016x" % (len(b), x)


_fnv = {}


def key_of(text):
    if text is None:
        return "absent"
    k = _fnv.get(text)
    if k is None:
        if len(_fnv) > 20000:
            _fnv.clear()
        k = _fnv[text] = fnv(text.encode("latin-1"))
    return k


# ------------------------------------------------------------------ generator
def eph_text(name):
    p = os.path.join(REPO, "scripts", name)
    return open(p, encoding="latin-1").read() if os.path.exists(p) else None


_eph = {}


def eph_blocks(name):
    if name not in _eph:
        t = eph_text(name) or ""
        _eph[name] = [b + "\n" for b in re.split(r"\n(?=# Worst)|\n\n", t) if "MJD" in b]
    return _eph[name]


def outcome(rng, kind):
    """one answer of the simulated server: [kind, code, exit, cut, delay_ms, chunk]"""
    cut, delay, chunk = -1, rng.choice([20, 200, 900, 2500]), rng.choice([0, 0, 64, 150])
    if kind == "ok":
        return ["answer", 200, 0, -1, delay, chunk]
    if kind == "status":
        return ["answer", rng.choice([404, 403, 500, 503, 502, 301, 302, 206, 204, 429, 201]), 0, rng.choice([-1, -1, 0, 40]), delay, chunk]
    if kind == "none":
        return ["none", 0, rng.choice([6, 7, 35, 28, 52]), -1, delay, chunk]
    if kind == "timeout":
        return ["answer", 200, 28, rng.choice([0, 1, 69, 100, 168, 300]), rng.choice([200, 9000]), chunk]
    if kind == "partial":
        return ["answer", 200, 18, rng.choice([0, 24, 100, 168, 169, 200]), delay, chunk]
    if kind == "reset":
        return ["answer", 200, rng.choice([56, 92]), rng.choice([0, 30, 168, 250, 100000]), delay, chunk]
    if kind == "hang":
        return ["hang", 0, 28, -1, 0, 0]
    if kind == "kill":
        return ["kill", 200, 0, rng.choice([0, 50, 168, 100000]), delay, chunk]
    if kind == "empty":
        return ["answer", 200, 0, 0, delay, chunk]
    if kind == "blank":                          # as before curl 7.42: no file for an empty body
        return ["blank", 200, 0, 0, delay, chunk]
    if kind == "redirect":
        return ["redirect", 200, 0, -1, delay, chunk]
    if kind == "slow":
        return ["answer", 200, 0, -1, rng.choice([15000, 30000, 8000]), rng.choice([16, 40])]
    return ["answer", 200, 0, -1, delay, chunk]


def gen_plan(rng, pbad, kinds, messy=False, nmax=3, text200=0.0):
    plan = {}
    style = rng.random()
    for _, u, f in TARGETS:
        k = "ok"
        if rng.random() < pbad:
            k = rng.choice(kinds)
        o = outcome(rng, k)
        body = make_body(rng, f[:-4], nmax=nmax, messy=messy)
        if o[1] not in (200, 206, 201, 203) and rng.random() < .6:
            body = "<html><head><title>%d</title></head></html>\n" % o[1]
        elif rng.random() < text200:
            body = "No GP data found\r\n"
        plan[u] = o + [body]
    return plan


PROGS = ["awk", "awk", "awk", "date", "expr", "/tr", "/mv", "/mv", "curl", "/rm", "tee", "sort", "cat", "wc", "tle_satcount"]


def gen_faults(rng, ops, n=1, path=None, die=.15):
    out = []
    for _ in range(n):
        op = rng.choice(ops)
        span = {"rename": 115, "unlink": 130, "exec": 570, "fork": 760, "write": 430, "open": 315, "read": 245, "read_open": 300, "chdir": 2, "pipe_write": 260}.get(op, 50)
        sub = path if path and op in ("rename", "unlink", "write", "open", "read", "read_open") else ""
        if sub:
            span = span // 2
        if op == "exec" and rng.random() < .6:
            sub = rng.choice(PROGS)
            span = rng.choice([2, 12, 90])
        if op in ("read", "read_open") and rng.random() < .5:
            sub, span = rng.choice(["science.txt", "stations.txt", "active.txt", "gaia", "jwt", "special", "cur_norad", "tle_satcount"]), rng.choice([2, 3])
        err = {"rename": [28, 5, 13, 30], "unlink": [5, 13, 30], "exec": [12, 2, 11], "fork": [11, 12], "write": [28, 5, 122], "open": [28, 24, 13, 30, 23], "read": [5], "read_open": [5, 24, 23], "chdir": [13, 2, 5], "pipe_write": [1009]}[op]
        e = rng.choice(err)
        cnt = rng.choice([1, 1, 1, 2, 5, 40, 10000]) if op in ("write", "open", "rename", "unlink") else rng.choice([1, 1, 3])
        if die and op in ("exec", "write", "open", "read", "pipe_write", "rename", "unlink") and rng.random() < die:
            e, cnt = 1009, 1                     # SIGKILL to the process that does it
        out.append([op, rng.randrange(span), e, cnt, sub])
    return out


def point(rng, script="retrieve"):
    """a point of a run: so many file changes after its start or (k * 1000000 + n) after its k-th request"""
    if script == "satcount":
        return rng.randrange(rng.choice([30, 90]))
    x = rng.random()
    if x < .35:
        return rng.randrange(1, 620)
    if x < .65:
        return 61000000 + rng.randrange(3, rng.choice([12, 20, 45]))
    if x < .8:
        return 61000000 + rng.randrange(150)
    return 1000000 * rng.randint(1, 61) + rng.randrange(12)


def base_run(rng, script="retrieve", plan=None):
    return {"script": script, "clock": [rng.randint(1704067200, 1767484800), rng.randrange(10**9)], "tick": rng.choice([10000, 100000, 1000000, 4000000]),
            "sched": [rng.randrange(1 << 40), rng.choice([0, 20, 100, 400, 1000])], "plan": plan or {}, "faults": [], "shorts": [], "kill": None, "jumps": [], "stalls": [], "readers": [], "write": {}}


def initial_repo(rng, d, p=0.7, messy=False, eph=True):
    files = {}
    if rng.random() < .1:
        p = rng.choice([0, 1])
    for f in sorted(set(FILE_OF.values())):
        if rng.random() < p:
            files[d + "/" + f] = make_body(rng, f[:-4], nmax=3, messy=messy)
    if rng.random() < .6:
        files[d + "/special.txt"] = make_body(rng, "science", eol="\n")
    if rng.random() < .3:
        files[d + "/tle.tmp"] = make_body(rng, "x")
    if rng.random() < .3:
        files[d + "/cur_norad_ids.lis_tmp"] = "".join("%05d\n" % rng.choice(POOL) for _ in range(5))
    if rng.random() < .4:
        files[d + "/cur_norad_ids.lis"] = "00005\n12345\n"
        files[d + "/cur_tlesat_count.php"] = "<?php\n old\n?>\n"
    return files


def put_eph(rng, files, d, day, full=0.15):
    for f, key, name in EPH:
        r = rng.random()
        if r < .25:
            continue
        bl = eph_blocks(f)
        if not bl:
            continue
        if r < .25 + full:
            files[d + "/" + f] = "@repo:scripts/" + f
            continue
        want = 40588 + day
        idx = [i for i, b in enumerate(bl) if abs(float(re.search(r"MJD (\S+)", b).group(1)) - want) <= 3]
        keep = [bl[i] for i in idx if rng.random() < .9]
        files[d + "/" + f] = "\n".join(keep) + ("\n" if keep else "")


def day_clock(rng, near=True):
    """a clock value, often shortly before midnight, sometimes at the ends of the ephemeris files"""
    r = rng.random()
    day = rng.choice([19723, 20088, 20089, 20090, 20454, 20452, 20453, 19782, 20147]) if r < .25 else rng.randint(19723, 20460)
    if rng.random() < .6:
        sec = 86400 - rng.choice([1, 5, 20, 60, 120, 200]) + rng.choice([0, 0, 1])
    else:
        sec = rng.choice([0, 1, 43200, 43199, rng.randrange(86400)])
    return [day * 86400 + sec, rng.randrange(10**9)]


DIRS = [("/data/tle", ["/data/tle"], "/"), (DEFDIR, [], "/work"), ("/data/tle", ["/data/tle/"], "/work"), ("/work/repo", ["repo"], "/work"), ("/work/deep/repo", ["deep/repo"], "/work"), ("/repo2", ["../repo2"], "/work")]
ODD = [("/data/my tle", ["/data/my tle"], "/work"), ("/work/-n", ["-n"], "/work"), ("/work/a b", ["a b"], "/work"), ("/work/--help", ["--help"], "/work"), ("/data/t*", ["/data/t*"], "/work"), ("/work/-P", ["-P"], "/work"), ("/data/$(x)", ["/data/$(x)"], "/work"), ("/work/-", ["-"], "/work"), ("/work/~", ["~"], "/work"), ("/data/q'\"x", ["/data/q'\"x"], "/")]

# names whose parts, ends or expansions name another directory that is there too
NEAR = [("/data/my tle", ["/data/my tle"], "/work"), ("/data/my tle", ["my tle"], "/data"), ("/work/tle ", ["tle "], "/work"), ("/work/ tle", [" tle"], "/work"), ("/data/t[le]", ["/data/t[le]"], "/work"), ("/work/[a-z]*", ["[a-z]*"], "/work"), ("/data/t\\l", ["/data/t\\l"], "/"), ("/data/a  b", ["/data/a  b"], "/"), ("/data/a;b", ["/data/a;b"], "/work"), ("/data/tle\\nx", ["/data/tle\\nx"], "/work"), ("/work/{a,b}", ["{a,b}"], "/work"), ("/work/$HOME", ["$HOME"], "/work")]
SIBLING = {"/data/my tle": ["/data/my", "/data/tle", "/data/my/tle"], "/work/tle ": ["/work/tle"], "/work/ tle": ["/work/tle"], "/data/t[le]": ["/data/tl", "/data/te", "/data/t"], "/work/[a-z]*": ["/work/abc"], "/data/t\\l": ["/data/tl"], "/data/a  b": ["/data/a b", "/data/a"], "/data/a;b": ["/data/a", "/work/b"], "/data/tle\\nx": ["/data/tle", "/data/tlenx"], "/work/{a,b}": ["/work/a", "/work/b"], "/work/$HOME": ["/work/root", "/work/"]}


def gen(prop, seed):
    rng = random.Random("%s/%d" % (prop, seed))
    d, args, cwd = rng.choice(DIRS)
    sc = {"prop": prop, "seed": seed, "dir": d, "args": args, "cwd": cwd, "files": {}, "mkdir": [d, cwd], "runs": [], "query": []}
    R = sc["runs"]
    ok = lambda **k: gen_plan(rng, 0, ["ok"], **k)
    if prop == "R01":
        sc["files"] = initial_repo(rng, d, rng.choice([.3, .8, 1]))
        for _ in range(rng.choice([1, 1, 2])):
            r = base_run(rng, plan=gen_plan(rng, rng.choice([.1, .4, .8, 1]), rng.choice([TRANSFER_FAULTS, [rng.choice(TRANSFER_FAULTS)]]), text200=.05))
            if rng.random() < .45:
                r["faults"] = gen_faults(rng, ["write", "open", "rename", "unlink", "exec", "fork", "pipe_write", "read"], rng.choice([1, 1, 2]), rng.choice([None, d]))
            if rng.random() < .15:
                r["shorts"] = [[rng.randrange(300), rng.choice([1, 7, 60])] for _ in range(3)]
            if rng.random() < .15:
                r["kill"] = [point(rng), rng.choice(["all", "main"]), rng.choice([-1, 0, 10])]
            R.append(r)
    elif prop == "R02":
        sc["files"] = initial_repo(rng, d, rng.choice([.8, 1, 1]))
        for f in ("science.txt", "stations.txt", "active.txt"):
            if rng.random() < .8:
                sc["files"][d + "/" + f] = make_body(rng, f[:-4], nmin=2)
        clk = day_clock(rng)
        put_eph(rng, sc["files"], d, clk[0] // 86400, full=.05)
        for k in range(rng.choice([1, 1, 2])):
            r = base_run(rng, plan=gen_plan(rng, rng.choice([0, .1, .4]), TRANSFER_FAULTS))
            r["clock"] = clk
            if rng.random() < .7:
                r["kill"] = [point(rng), rng.choice(["all", "all", "main"]), rng.choice([-1, -1, 0, 10])]
            if rng.random() < .45:
                r["faults"] = gen_faults(rng, ["write", "open", "rename", "unlink", "exec", "exec", "fork", "read", "read", "read_open", "pipe_write"], rng.choice([1, 1, 2]), rng.choice([None, d]))
            if rng.random() < .2:
                r["shorts"] = [[rng.randrange(300), rng.choice([1, 7, 60])] for _ in range(3)]
            R.append(r)
        if any(r["kill"] for r in R) and rng.random() < .6:
            r = base_run(rng, plan=ok())
            r["clock"] = [clk[0] + rng.choice([600, 86400]), clk[1]]
            R.append(r)
    elif prop == "R03":
        sc["files"] = initial_repo(rng, d, rng.choice([0, .5, 1]))
        for _ in range(rng.choice([1, 1, 2])):
            r = base_run(rng, plan=gen_plan(rng, rng.choice([.05, .2, .5, .9, 1]), rng.choice([TRANSFER_FAULTS, [rng.choice(TRANSFER_FAULTS)]])))
            if rng.random() < .5:
                r["faults"] = gen_faults(rng, ["write", "open", "rename", "rename", "write"], rng.choice([1, 2]), rng.choice([d, d, "/tmp", None]), die=0)
            R.append(r)
    elif prop == "R04":
        bad = rng.random() < .45
        if not bad:
            d, args, cwd = rng.choice(ODD + DIRS + NEAR)
            sc.update(dir=d, args=args, cwd=cwd, mkdir=[d, cwd])
        tgt = d
        kind = None
        if bad:
            kind = rng.choice(["missing", "missing_default", "file", "empty", "fault", "missing_rel", "dangling", "deep_missing", "newline"])
            cwd = rng.choice(["/work", "/data/tle", "/", "/usr/local"])
            a = {"missing": ["/data/none"], "missing_default": [], "file": ["/data/afile"], "empty": [""], "missing_rel": ["none"], "dangling": ["/data/dangling"], "deep_missing": ["/data/none/sub dir"], "newline": ["-x"], "fault": args}[kind]
            sc.update(cwd=cwd, args=a, bad=kind, mkdir=[cwd] + ([d] if kind == "fault" else []))
            if kind == "file":
                sc["files"]["/data/afile"] = "not a directory\n"
            for dd in (DEFDIR, "/data/tle"):     # repositories that are not meant
                if kind != "fault" and rng.random() < .7 and not (kind == "missing_default" and dd == DEFDIR):
                    for p, t in initial_repo(rng, dd, .2).items():
                        sc["files"].setdefault(p, t)
            if kind == "fault":
                sc.update(args=args, cwd=dict((x[0], x[2]) for x in DIRS).get(d, "/"))
                cwd = sc["cwd"]
                sc["mkdir"] = [d, cwd]
                for dd, aa, cc in DIRS:
                    if dd == d and aa == args:
                        sc["cwd"] = cwd = cc
            sc["symlink"] = {"/data/dangling": "/data/nowhere"} if kind == "dangling" else {}
        else:
            sc["files"].update(initial_repo(rng, d, .5))
            for dd in SIBLING.get(d, []):
                if rng.random() < .8:
                    sc["mkdir"].append(dd)
                    for p, t in initial_repo(rng, dd.rstrip("/"), .2).items():
                        sc["files"].setdefault(p, t)
        for f in ("tle.tmp", "tle.tmp.1", "special.txt", "cur_norad_ids.lis_tmp", "stations.txt", "cur_tlesat_count.php"):
            if rng.random() < .3:
                sc["files"]["/tmp/" + f] = "precious %s\n" % f
        # files of the same names lie where the scripts are started
        for w in {cwd, "/work", "/", "/data", "/root"}:
            if w == d or (w + "/").startswith(d + "/"):
                continue
            for f in rng.sample(["stations.txt", "active.txt", "special.txt", "tle.tmp", "cur_norad_ids.lis_tmp", "cur_norad_ids.lis", "cur_tlesat_count.php", "science.txt", "last-30-days.txt", "gpz.txt"], 5):
                sc["files"].setdefault(("" if w == "/" else w) + "/" + f, "precious %s\n" % f)
        r = base_run(rng, rng.choice(["retrieve", "satcount", "satcount"]), gen_plan(rng, rng.choice([0, .3]), TRANSFER_FAULTS))
        if kind == "fault":
            r["faults"] = [["chdir", 0, rng.choice([13, 2, 5, 116]), rng.choice([1, 9, 9]), ""]]
        elif not bad and rng.random() < .3:
            r["faults"] = gen_faults(rng, ["write", "open", "rename", "unlink", "exec", "fork"], 1, rng.choice([None, d]))
        if rng.random() < .1:
            r["kill"] = [point(rng, r["script"]), rng.choice(["all", "main"]), -1]
        R.append(r)
    elif prop == "R05":
        sc["files"] = initial_repo(rng, d, rng.choice([.2, .6, .9]), messy=True)
        for k in range(rng.choice([1, 2, 3])):
            r = base_run(rng, "retrieve" if rng.random() < .12 else "satcount", gen_plan(rng, .3, TRANSFER_FAULTS, messy=True))
            if rng.random() < .65:
                r["kill"] = [point(rng, r["script"]), rng.choice(["all", "main"]), rng.choice([-1, 0, 5])]
            elif rng.random() < .5:
                r["faults"] = gen_faults(rng, ["write", "open", "unlink", "exec", "fork", "read", "read_open", "pipe_write"], rng.choice([1, 2]), rng.choice([None, d, "/tmp"]))
                for f in r["faults"]:
                    f[1] //= 3
            R.append(r)
        last = base_run(rng, "satcount")
        for f in sorted(set(FILE_OF.values())):
            x = rng.random()
            if x < .1:
                last["write"][d + "/" + f] = make_body(rng, f[:-4], messy=True, nmax=6)
            elif x < .2:
                last["write"][d + "/" + f] = None
        if rng.random() < .15:
            for f in DEB:
                last["write"][d + "/" + f + ".txt"] = None
        if rng.random() < .05:
            for f in FILE_OF.values():
                last["write"][d + "/" + f] = None
        R.append(last)
        if rng.random() < .4:
            R.append(base_run(rng, "satcount"))
    elif prop == "R06":
        clk = day_clock(rng)
        sc["files"] = initial_repo(rng, d, rng.choice([0, .5, 1]))
        put_eph(rng, sc["files"], d, clk[0] // 86400)
        for f in ("science.txt", "stations.txt", "active.txt"):
            x = rng.random()
            if x < .5:
                sc["files"][d + "/" + f] = make_body(rng, f[:-4], nmin=3, nmax=8)
            elif x < .65:
                sc["files"].pop(d + "/" + f, None)
        if rng.random() < .25:
            r = base_run(rng, plan=gen_plan(rng, .2, TRANSFER_FAULTS))
            r["clock"] = [clk[0] - rng.choice([3600, 86400, 7 * 86400]), 0]
            r["kill"] = [point(rng), rng.choice(["all", "main"]), -1]
            R.append(r)
        r = base_run(rng, plan=gen_plan(rng, rng.choice([0, .1, .5, 1]), TRANSFER_FAULTS))
        r["clock"] = clk
        for f in ("science", "stations", "active"):
            r["plan"][U_GROUP + f][-1] = make_body(rng, f, nmin=2, nmax=8)
        if rng.random() < .25:
            r["jumps"] = [[point(rng), rng.choice([3600, -3600, 86400, -86400, 10 * 86400, 30])]]
        if rng.random() < .3:
            r["tz"] = rng.choice(["Pacific/Auckland", "EST5EDT", "XXX-14", "XXX+12", "UTC"])
        R.append(r)
    elif prop == "R07":
        sc["files"] = initial_repo(rng, d, rng.choice([0, .5]))
        sc["files"].pop(d + "/special.txt", None)
        for l in ("ALL_merged.lis", "ALL_merged_nodeb.lis"):
            sc["files"][d + "/" + l] = "@repo:" + l
        sc["query"] = ["ALL_merged.lis", "ALL_merged_nodeb.lis"]
        R.append(base_run(rng, plan=ok()))
        for _ in range(rng.choice([0, 1, 1, 2])):
            r = base_run(rng, plan=gen_plan(rng, rng.choice([0, .2, .7, 1]), [k for k in TRANSFER_FAULTS if k != "empty"]))
            if rng.random() < .4:
                r["kill"] = [point(rng), rng.choice(["all", "main"]), rng.choice([-1, 0, 10])]
            if rng.random() < .3:
                r["faults"] = gen_faults(rng, ["write", "open", "rename", "unlink", "exec", "fork"], 1, rng.choice([None, d]))
            for k in range(rng.choice([0, 1, 2])):
                r["readers"].append([point(rng), rng.choice(sc["query"])])
                if rng.random() < .4:
                    r["stalls"].append([rng.choice([0, len(r["readers"])]), r["readers"][-1][0] + rng.choice([0, 0, 1, 5]), rng.choice([100, 300, 1000, 3000])])
            R.append(r)
    elif prop == "R08":
        sc["files"] = initial_repo(rng, d, rng.choice([.8, 1, 1]))
        for f in ("science.txt", "stations.txt", "active.txt"):
            if rng.random() < .8:
                sc["files"][d + "/" + f] = make_body(rng, f[:-4], nmin=2)
        clk = day_clock(rng)
        put_eph(rng, sc["files"], d, clk[0] // 86400, full=.05)
        r = base_run(rng, plan=gen_plan(rng, rng.choice([0, 0, .1, .4]), TRANSFER_FAULTS))
        r["clock"] = clk
        r["sched"][1] = rng.choice([5, 20, 100, 400, 1000])
        z = rng.random()
        r["second"] = rng.randrange(1, 61) * 1000000 + rng.randrange(0, 8) if z < .4 else 61000000 + rng.randrange(4, 14) if z < .75 else point(rng)
        x = rng.random()
        if x < .35:
            r["kill"] = [r["second"] - min(r["second"] % 1000000, rng.choice([0, 1, 2, 3, 8])), "main", rng.choice([-1, 0, 10])]
        elif x < .45:
            r["faults"] = gen_faults(rng, ["write", "open", "rename", "unlink", "exec", "fork", "pipe_write"], 1, rng.choice([None, d]))
        if rng.random() < .7:
            r["stalls"] = [[0, r["second"], rng.choice([100, 300, 600, 800, 1000, 1200, 1500, 2500, 6000, 20000, 100000])]]
            for _ in range(rng.choice([0, 0, 1, 2])):
                r["stalls"].append([rng.choice([0, 100]), r["second"] + rng.choice([rng.randrange(1, 15), rng.randrange(1, 400)]), rng.choice([100, 500, 2000, 10000])])
        k = r["second"] // 1000000
        if 0 < k < 61 and rng.random() < .5:          # what the first run, or its remains, was about to do happens after the next request of the second one
            if r["kill"]:
                r["kill"][0] = k * 1000000 + rng.choice([0, 0, 0, 1])
            j = rng.choice([1, 1, 1, 2, 7])
            r["stalls"] = [[0, r["kill"][0] if r["kill"] else r["second"], -((k + j) * 1000000 + rng.choice([0, 0, 1, 1, 2, 3, 4]))]]
        R.append(r)
        if rng.random() < .3:
            r = base_run(rng, plan=ok())
            r["clock"] = [clk[0] + rng.choice([900, 86400]), clk[1]]
            R.append(r)
    # what a login or cron environment may hold
    e2 = random.Random("env/%s/%d" % (prop, seed))
    sc["env"] = []
    if e2.random() < (.3 if prop == "R04" else .1):
        sc["env"].append("CDPATH=" + e2.choice(["/data:/work", ":/data/tle:/work/deep", "/work/deep", "/data"]))
    if e2.random() < .06:
        sc["env"].append("SHELLOPTS=braceexpand:hashall:interactive-comments:noclobber")
    if e2.random() < .15:
        sc["env"].append(e2.choice(["LC_ALL=de_DE.UTF-8", "LANG=de_DE.UTF-8", "LANG=C.UTF-8"]))
    return sc


# ------------------------------------------------------------------ execution
QUERY = ["-l0,0,0", "-p0,0", "-r181", "-j60775.5", "-n0", "-H"]


class Run:
    """what one simulated run did"""


def content(v):
    if v is None:
        return None
    if v.startswith("@repo:"):
        p = os.path.join(REPO, v[6:])
        return open(p, encoding="latin-1").read() if os.path.exists(p) else ""
    return v


def execute(bx, tools, sc):
    """-> (list of Run, violations, stats)"""
    bx.clear()
    for m in sc.get("mkdir", []):
        os.makedirs(bx.host(m), exist_ok=True)
    for p, t in sc["files"].items():
        bx.put(p, content(t).encode("latin-1"))
    for p, t in sc.get("symlink", {}).items():
        os.makedirs(os.path.dirname(bx.host(p)), exist_ok=True)
        os.symlink(t, bx.host(p))
    runs, viol = [], []
    for k, r in enumerate(sc["runs"]):
        run = execute_run(bx, tools, sc, r, k)
        runs.append(run)
        if run.end in ("stuck", "error"):
            break
        oracles(bx, tools, sc, r, run, runs, viol)
    return runs, viol


def execute_run(bx, tools, sc, r, k):
    d = sc["dir"]
    for p, t in r.get("write", {}).items():
        if t is None:
            if os.path.exists(bx.host(p)):
                os.unlink(bx.host(p))
        else:
            bx.put(p, content(t).encode("latin-1"))
    B.Box._rm(bx.host("/.sim"))
    os.makedirs(bx.host("/.sim"))
    plan = []
    for i, (u, o) in enumerate(r["plan"].items()):
        bx.put("/.sim/b%d" % i, o[6].encode("latin-1"))
        plan.append("\t".join([u] + [str(x) for x in o[:6]] + ["/.sim/b%d" % i]))
    bx.put("/.sim/plan", ("\n".join(plan) + "\n").encode("latin-1"))
    bx.put("/.sim/redirect.html", b"<html>301 Moved Permanently</html>\n")
    run = Run()
    run.before = {p: t.decode("latin-1") for p, t in bx.tree().items()}
    L = ["root " + bx.root, "log %s/log" % bx.tmp, "clock %d %d" % tuple(r["clock"]), "tick %d" % r["tick"], "sched %d %d" % tuple(r["sched"]), "maxsteps 250000"]
    L += ["fault %s %d %d %d %s" % tuple(f) for f in r["faults"]]
    L += ["short %d %d" % tuple(s) for s in r["shorts"]]
    L += ["jump %d %d" % tuple(j) for j in r["jumps"]]
    L += ["stall %d %d %d" % tuple(j) for j in r.get("stalls", [])]
    if r["kill"]:
        L.append("kill %d %s %d" % tuple(r["kill"]))
    env = ["env PATH=/usr/local/bin:/usr/bin:/bin", "env HOME=/root"]
    if not any(e.startswith(("LC_ALL=", "LANG=")) for e in sc.get("env", [])):
        env.append("env LC_ALL=C")
    if r.get("tz"):
        env.append("env TZ=" + r["tz"])
    env += ["env " + e for e in sc.get("env", [])]
    L += ["task 0 0 1", "cwd " + sc["cwd"], "arg /usr/local/bin/tle_%s.sh" % r["script"]] + ["arg " + a for a in sc["args"]] + env + ["out %s/out" % bx.tmp]
    if r.get("second") is not None:
        L += ["task 100 %d 0" % r["second"], "cwd " + sc["cwd"], "arg /usr/local/bin/tle_%s.sh" % r["script"]] + ["arg " + a for a in sc["args"]] + env + ["out %s/out100" % bx.tmp]
    for i, (m, lis) in enumerate(r["readers"]):
        L += ["task %d %d 0" % (i + 1, m), "cwd " + d, "arg /usr/local/bin/sat_skymap", "arg @" + lis] + ["arg " + a for a in QUERY] + env + ["out %s/out%d" % (bx.tmp, i + 1)]
    with open(bx.tmp + "/spec", "w") as f:
        f.write("\n".join(L) + "\n")
    try:
        os.unlink(bx.tmp + "/log")
    except OSError:
        pass
    t0 = time.time()
    p = subprocess.Popen([tools + "/runner", bx.tmp + "/spec"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out = p.communicate(timeout=120)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out = p.communicate()[0] + b" (timed out)"
    run.wall = time.time() - t0
    run.log = open(bx.tmp + "/log", encoding="latin-1").read() if os.path.exists(bx.tmp + "/log") else ""
    run.err = out.decode("latin-1")
    run.after = {p: t.decode("latin-1") for p, t in bx.tree().items()}
    net = bx.host("/.sim/net.log")
    run.net = [l.split("\t") for l in open(net, encoding="latin-1").read().splitlines()] if os.path.exists(net) else []
    run.out = open(bx.tmp + "/out", encoding="latin-1").read()
    run.readers = [open(bx.tmp + "/out%d" % (i + 1), encoding="latin-1").read() if os.path.exists(bx.tmp + "/out%d" % (i + 1)) else "" for i in range(len(r["readers"]))]
    parse(run)
    return run


def unesc(s):
    return re.sub(r"%(..)", lambda m: chr(int(m.group(1), 16)), s)


def parse(run):
    run.end, run.exit, run.fired, run.events = "error", {}, {}, []
    run.steps = run.muts = 0
    run.clk = (0, 0)
    run.sched = ""
    for l in run.log.splitlines():
        w = l.split(" ")
        if w[0] == "END":
            run.end = w[1]
            run.steps, run.muts, run.tasks = int(w[3]), int(w[5]), int(w[9])
            run.clk = (int(w[12]), int(w[13]))
            run.sched = w[15]
        elif w[0] == "EXIT":
            run.exit[int(w[1])] = int(w[2])
        elif w[0] == "FIRED":
            run.fired[w[1]] = int(w[2])
        elif w[0] == "M":
            run.events.append(("M", int(w[1]), w[3], unesc(w[4])))
        elif w[0] == "F":
            rest = l.split(" ", 2)[2]
            m = re.match(r"(.*) (absent|other|\d+ [0-9a-f]{16})$", rest)
            run.events.append(("F", int(w[1]), m.group(1), m.group(2)))
        elif w[0] == "I":
            run.events.append(("I", int(w[1]), w[2], unesc(w[3])))
        elif w[0] == "X":
            run.events.append(("X", int(w[1]), int(w[2]), [unesc(x) for x in w[3:]]))
        elif w[0] == "O":
            run.events.append(("O", int(w[1]), int(w[2]), unesc(w[3])))
        elif w[0] == "S":
            run.events.append(("S", int(w[1]), int(w[3]), int(w[5])))
        elif w[0] == "C":
            run.events.append(("C", int(w[1]), unesc(w[2])))
        elif w[0] in "KDBJ":
            run.events.append((w[0], l))


# ------------------------------------------------------------------ oracles
def attempts(run):
    """requests in order: (url, result)"""
    out, open_ = [], {}
    for n in run.net:
        if n[0] == "GET":
            open_[n[2]] = len(out)
            out.append([n[1], "none"])
        elif n[0] == "END" and n[2] in open_:
            out[open_[n[2]]][1] = n[1]
    return out


def undisturbed(r):
    return not r["faults"] and not r["kill"]


def in_dir(tree, d):
    return {p[len(d) + 1:]: t for p, t in tree.items() if p.startswith(d + "/") and "/" not in p[len(d) + 1:]}


def days(run, r):
    lo, hi = min(run.clk[0], r["clock"][0]) // 86400, max(run.clk[1], r["clock"][0]) // 86400
    return sorted({lo, hi} | set(range(lo, min(hi, lo + 40) + 1)))


def oracles(bx, tools, sc, r, run, runs, viol):
    d = sc["dir"]
    bad = sc.get("bad")
    if bad == "fault" and any(e[0] == "C" and e[2] == d for e in run.events):
        bad = None                               # it got there at the second attempt
    add = lambda p, cls, msg: viol.append({"property": p, "class": cls, "msg": "run %d: %s" % (len(runs) - 1, msg)})
    old, new = in_dir(run.before, d), in_dir(run.after, d)
    done = run.end == "done"
    # ---- R04: where anything was changed
    for e in run.events:
        if e[0] == "M":
            p = e[3]
            if p.startswith("!"):
                p = "(outside the scratch root) " + p
            inside = p.startswith(d + "/") and not bad
            logf = p.startswith("/tmp/tle_") or p == "/tmp" or (p.startswith("/tmp/") and p not in run.before and p not in run.after) or p == "/dev/tty"
            if bad and logf:
                logf = False
            if not (inside or logf):
                add("R04", "outside", "%s of %s although the TLE directory is %s" % (e[2], p, "not there" if bad else d))
                break
    for p in sorted(set(run.before) | set(run.after)):
        if run.before.get(p) != run.after.get(p) and not (p.startswith(d + "/") and not bad) and not (p.startswith("/tmp/tle_") and not bad):
            if not r["kill"] or not p.startswith("/tmp/"):
                add("R04", "outside", "%s was %s although the TLE directory is %s" % (p, "created" if p not in run.before else "removed" if p not in run.after else "changed", "not there" if bad else d))
                break
    if bad:
        if done and run.exit.get(0) == 0:
            add("R04", "exit", "exit code 0 although the TLE directory cannot be entered")
        return
    if r.get("second") is not None:
        check_overlap(bx, tools, sc, r, run, runs, old, new, add)
        return
    if r["script"] == "retrieve":
        check_retrieve(bx, tools, sc, r, run, runs, old, new, add)
    if undisturbed(r) and done:
        check_counts(r, run, new, add)
    if sc["query"] and (done or run.end == "killed"):
        check_query(bx, tools, sc, r, run, runs, old, new, add)


def check_contents(sc, r, run, old, new, add, p1="R01", p2="R02"):
    """what the catalogues hold at the end (p1) and after every change (p2)"""
    d = sc["dir"]
    att = attempts(run)
    body = {u: o[6] for u, o in r["plan"].items()}
    good = {}                                    # file -> bodies of its complete transfers, in order
    maybe = {}                                   # empty successful bodies: stored or not
    for u, res in att:
        f = FILE_OF.get(u)
        if f and res == "ok":
            o = r["plan"][u]
            if o[3] == 0 or not body[u]:
                maybe.setdefault(f, []).append("")
            else:
                good.setdefault(f, []).append(body[u])
    # ---- R01: final contents
    for f in sorted(set(FILE_OF.values())):
        allowed = [old.get(f)] + good.get(f, []) + maybe.get(f, [])
        if new.get(f) not in allowed:
            what = "is gone" if f not in new else "holds %d bytes that are neither the stored catalogue nor a complete transfer of it" % len(new[f])
            src = [u for u in body if new.get(f) and body[u] == new[f] and FILE_OF[u] != f]
            if src:
                what = "holds the body received for " + src[0]
            add(p1, "content", "%s %s" % (f, what))
            break
    # ---- R02: at every instant
    known = {f: {key_of(old[f])} | {key_of(b) for b in good.get(f, [])} | ({key_of("")} if f in maybe else set()) for f in old if f.endswith(".txt") and f in FILE_OF.values()}
    cur = dict((f, key_of(old.get(f))) for f in set(FILE_OF.values()))
    texts = {}
    for f in set(FILE_OF.values()):
        for t in [old.get(f)] + good.get(f, []) + ([""] if f in maybe else []):
            texts[(f, key_of(t))] = t
    eph = {f: old[f] for f, _, _ in EPH if f in old}
    dd = days(run, r)
    special = key_of(old["special.txt"]) if "special.txt" in old else None
    for e in run.events:
        if e[0] != "F" or not e[2].startswith(d + "/"):
            continue
        f = e[2][len(d) + 1:]
        if f in known and e[3] not in known[f]:
            add(p2, "torn", "after change %d %s is %s" % (e[1], f, "absent" if e[3] == "absent" else "neither its old nor a complete new body (%s)" % e[3]))
            break
        if f in cur:
            cur[f] = e[3]
        if f.endswith(".txt") and f not in cur and f != "special.txt" and f in old and e[3] != key_of(old[f]):
            add(p2, "torn", "after change %d %s was altered" % (e[1], f))
            break
        if f == "special.txt" and "special.txt" in old:
            if e[3] == special:              # as it was
                continue
            special = e[3]
            src = dict(eph)
            unknown = False
            for s in ("science.txt", "stations.txt", "active.txt"):
                t = texts.get((s, cur[s]))
                if cur[s] != "absent" and t is None:
                    unknown = True
                if t is not None:
                    src[s] = t
            exp = None if unknown else special_models(src, dd)
            if exp and e[3] not in {key_of(x) for x in exp}:
                add(p2, "torn", "after change %d special.txt is %s" % (e[1], "absent" if e[3] == "absent" else "neither the old nor the complete new one (%s)" % e[3]))
                break
    return att, body, maybe, eph, dd


def check_overlap(bx, tools, sc, r, run, runs, old, new, add):
    """R08: a second run started while the first one, or what a kill left of it, is at work"""
    att, body, maybe, eph, dd = check_contents(sc, r, run, old, new, add, "R08", "R08")
    if run.end in ("deadlock", "too_long"):
        add("R08", "progress", "the runs never end (%s)" % run.end)
    if run.end != "done":
        return
    ex, ex2 = run.exit.get(0), run.exit.get(100)
    full = lambda n: all([u for u, _ in att].count(u) >= n for _, u, _ in TARGETS)
    want = (ex == 0) + (ex2 == 0)
    if not r["faults"] and not full(want):
        add("R08", "refused", "exit codes %s and %s, but not every catalogue was requested by %s" % (ex, ex2, "both runs" if want == 2 else "a run"))
    if not r["faults"] and not r["kill"] and want == 0:
        add("R08", "progress", "neither run did its work (exit codes %s and %s)" % (ex, ex2))
    if not r["faults"] and not r["kill"]:
        for f in sorted(set(FILE_OF.values())):
            last = [u for u, x in att if FILE_OF.get(u) == f and x == "ok"]
            if last and f not in maybe and new.get(f) not in [body[u] for u in last]:
                add("R08", "stored", "%s was transferred completely but is not what is stored" % f)
                break
        src = {f: t for f, t in new.items() if f in ("science.txt", "stations.txt", "active.txt") or f in [x[0] for x in EPH]}
        exp = special_models(src, dd)
        if exp and new.get("special.txt") not in exp:
            add("R08", "special", "special.txt is not the selection for day %d: %s" % (dd[0] + 40588, diff_of(min(special_models(src, dd[:1])), new.get("special.txt"))))


def check_retrieve(bx, tools, sc, r, run, runs, old, new, add):
    d = sc["dir"]
    done = run.end == "done"
    att, body, maybe, eph, dd = check_contents(sc, r, run, old, new, add)
    # ---- R02: recovery
    if len(runs) > 1 and done and undisturbed(r) and any(q["kill"] for q in sc["runs"][:len(runs) - 1]) and all(o[0] == "answer" and o[1] == 200 and o[2] == 0 and o[3] == -1 for o in r["plan"].values()):
        for _, u, f in TARGETS:
            if f in ("iridium-NEXT.txt", "gps-ops.txt") and u.startswith(U_GROUP):
                continue
            if new.get(f) != body[u] and r["plan"][u][4] < 5000:
                add("R02", "recovery", "after a killed and a complete run %s is not the new body" % f)
                break
        allowed = set(runs[0].before) | {d + "/" + f for f in set(FILE_OF.values()) | {"special.txt", "cur_norad_ids.lis", "cur_tlesat_count.php"}}
        extra = [p for p in run.after if p.startswith(d + "/") and p.endswith((".txt", ".lis", ".php")) and p not in allowed]
        if extra:
            add("R02", "recovery", "after a killed and a complete run there is a further file %s" % extra[0])
    # ---- R03: every catalogue once, stored if complete, logged
    if done and undisturbed(r) and not r["jumps"]:
        for f in sorted(set(FILE_OF.values())):
            o = {u: r["plan"][u] for _, u, g in TARGETS if g == f and u in r["plan"]}
            if all(x[:4] == ["answer", 200, 0, -1] and x[4] < 5000 and x[6] for x in o.values()) and new.get(f) not in [x[6] for x in o.values()]:
                add("R03", "stored", "the server gave %s completely but it is not what is stored" % f)
                break
    if not r["kill"]:
        if not done:
            if run.end in ("deadlock", "too_long") and not any(f[0] in ("fork", "exec", "pipe_write") for f in r["faults"]):
                add("R03", "progress", "the run never ends (%s); last request %s" % (run.end, att[-1][0] if att else "none"))
            return
        if not any(k.split(":")[0] in ("fork", "exec", "pipe_write", "chdir", "unlink", "read", "read_open") for k in run.fired):
            seen = [u for u, _ in att]
            for _, u, f in TARGETS:
                if seen.count(u) != 1:
                    add("R03", "attempts", "%s was requested %d times" % (u, seen.count(u)))
                    break
            # faults lie between two requests
            seg, taint, logfault = -1, set(), False
            for e in run.events:
                if e[0] == "X" and e[3] and e[3][0].endswith("curl") and any("://" in a for a in e[3]):
                    seg += 1
                elif e[0] == "I":
                    taint |= {seg, seg + 1}
                    logfault |= e[3].startswith("/tmp/")
            tainted_urls = {att[i][0] for i in taint if 0 <= i < len(att)}
            for f in sorted(set(FILE_OF.values())):
                us = [u for _, u, g in TARGETS if g == f]
                res = {u: x for u, x in att}
                full = [u for u in us if res.get(u) == "ok"]
                if full and run.fired.get("timer") and r["plan"].get(full[-1], [0] * 5)[4] >= 5000:
                    continue          # a timer of the script ended it as it ended
                if full and full[-1] not in tainted_urls and f not in maybe and new.get(f) != body[full[-1]]:
                    add("R03", "stored", "%s was transferred completely but is not what is stored" % f)
                    break
            log = run.after.get("/tmp/tle_retrieve.log", "")
            if not logfault:
                rep = re.findall(r"===> (.+?) \.\.\.(.*)", log)
                names = {u: n for n, u, _ in TARGETS}
                if [n for n, _ in rep] != [names.get(u, "?") for u in seen]:
                    add("R03", "log", "the log names %d catalogues, %d were attempted, or in another order" % (len(rep), len(seen)))
                else:
                    said = dict(zip(seen, [x for _, x in rep]))
                    for u, x in said.items():
                        if x.strip() not in ("retrieved.", "retrieval failed."):
                            add("R03", "log", "the log says '%s' for %s" % (x, u))
                            break
                    for f in sorted(set(FILE_OF.values())):
                        us = [u for _, u, g in TARGETS if g == f and u in said]
                        us.sort(key=seen.index)
                        rs = [u for u in us if said[u].strip() == "retrieved."]
                        exp = old.get(f) if not rs else ("" if r["plan"][rs[-1]][3] == 0 else body[rs[-1]])
                        if new.get(f) != exp:
                            add("R03", "log", "the log says %s for %s, which was %s" % (", ".join("'" + said[u].strip() + "'" for u in us), f, "not replaced accordingly" if rs else "replaced"))
                            break
    # ---- R06: special.txt
    if done and undisturbed(r):
        src = {f: t for f, t in new.items() if f in ("science.txt", "stations.txt", "active.txt") or f in [x[0] for x in EPH]}
        exp = special_models(src, dd)
        got = new.get("special.txt")
        if exp and got not in exp:
            add("R06", "special", "special.txt is not the selection for day %d: %s" % (dd[0] + 40588, diff_of(min(special_models(src, dd[:1])), got)))
        elif got:
            sets, ids = counted(got)
            mjd = 40588 + dd[0] - .4
            q = query(tools, bx.host(d), ["special.txt", "-l0,0,0", "-p0,0", "-r181", "-j%.2f" % mjd, "-n0", "-H"])
            if sets and all(i.isdigit() for i in ids) and (q is None or q.get("status") != 0 or set(norads(q)) != set(map(int, ids))):
                add("R06", "read", "sat_skymap does not read the %d sets of special.txt: %s" % (sets, q and (q.get("status"), q.get("errmsg"), norads(q))))


def diff_of(a, b):
    if b is None:
        return "it is absent"
    x, y = a.split("\n"), b.split("\n")
    for i in range(max(len(x), len(y))):
        if (x[i] if i < len(x) else None) != (y[i] if i < len(y) else None):
            return "line %d is %r, expected %r" % (i + 1, y[i] if i < len(y) else None, x[i] if i < len(x) else None)
    return "same"


def check_counts(r, run, new, add):
    main = {n: counted(new[n + ".txt"]) for n in COUNT_MAIN + COUNT_SUPP if n + ".txt" in new}
    deb = {n: counted(new[n + ".txt"]) for n in DEB if n + ".txt" in new}
    ids = sorted({i for _, l in main.values() for i in l})
    tot = len(ids) + sum(n for n, _ in deb.values())
    for path, want in (("/tmp/tle_satcount.log", main), ("/tmp/tle_satcount_deb.log", deb)):
        got = [l.split() for l in run.after.get(path, "").splitlines()]
        if sorted(got) != sorted([n, str(c)] for n, (c, _) in want.items()):
            bad = [x for x in got if x not in [[n, str(c)] for n, (c, _) in want.items()]] or [n for n in want if n not in [g[0] for g in got]] or ["an entry twice"]
            add("R05", "log", "%s does not give the counts: %s" % (path, bad[0]))
            return
    lis = new.get("cur_norad_ids.lis", "").split("\n")
    if lis and lis[-1] == "":
        lis.pop()
    if sorted(lis) != ids:
        add("R05", "ids", "cur_norad_ids.lis holds %d numbers (%d distinct), the catalogues %d" % (len(lis), len(set(lis)), len(ids)))
        return
    php = new.get("cur_tlesat_count.php", "")
    m = re.match(r"<\?php\s+\$my_satcount_arr = array\(\s(.*)\);\s*\?>\s*$", php, re.S)
    ent = re.findall(r"""["']([^"']+)["'] => (-?\d*) *(,?)""", m.group(1)) if m else []
    want = [(n, str(c)) for n, (c, _) in list(main.items()) + list(deb.items())] + [("@ALL_merged_nodeb", str(len(ids))), ("@ALL_merged", str(tot))]
    if not m or sorted((a, b) for a, b, _ in ent) != sorted(want) or any(not c for _, _, c in ent[:-1]):
        bad = sorted(set((a, b) for a, b, _ in ent) ^ set(want))
        add("R05", "php", "cur_tlesat_count.php does not give the counts: %s" % (bad[:2] or "not an array"))


def query(tools, cwd, args):
    try:
        p = subprocess.run([tools + "/sat_skymap"] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    except subprocess.TimeoutExpired:
        return None
    try:
        j = json.loads(p.stdout.decode("latin-1"))
        j["exit"] = p.returncode
        j["raw"] = p.stdout.decode("latin-1")
        return j
    except ValueError:
        return None


def check_query(bx, tools, sc, r, run, runs, old, new, add):
    d = sc["dir"]
    first = sc["runs"][0]
    if runs[0].end != "done" or not undisturbed(first) or any(o[:4] not in (["answer", 200, 0, -1],) or o[4] >= 5000 or not o[6] for o in first["plan"].values()):
        return                                   # the promise starts with a complete update
    for lis in sc["query"]:
        if lis not in new:
            continue
        names = new[lis].split()
        q = query(tools, bx.host(d), ["@" + lis] + QUERY)
        ids = sorted({int(i) for n in names if n in new for i in counted(new[n])[1]})
        missing = [n for n in names if n not in new]
        if missing:
            add("R07", "missing", "%s names %s, which no update brings" % (lis, missing[0]))
        elif q is None or q.get("status") != 0 or q["exit"] != 0:
            add("R07", "query", "query of %s: %s" % (lis, "no report" if q is None else (q["status"], q["errmsg"])))
        else:
            got = norads(q)
            if sorted(got) != ids:
                add("R07", "query", "query of %s reports other satellites than the catalogues hold: %s" % (lis, sorted(set(got) ^ set(ids))[:3]))
    if len(runs) < 2:
        return
    # readers that ran while the update did
    for i, (m, lis) in enumerate(r["readers"]):
        if run.exit.get(i + 1) is None or run.exit[i + 1] != 0:
            if 0 <= run.exit.get(i + 1, -1) < 256 or (run.exit.get(i + 1, -1) >= 256 and run.end != "killed"):
                q = run.readers[i]
                e = re.search(r'"errmsg": "([^"]*)"', q)
                add("R07", "reader-fails", "query of %s started after change %d fails: %s" % (lis, m, e.group(1) if e else q[:100]))
            continue
        state = {f: t for f, t in old.items()}
        texts = {}
        att = attempts(run)
        for u, res in att:
            if FILE_OF.get(u):
                texts[(FILE_OF[u], key_of(r["plan"][u][6]))] = r["plan"][u][6]
        task, snap, bad = None, {}, False
        for e in run.events:
            if e[0] == "S" and e[3] == i + 1:
                task = e[2]
            elif e[0] == "F" and e[2].startswith(d + "/"):
                f = e[2][len(d) + 1:]
                if e[3] == "absent":
                    state.pop(f, None)
                elif e[3] == key_of(old.get(f)):
                    state[f] = old[f]
                elif (f, e[3]) in texts:
                    state[f] = texts[(f, e[3])]
                else:
                    state[f] = None
            elif e[0] == "O" and e[2] == task:
                f = e[3][len(d) + 1:]
                snap[f] = state.get(f)
                bad |= snap[f] is None
        if bad or not snap:
            continue
        s = os.path.join(bx.tmp, "snap")
        shutil.rmtree(s, ignore_errors=True)
        os.makedirs(s)
        for f, t in snap.items():
            with open(os.path.join(s, f), "wb") as h:
                h.write(t.encode("latin-1"))
        q = query(tools, s, ["@" + lis] + QUERY)
        strip = lambda t: re.sub(r'"run_command": "[^"]*"', "", t)
        if q is None or strip(q["raw"]) != strip(run.readers[i]):
            add("R07", "reader", "query of %s started after change %d does not report the catalogues it opened" % (lis, m))
        shutil.rmtree(s, ignore_errors=True)


def norads(q):
    return [x["norad_n"] for x in q.get("satellites", [])]


# ------------------------------------------------------------------ driver
def fingerprint(runs):
    return hashlib.sha256("\0".join(r.log + r.out for r in runs).encode("latin-1", "replace")).hexdigest()[:16]


def judge(bx, tools, sc, prop):
    runs, viol = execute(bx, tools, sc)
    mine = [v for v in viol if v["property"] == prop]
    return runs, mine


def worker(base, n, tools, prop, seed, budget, q, limit):
    try:
        signal.signal(signal.SIGTERM, lambda *a: os._exit(1))
        bx = B.Box(base, n)
        known = [k for k, _ in known_findings(prop)]
        t0, k = time.time(), 0
        st = {"scenarios": 0, "runs": 0, "tasks": 0, "steps": 0, "changes": 0, "sim_s": 0, "faults": {}, "sched": set(), "ends": {}, "net": {}, "kills": 0, "readers": 0, "requests": 0, "errors": [], "known": {}, "behaviours": set(), "wall": 0.0}
        found = None
        while time.time() - t0 < budget and (not limit or k < limit):
            sc = gen(prop, seed * 1000003 + n + 64 * k)
            k += 1
            runs, mine = judge(bx, tools, sc, prop)
            st["scenarios"] += 1
            for r, x in zip(runs, sc["runs"]):
                st["runs"] += 1
                st["wall"] += r.wall
                st["tasks"] += getattr(r, "tasks", 0)
                st["steps"] += r.steps
                st["changes"] += r.muts
                st["sim_s"] += max(0, r.clk[1] - r.clk[0])
                st["sched"].add(r.sched)
                st["ends"][r.end] = st["ends"].get(r.end, 0) + 1
                st["readers"] += len(x["readers"])
                for f, c in r.fired.items():
                    st["faults"][f] = st["faults"].get(f, 0) + c
                for u, e in attempts(r):
                    st["requests"] += 1
                    st["net"][e] = st["net"].get(e, 0) + 1
                st["behaviours"].add(hashlib.sha256(repr((r.end, r.exit, sorted(r.fired), tuple(e[1:3] if e[0] == "M" else e[0] for e in r.events if e[0] in "MIK"), [x[1] for x in attempts(r)])).encode("latin-1", "replace")).hexdigest()[:12])
                if r.end in ("stuck", "error"):
                    st["errors"].append(r.err[-300:] or r.end)
            for v in mine:
                kk = next((x for x in known if (v["class"] + " " + v["msg"]).find(x) >= 0), None)
                if kk:
                    st["known"][kk] = st["known"].get(kk, 0) + 1
                elif not found:
                    found = (sc, v)
            if found or len(st["errors"]) > 20:
                break
        st["sched"] = list(st["sched"])
        st["behaviours"] = list(st["behaviours"])
        q.put((n, st, found))
    except Exception:
        q.put((n, None, traceback.format_exc()))


def same(bx, tools, sc, prop, cls):
    """the violation's first occurrence under this scenario, or None"""
    runs, mine = judge(bx, tools, sc, prop)
    for v in mine:
        if v["class"] == cls:
            return v, fingerprint(runs)
    return None


def minimise(bx, tools, sc, prop, cls, seconds):
    t0 = time.time()
    cur = json.loads(json.dumps(sc))

    def attempt(f):
        nonlocal cur
        if time.time() - t0 > seconds:
            return False
        c = json.loads(json.dumps(cur))
        try:
            if f(c) is False:
                return False
        except (KeyError, IndexError):
            return False
        if c == cur:
            return False
        if same(bx, tools, c, prop, cls):
            cur = c
            return True
        return False

    k = 0
    while k < len(cur["runs"]) and len(cur["runs"]) > 1:
        if not attempt(lambda c: c["runs"].pop(k)):
            k += 1
    for k in range(len(cur["runs"])):
        for fld in ("faults", "shorts", "jumps", "stalls", "readers"):
            if cur["runs"][k][fld]:
                attempt(lambda c: c["runs"][k].__setitem__(fld, []))
                i = 0
                while i < len(cur["runs"][k][fld]) and len(cur["runs"][k][fld]) > 1:
                    if not attempt(lambda c: c["runs"][k][fld].pop(i)):
                        i += 1
        attempt(lambda c: c["runs"][k].__setitem__("kill", None))
        attempt(lambda c: c["runs"][k].__setitem__("sched", [1, 0]))
        attempt(lambda c: c["runs"][k].__setitem__("tz", None))
        # transfers that need not be bad: halves, then single ones
        bad = lambda: [u for u, o in cur["runs"][k]["plan"].items() if o[:4] != ["answer", 200, 0, -1]]

        def heal(us):
            def f(c):
                for u in us:
                    c["runs"][k]["plan"][u][:6] = ["answer", 200, 0, -1, 20, 0]
            return f
        chunk = max(1, len(bad()))
        while bad() and chunk >= 1 and time.time() - t0 < seconds:
            l = bad()
            hit = False
            for i in range(0, len(l), chunk):
                hit |= attempt(heal(l[i:i + chunk]))
            if chunk == 1 and not hit:
                break
            chunk = max(1, chunk // 2) if chunk > 1 else 0
    names = [x for x in cur["files"] if not x.endswith(".lis")]
    chunk = max(1, len(names) // 2)
    while chunk >= 1 and time.time() - t0 < seconds:
        names = [x for x in cur["files"] if not x.endswith(".lis")]
        for i in range(0, len(names), chunk):
            attempt(lambda c: [c["files"].pop(x) for x in names[i:i + chunk]] and None)
        chunk //= 2
    return cur


def check(prop, tier, seed):
    tools = B.build_tools()
    base = B.base_dir()
    procs = []
    try:
        B.make_template(base, tools)
        budget = float(os.environ.get("SIM_SECONDS", BUDGET_P.get((prop, tier), BUDGET[tier])))
        nw = min(8, NCPU)
        q = multiprocessing.Queue()
        procs = [multiprocessing.Process(target=worker, args=(base, n, tools, prop, seed, budget, q, 0)) for n in range(nw)]
        for p in procs:
            p.start()
        res, deadline = [], time.time() + budget + 240
        stop = None
        while len(res) < nw and time.time() < deadline:
            try:
                r = q.get(timeout=5)
            except Exception:
                if all(not p.is_alive() for p in procs):
                    break
                continue
            res.append(r)
            if r[2] and r[1] is not None and stop is None:
                stop = r
                deadline = min(deadline, time.time() + 2)
        for p in procs:
            if p.is_alive():
                p.terminate()
            p.join()
        broken = [r[2] for r in res if r[1] is None]
        if broken:
            raise CheckError("simulator failed:\n" + broken[0])
        if not res:
            raise CheckError("simulator failed: no worker answered")
        tot = {"scenarios": 0, "runs": 0, "tasks": 0, "steps": 0, "changes": 0, "sim_s": 0, "readers": 0, "requests": 0}
        maps = {"faults": {}, "ends": {}, "net": {}, "known": {}}
        sched, beh, errs = set(), set(), []
        for _, st, _ in res:
            for k in tot:
                tot[k] += st[k]
            for m in maps:
                for k, v in st[m].items():
                    maps[m][k] = maps[m].get(k, 0) + v
            sched |= set(st["sched"])
            beh |= set(st["behaviours"])
            errs += st["errors"]
        if len(errs) > max(3, tot["runs"] // 50):
            raise CheckError("simulator failed in %d of %d runs: %s" % (len(errs), tot["runs"], errs[0]))
        for k, w in known_findings(prop):
            if maps["known"].get(k):
                say("KNOWN-FINDING: property=%s %s" % (prop, w))
        out = outdir(prop)
        viols = []
        if stop:
            sc, v = stop[2]
            bx = B.Box(base, 99)
            first, again = same(bx, tools, sc, prop, v["class"]), same(bx, tools, sc, prop, v["class"])
            for _ in range(4):                    # the supervisor races with nothing we know of, but a replay that differs is never taken for granted
                if first and first == again:
                    break
                say("note: a replay of this scenario differs: %s / %s" % (first, again))
                first, again = again, same(bx, tools, sc, prop, v["class"])
            if not first or not again:
                raise CheckError("a violation is not repeatable: %s\n%s\n%s" % (v, first, again))
            small = minimise(bx, tools, sc, prop, v["class"], 100 if tier == "quick" else 240)
            fin, fin2 = same(bx, tools, small, prop, v["class"]), same(bx, tools, small, prop, v["class"])
            if not fin or fin != fin2:
                small, fin = sc, first
            path = os.path.join(out, "%s-%s.json" % (prop, fin[0]["class"]))
            small["violation"] = fin[0]
            small["fingerprint"] = fin[1]
            with open(path, "w") as f:
                json.dump(small, f, indent=1)
            say("VIOLATION property=%s replay=%s" % (prop, path))
            say("  %s: %s" % (fin[0]["class"], fin[0]["msg"]))
            say("  replay with: %s/check.py replay %s" % (VERIF, path))
            viols = [{"class": fin[0]["class"], "what": fin[0]["msg"], "replay": path}]
        wall = time.time() - T0
        cov = {"scenarios": tot["scenarios"], "simulated_runs": tot["runs"], "seeds_per_hour": int(tot["scenarios"] * 3600 / max(budget, 1)), "runs_per_hour": int(tot["runs"] * 3600 / max(budget, 1)),
               "simulated_seconds": int(tot["sim_s"]), "processes": tot["tasks"], "scheduling_steps": tot["steps"], "file_changes_observed": tot["changes"], "requests": tot["requests"], "concurrent_readers": tot["readers"],
               "faults_injected": maps["faults"], "transfer_ends": maps["net"], "run_ends": maps["ends"],
               "distinct_interleavings": len(sched), "interleaving_measure": "hash over (process, system call) of every scheduling step",
               "distinct_behaviours": len(beh), "behaviour_measure": "hash of the order of file changes, faults and transfer ends of a run",
               "real_components": ["tle_retrieve.sh", "tle_satcount.sh", "bash, coreutils, awk of this machine", "sat_skymap (make in src)", "Linux file system (tmpfs)"],
               "stubbed_components": ["curl and the network (scr/curl.c)", "clock", "process scheduling order"]}
        write_evidence(prop, tier, seed, cov, viols, assumptions=["the model of curl: file created with the first byte, exit codes and -w output as documented", "kill = SIGKILL of processes; the kernel and its file cache survive"])
        say("%s: %d scenarios, %d simulated runs, %d interleavings, %d behaviours, %s" % (prop, tot["scenarios"], tot["runs"], len(sched), len(beh), "VIOLATION" if viols else "no violation"))
        return 1 if viols else 0
    finally:
        for p in procs:
            if p.is_alive():
                p.terminate()
        shutil.rmtree(base, ignore_errors=True)


def replay(path):
    sc = json.load(open(path))
    tools = B.build_tools()
    base = B.base_dir()
    try:
        B.make_template(base, tools)
        bx = B.Box(base, 0)
        runs, mine = judge(bx, tools, sc, sc["prop"])
        for r in runs:
            say("---- run: end %s exit %s" % (r.end, r.exit.get(0)))
            for l in r.log.splitlines():
                if l[:2] in ("M ", "F ", "I ", "K ", "B ", "J ", "R ", "EN", "EX", "FI"):
                    say(l)
            say(r.out[-1500:] + r.err)
        for v in mine:
            say("BAD %s: %s" % (v["class"], v["msg"]))
        fp = fingerprint(runs)
        say("fingerprint %s%s" % (fp, "" if fp == sc.get("fingerprint") else " (recorded %s)" % sc.get("fingerprint")))
        return 1 if mine else 0
    finally:
        shutil.rmtree(base, ignore_errors=True)
