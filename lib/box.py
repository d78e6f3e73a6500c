"""Scratch roots for the script simulator: a minimal system (the real bash, coreutils, awk ... of this machine, the
simulated curl, the clock library, sat_skymap and the scripts of /repo) in a directory the check creates and removes."""
import os, re, shutil, stat, subprocess, tempfile
from .common import *

SCR = os.path.join(VERIF, "scr")
EXTRA = ["bash", "sh", "dash", "mawk", "grep", "egrep", "fgrep", "sed", "find", "xargs", "diff", "cmp", "flock", "tar", "gzip", "getopt", "col", "column", "which", "hostname"]


def build_tools():
    """runner, curl, clock library, sat_skymap from the present tree; returns their directory"""
    d = os.path.join(BUILD, "scr")
    os.makedirs(d, exist_ok=True)
    with Lock("scr.lock"):
        for src, out, cmd in (("runner.cpp", "runner", ["g++", "-std=c++20", "-O2", "-Wall"]),
                              ("curl.c", "curl", ["gcc", "-O1", "-Wall", "-static"]),
                              ("simclock.c", "simclock.so", ["gcc", "-O1", "-Wall", "-shared", "-fPIC"])):
            p, o = os.path.join(SCR, src), os.path.join(d, out)
            key = file_hash([p], " ".join(cmd))
            if os.path.exists(o) and stamp_ok(o + ".key", key):
                continue
            r = sh(cmd + ["-o", o, p])
            if r.returncode:
                raise CheckError("compiling %s failed:\n%s" % (src, r.stdout[-3000:]))
            open(o + ".key", "w").write(key)
        loc = os.path.join(d, "locale")          # one with other month names and a decimal comma; without localedef the runs have C only
        if not os.path.isdir(loc):
            t = tempfile.mkdtemp(prefix="locale", dir=d)
            try:
                for l in ("de_DE", "C"):
                    subprocess.run(["localedef", "-i", l, "-f", "UTF-8", "--no-archive", os.path.join(t, l + ".UTF-8")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except OSError:
                pass
            os.rename(t, loc)
        src = os.path.join(REPO, "src")
        key = tree_hash(src, os.path.join(REPO, "HealpixC"))
        o = os.path.join(d, "sat_skymap")
        if not (os.path.exists(o) and stamp_ok(o + ".key", key)):
            t = tempfile.mkdtemp(prefix="satsrc", dir=BUILD)
            try:
                shutil.copytree(src, os.path.join(t, "src"))
                shutil.copytree(os.path.join(REPO, "HealpixC"), os.path.join(t, "HealpixC"))
                sh(["make", "-C", os.path.join(t, "src"), "clean"])
                r = sh(["make", "-C", os.path.join(t, "src")])
                b = os.path.join(t, "src", "sat_skymap")
                if not os.path.exists(b):
                    raise CheckError("building sat_skymap failed:\n" + r.stdout[-3000:])
                shutil.copy(b, o + ".new")
                os.rename(o + ".new", o)
                open(o + ".key", "w").write(key)
            finally:
                shutil.rmtree(t, ignore_errors=True)
    return d


def _libs(path, seen):
    r = subprocess.run(["ldd", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    for m in re.finditer(r"(/\S+) \(0x", r.stdout):
        seen.add(m.group(1))


def _runs_programs(d):
    try:
        p = os.path.join(d, ".execprobe%d" % os.getpid())
        shutil.copy("/bin/true" if os.path.exists("/bin/true") else "/usr/bin/true", p)
        os.chmod(p, 0o755)
        ok = subprocess.run([p]).returncode == 0
        os.unlink(p)
        return ok
    except OSError:
        return False


def base_dir():
    for d in ("/dev/shm", "/tmp", BUILD):
        if os.path.isdir(d) and _runs_programs(d):
            return tempfile.mkdtemp(prefix="satbox.", dir=d)
    raise CheckError("no directory for scratch roots")


def make_template(base, tools):
    t = os.path.join(base, "template")
    os.makedirs(t + "/usr/bin"); os.makedirs(t + "/usr/local/bin"); os.makedirs(t + "/etc")
    os.symlink("usr/bin", t + "/bin")
    progs = list(EXTRA)
    r = subprocess.run(["dpkg", "-L", "coreutils"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    progs += [os.path.basename(l) for l in r.stdout.splitlines() if re.match(r"(/usr)?/bin/[^/]+$", l)]
    if len(progs) < 60:
        progs += "cat chmod cp cut date dirname basename echo env expr false head id ln ls mkdir mktemp mv nl od paste printf pwd readlink realpath rm rmdir seq sleep sort stat sync tac tail tee test timeout touch tr true truncate uname uniq wc".split()
    libs = set()
    for p in sorted(set(progs)):
        for b in ("/usr/bin/", "/bin/"):
            if os.path.exists(b + p):
                shutil.copy(os.path.realpath(b + p), t + "/usr/bin/" + p)
                _libs(b + p, libs)
                break
    shutil.copy(t + "/usr/bin/mawk", t + "/usr/bin/awk") if os.path.exists(t + "/usr/bin/mawk") else shutil.copy(os.path.realpath("/usr/bin/awk"), t + "/usr/bin/awk")
    shutil.copy(tools + "/sat_skymap", t + "/usr/local/bin/sat_skymap")
    _libs(tools + "/sat_skymap", libs)
    shutil.copy(tools + "/curl", t + "/usr/bin/curl")
    for l in libs:
        os.makedirs(t + os.path.dirname(l), exist_ok=True)
        shutil.copy(os.path.realpath(l), t + l)
    os.makedirs(t + "/usr/lib", exist_ok=True)
    shutil.copy(tools + "/simclock.so", t + "/usr/lib/simclock.so")
    open(t + "/etc/ld.so.preload", "w").write("/usr/lib/simclock.so\n")
    if os.path.isdir(tools + "/locale"):
        shutil.copytree(tools + "/locale", t + "/usr/lib/locale")
    for s in os.listdir(os.path.join(REPO, "scripts")):
        if s.endswith(".sh"):
            shutil.copy(os.path.join(REPO, "scripts", s), t + "/usr/local/bin/" + s)
            os.chmod(t + "/usr/local/bin/" + s, 0o755)
    return t


class Box:
    """one scratch root"""

    def __init__(self, base, n):
        self.base, self.n = base, n
        self.root = os.path.join(base, "r%d" % n)
        self.tmp = os.path.join(base, "w%d" % n)
        os.makedirs(self.tmp)
        subprocess.check_call(["cp", "-al", os.path.join(base, "template"), self.root])
        self.keep = set(os.listdir(self.root))
        self.keep_local = set(os.listdir(self.root + "/usr/local"))

    def clear(self):
        for e in os.listdir(self.root):
            if e not in self.keep:
                self._rm(os.path.join(self.root, e))
        for e in os.listdir(self.root + "/usr/local"):
            if e not in self.keep_local:
                self._rm(os.path.join(self.root, "usr/local", e))
        for d in ("/tmp", "/.sim", "/root"):
            os.makedirs(self.root + d)

    @staticmethod
    def _rm(p):
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)

    def host(self, p):
        return self.root + p

    def put(self, p, data):
        h = self.root + p
        os.makedirs(os.path.dirname(h), exist_ok=True)
        with open(h, "wb") as f:
            f.write(data)

    def tree(self, skip=()):
        """all regular files outside the system part: path -> bytes"""
        out = {}
        for b, ds, fs in os.walk(self.root):
            r = b[len(self.root):] or "/"
            if r == "/":
                ds[:] = [d for d in ds if d not in ("bin", "lib", "lib64", "etc", ".sim")]
            if r == "/usr":
                ds[:] = ["local"]
            if r == "/usr/local":
                ds[:] = [d for d in ds if d != "bin"]
            for f in fs:
                p = os.path.join(b, f)
                if os.path.islink(p):
                    out[p[len(self.root):]] = b"-> " + os.readlink(p).encode()
                elif stat.S_ISREG(os.lstat(p).st_mode):
                    out[p[len(self.root):]] = open(p, "rb").read()
        return out
