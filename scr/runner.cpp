// scriptsim runner: runs a set of shell scripts / programs under a deterministic scheduler.
// Every interesting system call of every process stops (seccomp user notification); exactly one process runs at a
// time, picked by a seeded PRNG; the supervisor injects faults, moves the simulated clock, kills, and logs every
// change of a file.  The processes live in a scratch root (chroot in a user + pid namespace of their own).
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/openat2.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
typedef std::string str;
static void die(const char *f, ...) { va_list a; va_start(a, f); fprintf(stderr, "runner: "); vfprintf(stderr, f, a); fprintf(stderr, " (%s)\n", strerror(errno)); va_end(a); _exit(99); }
static str fmt(const char *f, ...) { char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } uint64_t below(uint64_t n) { return n ? next() % n : 0; } };
struct Fault { str op; long n; int err; long count; str sub; long seen = 0; };
struct Jump { long mut; long sec; bool done = false; };
struct Stall { int root; long mut, steps; bool on = false; };
struct Short { long n; long bytes; };
struct Root { int id; long start_mut; str cwd; std::vector<str> argv, env; str out; bool main = false; bool started = false; int status = -1; };
struct Task { pid_t pid; int id; int parent; int root; enum { RUN, HELD, VFORK, DEAD } st = RUN; seccomp_notif req; int pidfd = -1; int lfd = -1; bool await_child = false; bool reaped_by_parent = false; pid_t vpid = 0; int64_t wake = -1, alarm = -1, again = 0; int alarm_kind = 0; };

static str root, watch, logname; static int rootfd;
static long clk_s = 1700000000, clk_ns = 0, tick = 1000000, max_steps = 2000000;
static Rng rng{1}, entropy{77}; static long switch_pm = 100;
static std::vector<Fault> faults; static std::vector<Short> shorts; static std::vector<Jump> jumps; static std::vector<Stall> stalls; static long clk_min = 1L << 60, clk_max = 0; static std::vector<Root> roots;
static long kill_mut = -1, kill_partial = -1; static str kill_mode = "all";
static std::vector<Task> tasks; static std::map<pid_t, int> bypid;
static long steps = 0, muts = 0, reg_writes = 0; static std::map<str, long> opcount, fired;
static str logbuf; static std::set<str> dirty; static str ns_err; static bool killed = false; static pid_t init_pid;
static uint64_t sched_hash = 1469598103934665603ull;
// a point of the run: n = when n files were changed, k * 1000000 + n = n changes after the start of the k-th program given a URL
static std::vector<long> requests;
static long point(long v) { if (v < 1000000) return v; size_t k = v / 1000000; return k <= requests.size() ? requests[k - 1] + v % 1000000 : 1L << 60; }
static void log_(const str &s) { logbuf += s; logbuf += '\n'; }

static const int watched[] = {
  __NR_execve, __NR_execveat, __NR_clone, __NR_fork, __NR_vfork, __NR_clone3, __NR_exit_group, __NR_exit, __NR_wait4, __NR_waitid,
  __NR_open, __NR_openat, __NR_openat2, __NR_creat, __NR_rename, __NR_renameat, __NR_renameat2, __NR_unlink, __NR_unlinkat, __NR_rmdir, __NR_mkdir, __NR_mkdirat,
  __NR_link, __NR_linkat, __NR_symlink, __NR_symlinkat, __NR_truncate, __NR_ftruncate, __NR_fallocate, __NR_chmod, __NR_fchmod, __NR_fchmodat, __NR_chown, __NR_fchown, __NR_lchown, __NR_fchownat,
  __NR_utimensat, __NR_utime, __NR_utimes, __NR_mknod, __NR_mknodat, __NR_setxattr, __NR_write, __NR_pwrite64, __NR_writev, __NR_pwritev, __NR_sendfile, __NR_copy_file_range, __NR_splice, __NR_read, __NR_readv, __NR_chdir, __NR_fchdir,
  __NR_clock_gettime, __NR_gettimeofday, __NR_time, __NR_nanosleep, __NR_clock_nanosleep, __NR_pause, __NR_rt_sigsuspend, __NR_socket, __NR_kill, __NR_tgkill, __NR_tkill, __NR_chroot, __NR_mount, __NR_unshare, __NR_ptrace, __NR_setns, __NR_pivot_root, __NR_flock, __NR_getrandom, __NR_timer_settime, __NR_timer_delete, __NR_setitimer, __NR_alarm};

static int install_filter() {
  std::vector<sock_filter> f;
  f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)));
  size_t n = sizeof watched / sizeof *watched;
  for (size_t i = 0; i < n; i++) f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)watched[i], (unsigned char)(n - i), 0));
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_USER_NOTIF));
  sock_fprog p{(unsigned short)f.size(), f.data()};
  return syscall(__NR_seccomp, SECCOMP_SET_MODE_FILTER, SECCOMP_FILTER_FLAG_NEW_LISTENER | (1UL << 5) /* WAIT_KILLABLE_RECV */, &p);
}

// ---------------------------------------------------------------- memory and paths of a stopped process
static bool peek(pid_t pid, uint64_t addr, void *buf, size_t n) { iovec l{buf, n}, r{(void *)addr, n}; return process_vm_readv(pid, &l, 1, &r, 1, 0) == (ssize_t)n; }
static bool poke(pid_t pid, uint64_t addr, const void *buf, size_t n) { iovec l{(void *)buf, n}, r{(void *)addr, n}; return process_vm_writev(pid, &l, 1, &r, 1, 0) == (ssize_t)n; }
static str peek_str(pid_t pid, uint64_t addr) {
  str s; char b[256];
  if (!addr) return s;
  while (s.size() < 8192) {
    size_t n = 256 - (addr & 255);
    iovec l{b, n}, r{(void *)addr, n}; ssize_t k = process_vm_readv(pid, &l, 1, &r, 1, 0);
    if (k <= 0) break;
    void *z = memchr(b, 0, k);
    if (z) { s.append(b, (char *)z - b); return s; }
    s.append(b, k); addr += k;
  }
  return s;
}
static str link_of(const str &p) { char b[4096]; ssize_t n = readlink(p.c_str(), b, sizeof b - 1); return n < 0 ? "" : str(b, n); }
static str inside(const str &host) { return host.compare(0, root.size(), root) == 0 && (host.size() == root.size() || host[root.size()] == '/') ? (host.size() == root.size() ? "/" : host.substr(root.size())) : "!" + host; }
static str cwd_of(pid_t pid) { return inside(link_of(fmt("/proc/%d/cwd", pid))); }
static str fd_path(pid_t pid, int fd) { str s = link_of(fmt("/proc/%d/fd/%d", pid, fd)); if (s.size() > 10 && s.compare(s.size() - 10, 10, " (deleted)") == 0) return "deleted"; return s.size() && s[0] == '/' ? inside(s) : s; }
// the file a path names, links in its directory part resolved, inside the scratch root
static str resolve(pid_t pid, int dirfd, const str &p) {
  str full = p.size() && p[0] == '/' ? p : (dirfd == AT_FDCWD ? cwd_of(pid) : fd_path(pid, dirfd)) + "/" + p;
  while (full.size() > 1 && full.back() == '/') full.pop_back();
  size_t k = full.rfind('/'); str dir = full.substr(0, k), base = full.substr(k + 1);
  if (base == "." || base == "..") { dir = full; base = ""; }
  open_how h{}; h.flags = O_PATH | O_DIRECTORY; h.resolve = RESOLVE_IN_ROOT;
  str rel = dir.empty() ? "." : "." + dir;
  int fd = syscall(__NR_openat2, rootfd, rel.c_str(), &h, sizeof h);
  if (fd < 0) return full;
  str d = inside(link_of(fmt("/proc/self/fd/%d", fd))); close(fd);
  if (base.empty()) return d;
  return d == "/" ? "/" + base : d + "/" + base;
}
static int dup_fd(Task &t, int fd) { return syscall(__NR_pidfd_getfd, t.pidfd, fd, 0); }

// ---------------------------------------------------------------- state of files
static void file_state(const str &p) {
  str h = root + p; struct stat st;
  if (lstat(h.c_str(), &st)) { log_("F " + fmt("%ld ", muts) + p + " absent"); return; }
  if (!S_ISREG(st.st_mode)) { log_("F " + fmt("%ld ", muts) + p + " other"); return; }
  int fd = open(h.c_str(), O_RDONLY); uint64_t x = 1469598103934665603ull; long n = 0; static char b[65536]; ssize_t k;
  if (fd >= 0) { while ((k = read(fd, b, sizeof b)) > 0) { for (ssize_t i = 0; i < k; i++) { x ^= (unsigned char)b[i]; x *= 1099511628211ull; } n += k; } close(fd); }
  log_("F " + fmt("%ld ", muts) + p + fmt(" %ld %016llx", n, (unsigned long long)x));
}
static void settle() { for (auto &p : dirty) if (p.compare(0, 6, "/.sim/")) file_state(p); dirty.clear(); }

// ---------------------------------------------------------------- starting processes
static void start_root(Root &r) {
  int *sh = (int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh[0] = -1; sh[1] = 0;
  pid_t p = fork();
  if (p < 0) die("fork");
  if (p == 0) {
    int in = open("/dev/null", O_RDONLY), out = open(r.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (out < 0) die("open %s", r.out.c_str());
    dup2(in, 0); dup2(out, 1); dup2(out, 2);
    for (int i = 3; i < 256; i++) close(i);
    setsid();
    signal(SIGPIPE, SIG_DFL);
    personality(ADDR_NO_RANDOMIZE);
    if (chroot(root.c_str()) || chdir("/")) die("chroot");
    if (chdir(r.cwd.c_str())) die("chdir %s", r.cwd.c_str());
    umask(022);
    rlimit rl{60, 60}; setrlimit(RLIMIT_CPU, &rl);
    rlimit rf{64 << 20, 64 << 20}; setrlimit(RLIMIT_FSIZE, &rf);
    rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
    std::vector<char *> a, e; for (auto &x : r.argv) a.push_back((char *)x.c_str()); a.push_back(0); for (auto &x : r.env) e.push_back((char *)x.c_str()); e.push_back(0);
    prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
    int fd = install_filter();
    __atomic_store_n(&sh[0], fd, __ATOMIC_SEQ_CST);
    while (!__atomic_load_n(&sh[1], __ATOMIC_SEQ_CST)) sched_yield();
    close(fd);
    execve(a[0], a.data(), e.data());
    _exit(127);
  }
  Task t; t.pid = p; t.id = tasks.size(); t.parent = -1; t.root = &r - roots.data(); t.st = Task::RUN;
  t.pidfd = syscall(__NR_pidfd_open, p, 0);
  int fd; while ((fd = __atomic_load_n(&sh[0], __ATOMIC_SEQ_CST)) == -1) { int st; if (waitpid(p, &st, WNOHANG) == p) die("start of %s failed", r.argv[0].c_str()); sched_yield(); }
  if (fd < 0) die("seccomp filter");
  t.lfd = syscall(__NR_pidfd_getfd, t.pidfd, fd, 0);
  if (t.lfd < 0) die("listener");
  __atomic_store_n(&sh[1], 1, __ATOMIC_SEQ_CST);
  bypid[p] = t.id; tasks.push_back(t); r.started = true;
  munmap(sh, 4096);
  log_(fmt("S %ld task %d root %d", muts, t.id, r.id));
}

static bool dead_child(Task &t) { for (auto &c : tasks) if (c.parent == t.id && c.st == Task::DEAD && !c.reaped_by_parent) return true; return false; }
static bool live_child(Task &t) { for (auto &c : tasks) if (c.parent == t.id && c.st != Task::DEAD) return true; return false; }
static void mark_dead(Task &t) {
  if (t.st == Task::DEAD) return;
  t.st = Task::DEAD;
  kill(0, 0);               // waits for the kernel's list of processes: the parent has been told
  bypid.erase(t.pid);
  for (auto &c : tasks) if (c.parent == t.id) { if (c.st == Task::DEAD) c.reaped_by_parent = true; c.parent = -2; }
  if (t.parent == -1) { int st = 0; waitpid(t.pid, &st, 0); roots[t.root].status = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st); }
  close(t.pidfd); t.pidfd = -1;
  for (auto &q : tasks) if (q.st == Task::VFORK && q.id == t.parent) q.st = Task::RUN;
}
// wait until nothing runs
static void quiesce() {
  time_t t0 = time(0);
  for (;;) {
    bool run = false;
    std::vector<pollfd> pf; std::vector<int> who;
    for (auto &t : tasks) { if (t.st == Task::RUN) { run = true; } }
    bool waiting_child = false;
    for (auto &t : tasks) waiting_child |= t.await_child && t.st != Task::DEAD;
    if (!run && !waiting_child) return;
    for (auto &t : tasks) if (t.lfd >= 0) { pf.push_back({t.lfd, POLLIN, 0}); who.push_back(-1); }
    for (auto &t : tasks) if (t.st == Task::RUN || t.st == Task::VFORK) { pf.push_back({t.pidfd, POLLIN, 0}); who.push_back(t.id); }
    int k = poll(pf.data(), pf.size(), 2000);
    if (k < 0 && errno != EINTR) die("poll");
    if (k == 0 && time(0) - t0 > 40) { log_("X stuck"); ns_err = "a process blocks outside the simulator"; return; }
    bool got = false;
    for (size_t i = 0; i < pf.size(); i++) if (who[i] == -1 && (pf[i].revents & POLLIN)) {
      seccomp_notif q; memset(&q, 0, sizeof q);
      if (ioctl(pf[i].fd, SECCOMP_IOCTL_NOTIF_RECV, &q)) { if (errno == ENOENT || errno == EINTR) continue; die("recv"); }
      got = true;
      auto it = bypid.find(q.pid);
      if (it == bypid.end()) {
        int par = -1; for (auto &t : tasks) if (t.await_child) { par = t.id; break; }
        Task t; t.pid = q.pid; t.id = tasks.size(); t.parent = par < 0 ? -2 : par; t.root = par < 0 ? 0 : tasks[par].root; t.pidfd = syscall(__NR_pidfd_open, q.pid, 0);
        if (par >= 0) tasks[par].await_child = false;
        t.st = Task::HELD; t.req = q; bypid[t.pid] = t.id;
        tasks.push_back(t);
        // the listener is shared: answer through the root's listener
      } else { Task &t = tasks[it->second]; t.req = q; t.st = Task::HELD; }
    }
    if (got) continue;
    for (size_t i = 0; i < pf.size(); i++) if (who[i] >= 0 && (pf[i].revents & POLLIN)) mark_dead(tasks[who[i]]);
  }
}
static int listener(Task &t);
static bool signalled = false;
// those a signal killed while they were held
static void note_killed() {
  if (!signalled) return;
  signalled = false;
  for (auto &t : tasks) if (t.st == Task::HELD) {
    bool dying = ioctl(listener(t), SECCOMP_IOCTL_NOTIF_ID_VALID, &t.req.id) != 0;
    std::ifstream f(fmt("/proc/%d/status", t.pid)); str l; unsigned long m = 0;
    while (!dying && std::getline(f, l)) if (sscanf(l.c_str(), "SigPnd: %lx", &m) == 1) dying = m >> (SIGKILL - 1) & 1;
    if (!dying) continue;
    pollfd q{t.pidfd, POLLIN, 0}; if (poll(&q, 1, 20000) <= 0) die("process does not die");
    mark_dead(t);
  }
}
static int listener(Task &t) { for (auto &x : tasks) if (x.root == t.root && x.lfd >= 0) return x.lfd; return -1; }
static void answer(Task &t, int64_t val, int err, bool cont) {
  seccomp_notif_resp r; memset(&r, 0, sizeof r);
  r.id = t.req.id; r.val = err ? 0 : val; r.error = err ? -err : 0; r.flags = cont ? SECCOMP_USER_NOTIF_FLAG_CONTINUE : 0;
  t.st = Task::RUN;
  if (ioctl(listener(t), SECCOMP_IOCTL_NOTIF_SEND, &r)) { if (errno != ENOENT) die("send"); }
}
static void inject_fd(Task &t, int fd, bool cloexec) {
  seccomp_notif_addfd a; memset(&a, 0, sizeof a);
  a.id = t.req.id; a.srcfd = fd; a.newfd_flags = cloexec ? O_CLOEXEC : 0; a.flags = SECCOMP_ADDFD_FLAG_SEND;
  t.st = Task::RUN;
  if (ioctl(listener(t), SECCOMP_IOCTL_NOTIF_ADDFD, &a) < 0) { t.st = Task::HELD; answer(t, 0, EIO, false); }
}

static int64_t now_ns() { return (int64_t)clk_s * 1000000000 + clk_ns; }
static void set_now(int64_t v) { clk_s = v / 1000000000; clk_ns = v % 1000000000; }
static int64_t next_alarm() { int64_t m = -1; for (auto &t : tasks) if (t.st != Task::DEAD && t.alarm >= 0 && (m < 0 || t.alarm < m)) m = t.alarm; return m; }
static bool would_block(Task &t) {
  auto &d = t.req.data;
  switch (d.nr) {
    case __NR_nanosleep: case __NR_clock_nanosleep: return t.wake >= 0 && now_ns() < t.wake;
    case __NR_wait4: return !(d.args[2] & 1) && !dead_child(t) && live_child(t);
    case __NR_waitid: return !(d.args[3] & 1) && !dead_child(t) && live_child(t);
    case __NR_pause: case __NR_rt_sigsuspend: return !dead_child(t);
    case __NR_read: case __NR_readv: case __NR_write: case __NR_writev: case __NR_splice: {
      struct stat st; str p = fmt("/proc/%d/fd/%d", t.pid, (int)d.args[0]);
      if (stat(p.c_str(), &st) || !S_ISFIFO(st.st_mode)) return false;
      int fd = dup_fd(t, d.args[0]); if (fd < 0) return false;
      bool rd = d.nr == __NR_read || d.nr == __NR_readv;
      pollfd q{fd, (short)(rd ? POLLIN : POLLOUT), 0}; int k = poll(&q, 1, 0); close(fd);
      return k == 0;
    }
    case __NR_flock: {
      if (d.args[1] & LOCK_NB) return false;
      int fd = dup_fd(t, d.args[0]); if (fd < 0) return false;
      // a lock held by somebody else: try it on the same open file
      bool blocked = flock(fd, d.args[1] | LOCK_NB) != 0 && errno == EWOULDBLOCK; close(fd); return blocked;
    }
  }
  return false;
}

// ---------------------------------------------------------------- one system call of one process
static void kill_all() {
  for (auto &t : tasks) if (t.st != Task::DEAD) syscall(__NR_pidfd_send_signal, t.pidfd, SIGKILL, 0, 0);
  for (auto &t : tasks) if (t.st != Task::DEAD) { pollfd q{t.pidfd, POLLIN, 0}; if (poll(&q, 1, 20000) <= 0) die("process does not die"); mark_dead(t); }
}
static bool is_reg(Task &t, int fd) { struct stat st; return !stat(fmt("/proc/%d/fd/%d", t.pid, fd).c_str(), &st) && S_ISREG(st.st_mode); }
static str esc(const str &s) { str r; for (unsigned char c : s) if (c <= 32 || c > 126 || c == '%') r += fmt("%%%02x", c); else r += c; return r; }
// returns true if the call was answered
static bool fault_for(Task &t, const str &op, const str &path) {
  if (!roots[t.root].main) return false;
  opcount[op]++;
  for (auto &f : faults) if (f.op == op && (f.sub.empty() || path.find(f.sub) != str::npos)) {
    long k = f.seen++;
    if (k >= f.n && k < f.n + f.count) { fired[op + fmt(":%d", f.err)]++; log_("I " + fmt("%ld ", muts) + op + " " + esc(path) + fmt(" %d", f.err)); 
      if (f.err == 1009) {           // the process itself is killed here
        syscall(__NR_pidfd_send_signal, t.pidfd, SIGKILL, 0, 0); pollfd q{t.pidfd, POLLIN, 0}; if (poll(&q, 1, 20000) <= 0) die("process does not die");
        mark_dead(t); return true; }
      answer(t, 0, f.err, false); return true; }
  }
  return false;
}
// a change of a file is about to happen; true = the whole run was killed
static bool mutation(Task &t, const str &op, const str &path, long size = -1) {
  if (path.compare(0, 6, "/.sim/") == 0) return false;
  if (muts == point(kill_mut) && !killed) {
    killed = true; fired["kill_" + kill_mode]++;
    bool dies = kill_mode == "all" || (t.parent == -1 && roots[t.root].main);
    if (dies && size > 0 && kill_partial >= 0 && op == "write") {           // part of the bytes get out
      long n = std::min(size - 1, kill_partial); std::vector<char> b(n + 1);
      int fd = dup_fd(t, t.req.data.args[0]);
      if (fd >= 0 && n > 0 && peek(t.pid, t.req.data.args[1], b.data(), n)) { if (write(fd, b.data(), n)) {} }
      if (fd >= 0) close(fd);
      if (path[0] == '/') file_state(path);
    }
    log_("K " + fmt("%ld ", muts) + kill_mode + " before " + op + " " + esc(path));
    if (kill_mode == "all") { kill_all(); return true; }
    for (auto &x : tasks) if (x.parent == -1 && roots[x.root].main && x.st != Task::DEAD) {
      syscall(__NR_pidfd_send_signal, x.pidfd, SIGKILL, 0, 0); pollfd q{x.pidfd, POLLIN, 0}; if (poll(&q, 1, 20000) <= 0) die("main does not die");
      mark_dead(x);
    }
    return true;                     // the others are where they were: who goes on, and when, is the scheduler's choice
  }
  log_("M " + fmt("%ld %d ", muts, t.id) + op + " " + esc(path) + (size >= 0 ? fmt(" %ld", size) : ""));
  muts++;
  dirty.insert(path);
  return false;
}

static void step(Task &t) {
  auto &d = t.req.data; pid_t pid = t.pid;
  auto A = [&](int i) { return d.args[i]; };
  clk_ns += tick; clk_s += clk_ns / 1000000000; clk_ns %= 1000000000;
  for (auto &j : jumps) if (!j.done && muts >= point(j.mut)) { j.done = true; clk_s += j.sec; fired[j.sec < 0 ? "clock_back" : "clock_forward"]++; log_(fmt("J %ld %ld", muts, j.sec)); }
  clk_min = std::min(clk_min, clk_s); clk_max = std::max(clk_max, clk_s);
  sched_hash = (sched_hash ^ (t.id * 1000003 + d.nr)) * 1099511628211ull;
  switch (d.nr) {
    case __NR_clock_gettime: { timespec ts{clk_s, clk_ns}; bool ok = poke(pid, A(1), &ts, sizeof ts); answer(t, 0, ok ? 0 : EFAULT, false); return; }
    case __NR_gettimeofday: { timeval tv{clk_s, clk_ns / 1000}; if (A(0)) poke(pid, A(0), &tv, sizeof tv); answer(t, 0, 0, false); return; }
    case __NR_time: { long v = clk_s; if (A(0)) poke(pid, A(0), &v, 8); answer(t, v, 0, false); return; }
    case __NR_nanosleep: case __NR_clock_nanosleep: {
      timespec ts{}; peek(pid, A(d.nr == __NR_nanosleep ? 0 : 2), &ts, sizeof ts);
      int64_t to = (int64_t)ts.tv_sec * 1000000000 + ts.tv_nsec + (d.nr == __NR_clock_nanosleep && (A(1) & 1) ? 0 : now_ns()), al = next_alarm();
      if (t.wake < 0 && al >= 0 && al < to) { t.wake = to; return; }                 // a timer goes off first
      if (t.wake >= 0) to = t.wake;
      t.wake = -1; if (to > now_ns()) set_now(to);
      answer(t, 0, 0, false); return; }
    case __NR_timer_settime: { itimerspec v{}; if (!peek(pid, A(2), &v, sizeof v)) { answer(t, 0, EFAULT, false); return; } t.alarm_kind = 1; t.again = v.it_interval.tv_sec * 1000000000LL + v.it_interval.tv_nsec; int64_t x = v.it_value.tv_sec * 1000000000LL + v.it_value.tv_nsec; t.alarm = !x ? -1 : A(1) & 1 ? x : now_ns() + x; if (A(3)) { itimerspec z{}; poke(pid, A(3), &z, sizeof z); } answer(t, 0, 0, false); return; }
    case __NR_timer_delete: if (t.alarm_kind == 1) t.alarm = -1; answer(t, 0, 0, true); return;
    case __NR_setitimer: { if (A(0) != ITIMER_REAL) { answer(t, 0, 0, true); return; } itimerval v{}; if (A(1)) peek(pid, A(1), &v, sizeof v); t.alarm_kind = 2; t.again = v.it_interval.tv_sec * 1000000000LL + v.it_interval.tv_usec * 1000; int64_t x = v.it_value.tv_sec * 1000000000LL + v.it_value.tv_usec * 1000; int64_t left = t.alarm < 0 ? 0 : std::max<int64_t>(t.alarm - now_ns(), 1000); t.alarm = x ? now_ns() + x : -1; if (A(2)) { itimerval z{}; z.it_value.tv_sec = left / 1000000000; z.it_value.tv_usec = left % 1000000000 / 1000; poke(pid, A(2), &z, sizeof z); } answer(t, 0, 0, false); return; }
    case __NR_alarm: { int64_t left = t.alarm < 0 ? 0 : std::max<int64_t>((t.alarm - now_ns() + 999999999) / 1000000000, 1); t.alarm_kind = 2; t.again = 0; t.alarm = A(0) ? now_ns() + (int64_t)A(0) * 1000000000 : -1; answer(t, left, 0, false); return; }
    case __NR_getrandom: { long n = A(1) > 256 ? 256 : (long)A(1); unsigned char b[256]; for (long i = 0; i < n; i++) b[i] = entropy.next(); poke(pid, A(0), b, n); answer(t, n, 0, false); return; }
    case __NR_socket: log_("D socket"); answer(t, 0, EAFNOSUPPORT, false); return;
    case __NR_chroot: case __NR_mount: case __NR_unshare: case __NR_ptrace: case __NR_setns: case __NR_pivot_root: log_("D privileged"); answer(t, 0, EPERM, false); return;
    case __NR_clone3: answer(t, 0, ENOSYS, false); return;
    case __NR_clone: case __NR_fork: case __NR_vfork: {
      if (fault_for(t, "fork", "")) return;
      bool vf = d.nr == __NR_vfork || (d.nr == __NR_clone && (A(0) & CLONE_VFORK));
      answer(t, 0, 0, true); t.await_child = true;
      if (vf) t.st = Task::VFORK;
      return; }
    case __NR_execve: {
      if (t.alarm_kind == 1) t.alarm = -1;
      str p = peek_str(pid, A(0));
      std::vector<str> av; for (int i = 0; i < 64; i++) { uint64_t q = 0; if (!peek(pid, A(1) + 8 * i, &q, 8) || !q) break; av.push_back(peek_str(pid, q)); }
      { struct stat st; if (!p.empty() && stat(fmt(p[0] == '/' ? "/proc/%d/root%s" : "/proc/%d/cwd/%s", pid, p.c_str()).c_str(), &st)) { answer(t, 0, 0, true); return; } }   // looked for along PATH
      if (fault_for(t, "exec", p)) return;
      if (p.size() >= 4 && p.substr(p.size() - 4) == "curl") for (auto &a : av) if (a.find("://") != str::npos) { requests.push_back(muts); break; }
      str l = fmt("X %ld %d ", muts, t.id) + esc(p); for (size_t i = 1; i < av.size(); i++) l += " " + esc(av[i].substr(0, 200));
      log_(l);
      for (auto &q : tasks) if (q.st == Task::VFORK && q.id == t.parent) q.st = Task::RUN;
      answer(t, 0, 0, true); return; }
    case __NR_execveat: answer(t, 0, ENOSYS, false); return;
    case __NR_exit_group: case __NR_exit: {
      answer(t, 0, 0, true);
      pollfd q{t.pidfd, POLLIN, 0}; if (poll(&q, 1, 20000) <= 0) die("exit does not end");
      mark_dead(t); return; }
    case __NR_wait4: case __NR_waitid: {
      for (auto &c : tasks) if (c.parent == t.id && c.st == Task::DEAD && !c.reaped_by_parent) {   // which one is decided by the kernel: look afterwards
      }
      answer(t, 0, 0, true); return; }
    case __NR_kill: case __NR_tgkill: case __NR_tkill: signalled = true; answer(t, 0, 0, true); return;
    case __NR_chdir: { str p = resolve(pid, AT_FDCWD, peek_str(pid, A(0))); if (fault_for(t, "chdir", p)) return; log_("C " + fmt("%d ", t.id) + esc(p)); answer(t, 0, 0, true); return; }
    case __NR_open: case __NR_openat: case __NR_creat: {
      int dfd = d.nr == __NR_openat ? (int)A(0) : AT_FDCWD; uint64_t pa = d.nr == __NR_openat ? A(1) : A(0);
      int fl = d.nr == __NR_creat ? O_CREAT | O_WRONLY | O_TRUNC : d.nr == __NR_openat ? (int)A(2) : (int)A(1);
      str raw = peek_str(pid, pa);
      if (raw == "/dev/null") { int fd = open("/dev/null", fl & O_ACCMODE); inject_fd(t, fd, fl & O_CLOEXEC); close(fd); return; }
      if (raw == "/dev/tty") { answer(t, 0, ENXIO, false); return; }
      int n = -1; if (sscanf(raw.c_str(), "/dev/fd/%d", &n) == 1 || (raw == "/dev/stdin" && (n = 0, true)) || (raw == "/dev/stdout" && (n = 1, true)) || (raw == "/dev/stderr" && (n = 2, true))) {
        int fd = dup_fd(t, n); if (fd < 0) answer(t, 0, EBADF, false); else { inject_fd(t, fd, fl & O_CLOEXEC); close(fd); } return; }
      str p = resolve(pid, dfd, raw);
      bool wr = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_TRUNC | O_CREAT));
      bool sys = p.compare(0, 5, "/usr/") == 0 && p.compare(0, 10, "/usr/local") != 0; sys |= p.compare(0, 5, "/etc/") == 0 || p.compare(0, 5, "/lib/") == 0 || p.compare(0, 7, "/lib64/") == 0 || p.compare(0, 6, "/.sim/") == 0;
      if (!wr) {
        if (!sys && fault_for(t, "read_open", p)) return;
        if (!sys && roots[t.root].main == false) { struct stat st; if (!stat((root + p).c_str(), &st) && S_ISREG(st.st_mode)) { log_("O " + fmt("%ld %d ", muts, t.id) + esc(p)); } }
        answer(t, 0, 0, true); return; }
      if (!sys && fault_for(t, "open", p)) return;
      struct stat st; bool there = lstat((root + p).c_str(), &st) == 0;
      if (there && S_ISLNK(st.st_mode)) { str l = link_of(root + p); p = resolve(pid, AT_FDCWD, l.size() && l[0] == '/' ? l : p.substr(0, p.rfind('/')) + "/" + l); there = lstat((root + p).c_str(), &st) == 0; }
      if ((fl & O_TRUNC) || ((fl & O_CREAT) && !there)) { if (mutation(t, there ? "truncate" : "create", p)) return; }
      answer(t, 0, 0, true); return; }
    case __NR_openat2: answer(t, 0, ENOSYS, false); return;
    case __NR_rename: case __NR_renameat: case __NR_renameat2: {
      bool at = d.nr != __NR_rename;
      str a = resolve(pid, at ? (int)A(0) : AT_FDCWD, peek_str(pid, A(at ? 1 : 0))), b = resolve(pid, at ? (int)A(2) : AT_FDCWD, peek_str(pid, A(at ? 3 : 1)));
      if (fault_for(t, "rename", b)) return;
      if ((a.compare(0, 5, "/tmp/") == 0) != (b.compare(0, 5, "/tmp/") == 0)) { log_("D cross-device rename"); answer(t, 0, EXDEV, false); return; }   // /tmp is a file system of its own
      if (mutation(t, "rename", b)) return;
      log_("R " + esc(a) + " " + esc(b)); dirty.insert(a);
      answer(t, 0, 0, true); return; }
    case __NR_unlink: case __NR_unlinkat: case __NR_rmdir: {
      bool at = d.nr == __NR_unlinkat; str p = resolve(pid, at ? (int)A(0) : AT_FDCWD, peek_str(pid, A(at ? 1 : 0)));
      if (fault_for(t, "unlink", p)) return;
      struct stat st; if (lstat((root + p).c_str(), &st) == 0) { if (mutation(t, "unlink", p)) return; }
      answer(t, 0, 0, true); return; }
    case __NR_mkdir: case __NR_mkdirat: case __NR_mknod: case __NR_mknodat: case __NR_symlink: case __NR_symlinkat: case __NR_link: case __NR_linkat: {
      str p;
      switch (d.nr) { case __NR_mkdir: case __NR_mknod: p = resolve(pid, AT_FDCWD, peek_str(pid, A(0))); break; case __NR_mkdirat: case __NR_mknodat: p = resolve(pid, A(0), peek_str(pid, A(1))); break;
        case __NR_symlink: case __NR_link: p = resolve(pid, AT_FDCWD, peek_str(pid, A(1))); break; case __NR_symlinkat: p = resolve(pid, A(1), peek_str(pid, A(2))); break; case __NR_linkat: p = resolve(pid, A(2), peek_str(pid, A(3))); }
      if (fault_for(t, "mkdir", p)) return;
      if (mutation(t, "make", p)) return;
      answer(t, 0, 0, true); return; }
    case __NR_truncate: { str p = resolve(pid, AT_FDCWD, peek_str(pid, A(0))); if (mutation(t, "truncate", p)) return; answer(t, 0, 0, true); return; }
    case __NR_ftruncate: case __NR_fallocate: { str p = fd_path(pid, A(0)); if (p.size() && p[0] == '/') { if (mutation(t, "truncate", p)) return; } answer(t, 0, 0, true); return; }
    case __NR_chmod: case __NR_chown: case __NR_lchown: case __NR_utime: case __NR_utimes: case __NR_setxattr: { str p = resolve(pid, AT_FDCWD, peek_str(pid, A(0))); if (mutation(t, "attr", p)) return; answer(t, 0, 0, true); return; }
    case __NR_fchmodat: case __NR_fchownat: case __NR_utimensat: { if (A(1)) { str p = resolve(pid, A(0), peek_str(pid, A(1))); if (mutation(t, "attr", p)) return; } answer(t, 0, 0, true); return; }
    case __NR_fchmod: case __NR_fchown: { str p = fd_path(pid, A(0)); if (p.size() && p[0] == '/') { if (mutation(t, "attr", p)) return; } answer(t, 0, 0, true); return; }
    case __NR_read: case __NR_readv: case __NR_splice: {
      str p = fd_path(pid, A(0));
      if (p.compare(0, 6, "/.sim/") && p.size() && p[0] == '/' && p.compare(0, 5, "/usr/") && p.compare(0, 5, "/lib/") && p.compare(0, 5, "/lib6") && p.compare(0, 5, "/etc/") && fault_for(t, "read", p)) return;
      answer(t, 0, 0, true); return; }
    case __NR_copy_file_range: case __NR_sendfile: answer(t, 0, ENOSYS == 0 ? 0 : EINVAL, false); return;   // programs fall back to read and write
    case __NR_write: case __NR_pwrite64: case __NR_writev: case __NR_pwritev: {
      str p = fd_path(pid, A(0));
      if (p.compare(0, 5, "pipe:") == 0) {
        if (fault_for(t, "pipe_write", "")) return;
        if (d.nr == __NR_write && A(2) > 4096) {                    // part of it, so that the call cannot block
          int fd = dup_fd(t, A(0)); std::vector<char> b(4096);
          pollfd q{fd, POLLOUT, 0}; poll(&q, 1, 0);
          if (fd >= 0 && !(q.revents & POLLERR) && peek(pid, A(1), b.data(), 4096)) { ssize_t k = write(fd, b.data(), 4096); close(fd); answer(t, k < 0 ? 0 : k, k < 0 ? errno : 0, false); return; }
          if (fd >= 0) close(fd);
        }
        answer(t, 0, 0, true); return; }
      if (p.empty() || p[0] != '/') { answer(t, 0, 0, true); return; }          // output captured by the simulator, /dev/null
      if (p.compare(0, 6, "/.sim/") == 0 || !is_reg(t, A(0))) { answer(t, 0, 0, true); return; }
      if (fault_for(t, "write", p)) return;
      if (mutation(t, "write", p, d.nr == __NR_write ? (long)A(2) : 0)) return;
      long k = reg_writes++;
      for (auto &s : shorts) if (s.n == k && d.nr == __NR_write && (long)A(2) > s.bytes && s.bytes > 0) {
        std::vector<char> b(s.bytes); int fd = dup_fd(t, A(0)); ssize_t w = -1;
        if (fd >= 0 && peek(pid, A(1), b.data(), s.bytes)) w = write(fd, b.data(), s.bytes);
        if (fd >= 0) close(fd);
        if (w > 0) { fired["short_write"]++; answer(t, w, 0, false); return; }
      }
      answer(t, 0, 0, true); return; }
  }
  answer(t, 0, 0, true);
}

// children the kernel has given to their parent's wait: known by the disappearance of the zombie
static void note_reaped() {
  for (auto &c : tasks) if (c.st == Task::DEAD && !c.reaped_by_parent && c.parent >= 0) { struct stat st; if (stat(fmt("/proc/%d", c.pid).c_str(), &st)) c.reaped_by_parent = true; }
}

static void write_file(const char *p, const str &s) { int fd = open(p, O_WRONLY); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) die("%s", p); close(fd); }

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  std::ifstream f(argv[1]); str line;
  Root *cur = nullptr;
  while (std::getline(f, line)) {
    std::istringstream s(line); str k; s >> k; str rest; std::getline(s, rest); if (!rest.empty() && rest[0] == ' ') rest.erase(0, 1);
    std::istringstream r(rest);
    if (k == "root") root = rest; else if (k == "log") logname = rest;
    else if (k == "clock") { r >> clk_s >> clk_ns; } else if (k == "tick") r >> tick;
    else if (k == "sched") { r >> rng.s >> switch_pm; } else if (k == "maxsteps") r >> max_steps;
    else if (k == "fault") { Fault q; r >> q.op >> q.n >> q.err >> q.count >> q.sub; faults.push_back(q); }
    else if (k == "short") { Short q; r >> q.n >> q.bytes; shorts.push_back(q); }
    else if (k == "jump") { Jump q; r >> q.mut >> q.sec; jumps.push_back(q); }
    else if (k == "stall") { Stall q; r >> q.root >> q.mut >> q.steps; stalls.push_back(q); }
    else if (k == "kill") { r >> kill_mut >> kill_mode >> kill_partial; }
    else if (k == "task") { Root q; int m; r >> q.id >> q.start_mut >> m; q.main = m; roots.push_back(q); cur = &roots.back(); }
    else if (k == "cwd") cur->cwd = rest; else if (k == "arg") cur->argv.push_back(rest); else if (k == "env") cur->env.push_back(rest); else if (k == "out") cur->out = rest;
    else if (!k.empty() && k[0] != '#') die("spec: %s", line.c_str());
  }
  char rp[4096]; if (!realpath(root.c_str(), rp)) die("root %s", root.c_str()); root = rp;
  if (root == "/" || root.size() < 6) die("refusing root %s", root.c_str());
  uid_t u = getuid(); gid_t g = getgid();
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (unshare(CLONE_NEWUSER | CLONE_NEWPID | CLONE_NEWIPC)) die("user namespace");
  write_file("/proc/self/setgroups", "deny"); write_file("/proc/self/uid_map", fmt("0 %d 1", u)); write_file("/proc/self/gid_map", fmt("0 %d 1", g));
  rootfd = open(root.c_str(), O_PATH | O_DIRECTORY); if (rootfd < 0) die("root");
  init_pid = fork();
  if (init_pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGCHLD, SIG_DFL); for (;;) { int st; if (waitpid(-1, &st, 0) < 0) { struct timespec ts{0, 2000000}; nanosleep(&ts, 0); } } }
  if (init_pid < 0) die("init");
  int last = -1; str end = "done";
  for (auto &r : roots) if (r.start_mut <= 0) start_root(r);
  for (;;) {
    quiesce(); note_killed();
    if (!ns_err.empty()) { end = "stuck"; break; }
    settle(); note_reaped();
    if (killed && kill_mode == "all") { end = "killed"; break; }
    bool more = false;
    for (auto &r : roots) if (!r.started && point(r.start_mut) <= muts) { start_root(r); more = true; }
    if (more) continue;
    for (auto &t : tasks) if (t.st != Task::DEAD && t.alarm >= 0 && t.alarm <= now_ns()) {   // a timer goes off
      siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = SIGALRM; si.si_code = SI_TIMER;
      syscall(__NR_pidfd_send_signal, t.pidfd, SIGALRM, t.alarm_kind == 1 ? &si : nullptr, 0);
      t.alarm = t.again ? t.alarm + t.again : -1; fired["timer"]++; signalled = true;
      if (t.st == Task::HELD && would_block(t)) { t.wake = -1; bool w = t.req.data.nr == __NR_pause || t.req.data.nr == __NR_rt_sigsuspend; answer(t, 0, w ? 0 : EINTR, w); more = true; break; }
    }
    if (more) continue;
    std::vector<int> runnable; int held = 0;
    for (auto &t : tasks) if (t.st == Task::HELD) { held++; if (!would_block(t)) runnable.push_back(t.id); }
    if (!held) { bool left = false; for (auto &r : roots) if (!r.started) { r.start_mut = 0; left = true; } if (left) continue; break; }
    if (runnable.empty()) {                                                            // time passes until something happens
      int64_t m = next_alarm(); for (auto &t : tasks) if (t.st == Task::HELD && t.wake >= 0 && (m < 0 || t.wake < m)) m = t.wake;
      if (m < 0) { end = "deadlock"; break; }
      if (m > now_ns()) set_now(m);
      continue;
    }
    if (++steps > max_steps) { end = "too_long"; break; }
    for (auto &q : stalls) if (point(q.mut) <= muts && (q.steps > 0 || (q.steps < 0 && point(-q.steps) > muts))) {       // this program makes no progress while another one can
      if (!q.on) { q.on = true; fired["stall"]++; }
      if (q.steps > 0) q.steps--;
      std::vector<int> o; for (int x : runnable) if (roots[tasks[x].root].id != q.root) o.push_back(x);
      if (!o.empty()) runnable = o;
    }
    int pick = -1;
    bool lastok = false; for (int x : runnable) lastok |= x == last;
    if (runnable.size() == 1) pick = runnable[0];
    else if (lastok && (long)rng.below(1000) >= switch_pm) pick = last;
    else pick = runnable[switch_pm ? rng.below(runnable.size()) : 0];
    last = pick;
    step(tasks[pick]);
  }
  if (end != "done" && end != "killed") for (auto &t : tasks) if (t.st == Task::HELD) log_(fmt("B task %d blocked in call %d", t.id, t.req.data.nr));
  kill_all();
  settle();
  kill(init_pid, SIGKILL); int st; waitpid(init_pid, &st, 0);
  log_("END " + end + fmt(" steps %ld muts %ld writes %ld tasks %zu clock %ld %ld %ld sched %016llx", steps, muts, reg_writes, tasks.size(), clk_s, clk_min, clk_max, (unsigned long long)sched_hash));
  for (auto &r : roots) log_(fmt("EXIT %d %d", r.id, r.status));
  for (auto &o : opcount) log_("COUNT " + o.first + fmt(" %ld", o.second));
  for (auto &o : fired) log_("FIRED " + o.first + fmt(" %ld", o.second));
  FILE *lf = fopen(logname.c_str(), "wb"); if (!lf) die("log"); fwrite(logbuf.data(), 1, logbuf.size(), lf); fclose(lf);
  return 0;
}
