// The simulated operating system under sat_skymap, sat_visibility and mjdnow, and the engine that executes one
// scenario in a forked child.  Everything here runs in the child except run().
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "common.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/timeb.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <alloca.h>
#include <unordered_map>

const char *fault_names[FK_N] = {"open_failure", "read_error", "read_interrupted", "short_read", "catalogue_renamed_over", "catalogue_rewritten_in_place",
  "allocation_failure", "descriptor_limit", "output_error", "output_short_write", "output_closed", "clock_jump", "clock_failure",
  "residual_memory_pattern", "realloc_moved", "forbidden_call"};

static Shm *S;                 // shared with the parent
static const Scenario *SC;     // scenario of this child
static Rng crng;               // chunk sizes

static void logev(const char *f, ...) __attribute__((format(printf, 1, 2)));
static void logev(const char *f, ...) {
  char b[400];
  va_list ap; va_start(ap, f);
  int n = vsnprintf(b, sizeof b - 1, f, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  S->events++;
  S->hash = fnv(b, n, S->hash);
  if (S->log_len + n < (long)sizeof S->log) { memcpy(S->log + S->log_len, b, n); S->log_len += n; }
}
static void note(const str &t) {
  if (S->note_len + (long)t.size() + 2 < (long)sizeof S->note) {
    memcpy(S->note + S->note_len, t.data(), t.size()); S->note_len += t.size(); S->note[S->note_len++] = ';';
  }
  logev("! %.300s", t.c_str());
}

// ---------------------------------------------------------------- file system
str norm_path(const str &p) {
  strs parts;
  bool abs = !p.empty() && p[0] == '/';
  size_t i = 0;
  while (i <= p.size()) {
    size_t j = p.find('/', i);
    if (j == str::npos) j = p.size();
    str c = p.substr(i, j - i);
    i = j + 1;
    if (c.empty() || c == ".") continue;
    if (c == ".." && !parts.empty() && parts.back() != "..") { parts.pop_back(); continue; }
    parts.push_back(c);
  }
  str r = abs ? "/" : "";
  for (size_t k = 0; k < parts.size(); k++) r += (k ? "/" : "") + parts[k];
  return r;
}
struct LiveFile { str data; bool swapped = false; long opens = 0; };
static std::map<str, LiveFile> live;

struct Stream {
  const SimFile *spec; LiveFile *lf; str path; str data; bool inplace_seen = false;
  long pos = 0; bool failed_once = false; int dlv = -1; bool closed = false;
};
static std::vector<Stream *> by_fd;     // fd = 1000 + index

static void record_failed_open(const char *p) {
  if (S->failed_open_len + (long)strlen(p) + 2 < (long)sizeof S->failed_open) {
    long n = strlen(p); memcpy(S->failed_open + S->failed_open_len, p, n); S->failed_open_len += n; S->failed_open[S->failed_open_len++] = '\n';
  }
}
static Stream *open_stream(const char *path, int &err) {
  if (!path) { err = EFAULT; return nullptr; }
  str np = norm_path(path);
  if (SC->fd_limit && S->open_now >= SC->fd_limit) {
    err = EMFILE; S->fired[FK_EMFILE]++; record_failed_open(path); logev("open %s EMFILE", esc(path).c_str()); return nullptr;
  }
  auto it = SC->files.find(np);
  if (it == SC->files.end() || str(path).empty()) { err = ENOENT; record_failed_open(path); logev("open %.200s ENOENT", esc(path).c_str()); return nullptr; }
  const SimFile &f = it->second;
  LiveFile &lf = live[np];
  lf.opens++;
  if (f.open_errno && !(f.transient && lf.opens > 1)) {
    err = f.open_errno; S->fired[FK_OPEN]++; record_failed_open(path); logev("open %.200s errno %d", esc(path).c_str(), err); return nullptr;
  }
  Stream *s = new Stream;
  s->spec = &f; s->lf = &lf; s->path = np; s->data = lf.swapped ? f.data2 : f.data;
  s->inplace_seen = lf.swapped;
  S->open_now++; S->opens++;
  if (S->open_now > S->open_peak) S->open_peak = S->open_now;
  if (S->dlv_n < 4096) {
    s->dlv = S->dlv_n++;
    int idx = 0; for (auto &kv : SC->files) { if (kv.first == np) break; idx++; }
    S->dlv[s->dlv].file = idx; S->dlv[s->dlv].len = 0; S->dlv[s->dlv].eof = 0; S->dlv[s->dlv].err = 0;
  }
  logev("open %.200s", np.c_str());
  return s;
}
static ssize_t stream_read(Stream *s, char *buf, size_t n) {
  if (s->spec->swap_at >= 0 && !s->lf->swapped && s->pos >= s->spec->swap_at) {
    s->lf->swapped = true;
    if (s->spec->swap_kind == 2) {
      s->data = s->spec->data2;                        // rewritten in place: the open stream sees the new bytes
      S->fired[FK_SWAP_INPLACE]++;
    } else S->fired[FK_SWAP_RENAME]++;                 // renamed over: the open stream keeps the old inode
    logev("swap %s at %ld", s->path.c_str(), s->pos);
  }
  if (s->spec->fail_errno && s->spec->fail_at >= 0 && s->pos >= s->spec->fail_at && !(s->spec->transient && s->failed_once)) {
    s->failed_once = true;
    if (s->spec->fail_errno == EINTR) S->fired[FK_READ_EINTR]++; else S->fired[FK_READ_ERR]++;
    if (s->dlv >= 0) S->dlv[s->dlv].err = 1;
    logev("read %s at %ld errno %d", s->path.c_str(), s->pos, s->spec->fail_errno);
    errno = s->spec->fail_errno;
    return -1;
  }
  size_t left = (size_t)s->pos < s->data.size() ? s->data.size() - s->pos : 0, m = n < left ? n : left;
  if (SC->chunk_seed) { size_t c = 1 + crng.below(SC->chunk > 0 ? SC->chunk : 300); if (c < m) { m = c; S->fired[FK_SHORT_READ]++; } }
  else if (SC->chunk > 0 && (size_t)SC->chunk < m) { m = SC->chunk; S->fired[FK_SHORT_READ]++; }
  if (s->spec->fail_errno && s->spec->fail_at >= 0 && s->pos < s->spec->fail_at && s->pos + (long)m > s->spec->fail_at && !(s->spec->transient && s->failed_once))
    m = s->spec->fail_at - s->pos;
  if (s->spec->swap_at >= 0 && !s->lf->swapped && s->pos < s->spec->swap_at && s->pos + (long)m > s->spec->swap_at) m = s->spec->swap_at - s->pos;
  memcpy(buf, s->data.data() + s->pos, m);
  s->pos += m;
  if (s->dlv >= 0) { if (s->pos > S->dlv[s->dlv].len) S->dlv[s->dlv].len = s->pos; if (!m && n) S->dlv[s->dlv].eof = 1; }
  logev("read %s +%zu", s->path.c_str(), m);
  return m;
}
static void stream_close(Stream *s) { if (!s->closed) { s->closed = true; S->open_now--; logev("close %s", s->path.c_str()); } }
static ssize_t ck_read(void *c, char *b, size_t n) { return stream_read((Stream *)c, b, n); }
static int ck_close(void *c) { stream_close((Stream *)c); return 0; }
static int stream_seek(Stream *s, off64_t *o, int w) {
  long base = w == SEEK_SET ? 0 : w == SEEK_CUR ? s->pos : (long)s->data.size();
  if (base + *o < 0) { errno = EINVAL; return -1; }
  s->pos = base + *o; *o = s->pos; return 0;
}
static int ck_seek(void *c, off64_t *o, int w) { return stream_seek((Stream *)c, o, w); }

static void forbidden(const char *what, const char *arg) {
  S->forbidden++; S->fired[FK_FORBIDDEN]++;
  note(str("forbidden call ") + what + " " + (arg ? esc(arg) : ""));
}

// ---------------------------------------------------------------- output device
static long dev_write(const char *b, size_t n) {       // one write(2) on the device
  if (SC->out_closed) { S->fired[FK_OUT_CLOSED]++; S->out_lost += n; errno = EBADF; return -1; }
  if (SC->out_fail >= 0 && S->out_len >= SC->out_fail) { S->fired[FK_OUT_ERR]++; S->out_lost += n; errno = SC->out_errno; return -1; }
  size_t m = n;
  if (SC->out_chunk > 0 && m > (size_t)SC->out_chunk) { m = SC->out_chunk; S->fired[FK_OUT_SHORT]++; }
  if (SC->out_fail >= 0 && S->out_len + (long)m > SC->out_fail) { m = SC->out_fail - S->out_len; S->fired[FK_OUT_SHORT]++; }
  if (S->out_len + m > sizeof S->out) { note("output beyond simulator limit"); S->out_lost += n; errno = EFBIG; return -1; }
  memcpy(S->out + S->out_len, b, m);
  S->out_len += m;
  S->hash = fnv(b, m, S->hash);
  return m;
}
static ssize_t ck_out(void *, const char *b, size_t n) {  // what stdio does with the descriptor: loop over short writes, stop at an error
  size_t done = 0;
  while (done < n) {
    long r = dev_write(b + done, n - done);
    if (r < 0) { logev("out +%zu error %d", done, errno); return done; }
    done += r;
  }
  logev("out +%zu", done);
  return done;
}
static ssize_t ck_err(void *, const char *b, size_t n) {
  for (size_t i = 0; i < n && S->err_len < (long)sizeof S->err; i++) S->err[S->err_len++] = b[i];
  return n;
}
static ssize_t ck_null(void *, char *, size_t) { return 0; }

// ---------------------------------------------------------------- allocator
#if defined(__SANITIZE_ADDRESS__)
#define ASAN 1
extern "C" const char *__asan_get_report_description() __attribute__((weak));
extern "C" void __asan_on_error() {
  if (S) { S->asan_hit++; if (__asan_get_report_description) { const char *d = __asan_get_report_description(); note(str("AddressSanitizer: ") + (d ? d : "?")); } }
}
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=190:symbolize=0:log_path=/dev/null";
}
#else
#define ASAN 0
#endif
struct Blk { size_t n; char *raw; bool freed; };
static std::unordered_map<void *, Blk> blks;
static long nalloc;
static unsigned char fill_byte(size_t i) {
  long f = SC ? SC->fill : 0;
  if (f == 0) return 0;
  if (f < 256) return f;
  uint64_t x = f + i / 8 * 0x9E3779B97F4A7C15ull;
  return "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,-+ \"\\\n\0\377\200\001"[(Rng::mix(x) >> ((i & 7) * 7)) % 48];
}
static bool alloc_fails() {
  nalloc++; S->allocs++;
  if (SC->alloc_fail && (nalloc == SC->alloc_fail || (SC->alloc_fail_on && nalloc > SC->alloc_fail))) {
    S->fired[FK_ALLOC]++; logev("alloc %ld fails", nalloc); errno = ENOMEM; return true;
  }
  return false;
}
static const size_t RED = 32;
static void chk_blk(void *p, Blk &b) {
  for (size_t i = 0; i < RED; i++)
    if ((unsigned char)b.raw[i] != 0xC5 || (unsigned char)b.raw[RED + b.n + i] != 0xC5) {
      S->canary++; note(fmt("heap block of %zu bytes overrun", b.n)); return;
    }
  if (b.freed) for (size_t i = 0; i < b.n; i++) if ((unsigned char)((char *)p)[i] != 0xDD) { S->canary++; note("write to freed memory"); return; }
}
static void *alloc_raw(size_t n) {
  if (ASAN) return malloc(n);
  if (n > (1ul << 31)) { errno = ENOMEM; return nullptr; }
  char *raw = (char *)malloc(n + 2 * RED + (SC->align & 0xff0));
  if (!raw) return nullptr;
  memset(raw, 0xC5, RED);
  for (size_t i = 0; i < n; i++) raw[RED + i] = fill_byte(i);
  memset(raw + RED + n, 0xC5, RED);
  if (n) S->fired[FK_FILL]++;
  blks[raw + RED] = Blk{n, raw, false};
  S->live_bytes += n;
  if (S->live_bytes > S->peak_bytes) S->peak_bytes = S->live_bytes;
  return raw + RED;
}
extern "C" {
void *sim_malloc(size_t n) { if (alloc_fails()) return nullptr; logev("malloc %zu", n); return alloc_raw(n); }
void *sim_calloc(size_t a, size_t b) {
  if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; }
  void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void sim_free(void *p) {
  if (!p) return;
  logev("free");
  if (ASAN) { free(p); return; }
  auto it = blks.find(p);
  if (it == blks.end()) { free(p); return; }
  if (it->second.freed) { S->badfree++; note("double free"); return; }
  chk_blk(p, it->second);
  it->second.freed = true;
  S->live_bytes -= it->second.n;
  memset(p, 0xDD, it->second.n);       // kept in quarantine until the end
}
void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  if (alloc_fails()) return nullptr;
  logev("realloc %zu", n);
  if (ASAN) return realloc(p, n);
  auto it = blks.find(p);
  if (it == blks.end()) return realloc(p, n);
  if (it->second.freed) { S->badfree++; note("realloc of freed memory"); return nullptr; }
  size_t old = it->second.n;
  void *q = alloc_raw(n);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  S->fired[FK_REALLOC_MOVE]++;
  nalloc--; sim_free(p); nalloc++;
  return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return sim_realloc(p, a * b); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim___strdup(const char *s) { return sim_strdup(s); }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *sim___strndup(const char *s, size_t m) { return sim_strndup(s, m); }
int sim_vasprintf(char **out, const char *f, va_list ap) {
  char *t = nullptr; int n = vasprintf(&t, f, ap);
  if (n < 0) return n;
  char *p = (char *)sim_malloc(n + 1);
  if (!p) { free(t); *out = nullptr; return -1; }
  memcpy(p, t, n + 1); free(t); *out = p; return n;
}
int sim___vasprintf_chk(char **out, int, const char *f, va_list ap) { return sim_vasprintf(out, f, ap); }
int sim_asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(out, f, ap); va_end(ap); return n; }
int sim___asprintf_chk(char **out, int, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(out, f, ap); va_end(ap); return n; }
int sim_posix_memalign(void **p, size_t, size_t n) { *p = sim_malloc(n); return *p ? 0 : ENOMEM; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
ssize_t sim_getdelim(char **lp, size_t *n, int d, FILE *f) {
  size_t len = 0; int c;
  if (!*lp) { *n = 120; *lp = (char *)sim_malloc(*n); if (!*lp) return -1; }
  while ((c = getc(f)) != EOF) {
    if (len + 2 > *n) { char *q = (char *)sim_realloc(*lp, *n * 2); if (!q) return -1; *lp = q; *n *= 2; }
    (*lp)[len++] = c;
    if (c == d) break;
  }
  if (!len) return -1;
  (*lp)[len] = 0;
  return len;
}
ssize_t sim___getdelim(char **lp, size_t *n, int d, FILE *f) { return sim_getdelim(lp, n, d, f); }
ssize_t sim_getline(char **lp, size_t *n, FILE *f) { return sim_getdelim(lp, n, '\n', f); }

// ---------------------------------------------------------------- files
static Stream *fd_stream(int fd) { int i = fd - 1000; return i >= 0 && i < (int)by_fd.size() ? by_fd[i] : nullptr; }
FILE *sim_fopen(const char *path, const char *mode) {
  if (strpbrk(mode, "wa+")) { forbidden("fopen for writing", path); errno = EACCES; return nullptr; }
  int err; Stream *s = open_stream(path, err);
  if (!s) { errno = err; return nullptr; }
  cookie_io_functions_t io = {ck_read, nullptr, ck_seek, ck_close};
  FILE *f = fopencookie(s, "r", io);
  if (!f) return nullptr;
  if (SC->chunk_seed) setvbuf(f, nullptr, _IOFBF, 64 + (SC->chunk_seed % 7) * 500);
  return f;
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_freopen(const char *p, const char *m, FILE *f) { fclose(f); return sim_fopen(p, m); }
FILE *sim_freopen64(const char *p, const char *m, FILE *f) { return sim_freopen(p, m, f); }
int sim_open(const char *path, int flags, ...) {
  if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) { forbidden("open for writing", path); errno = EACCES; return -1; }
  int err; Stream *s = open_stream(path, err);
  if (!s) { errno = err; return -1; }
  by_fd.push_back(s);
  return 1000 + by_fd.size() - 1;
}
int sim_open64(const char *p, int f, ...) { return sim_open(p, f); }
int sim___open_2(const char *p, int f) { return sim_open(p, f); }
int sim___open64_2(const char *p, int f) { return sim_open(p, f); }
int sim_openat(int, const char *p, int f, ...) { return sim_open(p, f); }
int sim_openat64(int, const char *p, int f, ...) { return sim_open(p, f); }
int sim___openat_2(int, const char *p, int f) { return sim_open(p, f); }
int sim___openat64_2(int, const char *p, int f) { return sim_open(p, f); }
int sim_creat(const char *p, mode_t) { forbidden("creat", p); errno = EACCES; return -1; }
int sim_creat64(const char *p, mode_t m) { return sim_creat(p, m); }
FILE *sim_fdopen(int fd, const char *mode) {
  Stream *s = fd_stream(fd);
  if (fd == 1) return stdout;
  if (!s) { errno = EBADF; return nullptr; }
  (void)mode;
  cookie_io_functions_t io = {ck_read, nullptr, ck_seek, ck_close};
  return fopencookie(s, "r", io);
}
int sim_close(int fd) { Stream *s = fd_stream(fd); if (s) { stream_close(s); return 0; } if (fd >= 0 && fd <= 2) return 0; errno = EBADF; return -1; }
ssize_t sim_read(int fd, void *b, size_t n) { Stream *s = fd_stream(fd); if (s) return stream_read(s, (char *)b, n); if (fd == 0) return 0; errno = EBADF; return -1; }
ssize_t sim___read_chk(int fd, void *b, size_t n, size_t) { return sim_read(fd, b, n); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { Stream *s = fd_stream(fd); if (!s) { errno = EBADF; return -1; } long p = s->pos; s->pos = o; ssize_t r = stream_read(s, (char *)b, n); s->pos = p; return r; }
ssize_t sim_pread64(int fd, void *b, size_t n, off_t o) { return sim_pread(fd, b, n, o); }
ssize_t sim_write(int fd, const void *b, size_t n) { if (fd == 1) { long r = dev_write((const char *)b, n); logev("write %ld", r); return r; } if (fd == 2) return ck_err(nullptr, (const char *)b, n); errno = EBADF; return -1; }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t) { return sim_write(fd, b, n); }
off_t sim_lseek(int fd, off_t o, int w) { Stream *s = fd_stream(fd); if (!s) { errno = ESPIPE; return -1; } off64_t x = o; return stream_seek(s, &x, w) ? -1 : x; }
off_t sim_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); }
static int fill_stat(const str &np, struct stat *st) {
  memset(st, 0, sizeof *st);
  auto it = SC->files.find(np);
  if (it != SC->files.end()) { st->st_mode = S_IFREG | 0644; st->st_size = it->second.data.size(); st->st_nlink = 1; st->st_ino = fnv(np); st->st_mtime = SC->clock - 1000; return 0; }
  for (auto &kv : SC->files) if (np.empty() || (kv.first.size() > np.size() && kv.first.compare(0, np.size() + 1, np + "/") == 0)) { st->st_mode = S_IFDIR | 0755; return 0; }
  errno = ENOENT; return -1;
}
int sim_stat(const char *p, struct stat *st) { return fill_stat(norm_path(p), st); }
int sim_stat64(const char *p, struct stat64 *st) { return fill_stat(norm_path(p), (struct stat *)st); }
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_lstat64(const char *p, struct stat64 *st) { return sim_stat64(p, st); }
int sim_fstat(int fd, struct stat *st) { Stream *s = fd_stream(fd); if (s) return fill_stat(s->path, st); memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; return 0; }
int sim_fstat64(int fd, struct stat64 *st) { return sim_fstat(fd, (struct stat *)st); }
int sim_access(const char *p, int m) { struct stat st; if (sim_stat(p, &st)) return -1; if (m & W_OK) { errno = EACCES; return -1; } auto it = SC->files.find(norm_path(p)); if (it != SC->files.end() && it->second.open_errno == EACCES) { errno = EACCES; return -1; } return 0; }
// no file may be created, changed or removed, no process started
#define FORBID(ret, name, params, arg) ret sim_##name params { forbidden(#name, arg); errno = EPERM; return (ret)-1; }
FORBID(int, unlink, (const char *p), p)
FORBID(int, unlinkat, (int, const char *p, int), p)
FORBID(int, remove, (const char *p), p)
FORBID(int, rename, (const char *p, const char *), p)
FORBID(int, renameat, (int, const char *p, int, const char *), p)
FORBID(int, mkdir, (const char *p, mode_t), p)
FORBID(int, rmdir, (const char *p), p)
FORBID(int, truncate, (const char *p, off_t), p)
FORBID(int, ftruncate, (int, off_t), "")
FORBID(int, chmod, (const char *p, mode_t), p)
FORBID(int, chown, (const char *p, uid_t, gid_t), p)
FORBID(int, link, (const char *p, const char *), p)
FORBID(int, symlink, (const char *p, const char *), p)
FORBID(int, mkstemp, (char *p), p)
FORBID(int, system, (const char *p), p)
FORBID(int, execl, (const char *p, const char *, ...), p)
FORBID(int, execlp, (const char *p, const char *, ...), p)
FORBID(int, execv, (const char *p, char *const *), p)
FORBID(int, execvp, (const char *p, char *const *), p)
FORBID(int, execve, (const char *p, char *const *, char *const *), p)
FORBID(int, fork, (void), "")
FORBID(int, vfork, (void), "")
FORBID(int, kill, (pid_t, int), "")
FORBID(int, posix_spawn, (pid_t *, const char *p, ...), p)
FORBID(int, posix_spawnp, (pid_t *, const char *p, ...), p)
FILE *sim_popen(const char *p, const char *) { forbidden("popen", p); return nullptr; }
FILE *sim_tmpfile(void) { forbidden("tmpfile", ""); return nullptr; }
FILE *sim_tmpfile64(void) { return sim_tmpfile(); }
void *sim_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  if (fd < 0) return mmap(a, n, pr, fl, fd, o);
  Stream *s = fd_stream(fd);
  if (!s) { errno = EBADF; return MAP_FAILED; }
  char *m = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m != MAP_FAILED) { size_t k = 0; long p = s->pos; s->pos = o; while (k < n) { ssize_t r = stream_read(s, m + k, n - k); if (r <= 0) break; k += r; } s->pos = p; }
  return m;
}
void *sim_mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return sim_mmap(a, n, pr, fl, fd, o); }
int sim_munmap(void *a, size_t n) { return munmap(a, n); }

static void at_end() {
  S->finished = 1;
  S->leaked_at_exit = S->open_now;
  if (!ASAN) for (auto &kv : blks) chk_blk(kv.first, kv.second);
}
// ---------------------------------------------------------------- clock, randomness
static long ck_s, ck_ns;
static void advance(long ns) { ck_ns += ns; ck_s += ck_ns / 1000000000; ck_ns %= 1000000000; }
static int clock_now(long *s, long *ns) {
  int k = S->clock_reads++;
  if (SC->clock_fail && k + 1 == SC->clock_fail) { S->fired[FK_CLOCK_FAIL]++; errno = EOVERFLOW; logev("clock fails"); return -1; }
  if (k < (int)SC->jumps.size() && SC->jumps[k]) { ck_s += SC->jumps[k]; S->fired[FK_CLOCK_JUMP]++; }
  advance(1000);
  if (!k) { S->clock_first = ck_s; S->clock_first_ns = ck_ns; S->clock_min = S->clock_max = ck_s; S->clock_max_ns = ck_ns; }
  if (ck_s < S->clock_min) S->clock_min = ck_s;
  if (ck_s > S->clock_max || (ck_s == S->clock_max && ck_ns > S->clock_max_ns)) { S->clock_max = ck_s; S->clock_max_ns = ck_ns; }
  *s = ck_s; *ns = ck_ns;
  logev("clock %ld.%09ld", ck_s, ck_ns);
  return 0;
}
time_t sim_time(time_t *t) { long s, n; if (clock_now(&s, &n)) { if (t) *t = -1; return -1; } if (t) *t = s; return s; }
int sim_gettimeofday(struct timeval *tv, void *) { long s, n; if (clock_now(&s, &n)) return -1; tv->tv_sec = s; tv->tv_usec = n / 1000; return 0; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { long s, n; if (clock_now(&s, &n)) return -1; ts->tv_sec = s; ts->tv_nsec = n; return 0; }
int sim_timespec_get(struct timespec *ts, int b) { long s, n; if (clock_now(&s, &n)) return 0; ts->tv_sec = s; ts->tv_nsec = n; return b; }
int sim_ftime(struct timeb *tb) { long s, n; memset(tb, 0, sizeof *tb); if (clock_now(&s, &n)) return -1; tb->time = s; tb->millitm = n / 1000000; return 0; }
unsigned sim_sleep(unsigned s) { ck_s += s; return 0; }
int sim_usleep(useconds_t u) { advance((long)u * 1000); return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *) { ck_s += a->tv_sec; advance(a->tv_nsec); return 0; }
static Rng prng(7);
int sim_rand(void) { return prng.u64() & 0x7fffffff; }
long sim_random(void) { return sim_rand(); }
void sim_srand(unsigned) {}
void sim_srandom(unsigned) {}
double sim_drand48(void) { return prng.real(); }
uint32_t sim_arc4random(void) { return prng.u64(); }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char *)b)[i] = prng.u64(); return n; }
pid_t sim_getpid(void) { return 1000 + (SC->fill & 0xff); }
pid_t sim_getppid(void) { return 999; }

__attribute__((noreturn)) void sim__exit(int c) { at_end(); _exit(c); }
__attribute__((noreturn)) void sim__Exit(int c) { sim__exit(c); }
int skymap_main(int, char **);
int visibility_main(int, char **);
int mjdnow_main(int, char **);
}  // extern "C"

// ---------------------------------------------------------------- child
static void __attribute__((noinline)) paint_stack() {
  volatile unsigned char *p = (volatile unsigned char *)alloca(256 * 1024);
  for (size_t i = 0; i < 256 * 1024; i++) p[i] = fill_byte(i);
}
str locale_dir;
static void child() {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  struct itimerval it = {{0, 0}, {ASAN ? 60 : 20, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
  alarm(600);
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
  clearenv();
  if (!locale_dir.empty()) setenv("LOCPATH", locale_dir.c_str(), 1);       // a locale with a decimal comma is installed
  for (auto &kv : SC->env) setenv(kv.first.c_str(), kv.second.c_str(), 1);
  ck_s = SC->clock; ck_ns = SC->clock_ns;
  crng = Rng(SC->chunk_seed ? SC->chunk_seed : 1);
  cookie_io_functions_t io = {nullptr, ck_out, nullptr, nullptr}, ioe = {nullptr, ck_err, nullptr, nullptr}, ion = {ck_null, nullptr, nullptr, nullptr};
  stdout = fopencookie(nullptr, "w", io);
  if (SC->out_mode == 0) setvbuf(stdout, nullptr, _IOFBF, SC->out_buf > 0 ? SC->out_buf : 4096);
  else if (SC->out_mode == 1) setvbuf(stdout, nullptr, _IOLBF, 1024);
  else setvbuf(stdout, nullptr, _IONBF, 0);
  stderr = fopencookie(nullptr, "w", ioe);
  setvbuf(stderr, nullptr, _IONBF, 0);
  stdin = fopencookie(nullptr, "r", ion);
  on_exit([](int st, void *) { at_end(); fflush(nullptr); S->leaked_at_exit = S->open_now; _exit(st); }, nullptr);   // skips the simulator's own destructors
  // argv in its own blocks, so that overreads are seen by ASan
  std::vector<char *> av;
  av.push_back(strdup(SC->prog.c_str()));
  for (auto &a : SC->argv) { char *p = (char *)malloc(a.size() + 1); memcpy(p, a.c_str(), a.size() + 1); av.push_back(p); }
  int ac = av.size();
  av.push_back(nullptr);
  if (SC->fill) S->fired[FK_FILL]++;
  S->started = 1;
  paint_stack();
  int r;
  if (SC->prog == "sat_skymap") r = skymap_main(ac, av.data());
  else if (SC->prog == "sat_visibility") r = visibility_main(ac, av.data());
  else r = mjdnow_main(ac, av.data());
  exit(r);
}

// ---------------------------------------------------------------- parent
void run(const Scenario &sc, Outcome &o) {
  if (!S) {
    S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); exit(3); }
  }
  memset(S, 0, offsetof(Shm, failed_open));
  S->hash = fnv("start");
  SC = &sc;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (!p) { child(); _exit(0); }
  int st;
  while (waitpid(p, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(3); }
  o = Outcome();
  if (WIFSIGNALED(st)) {
    o.sig = WTERMSIG(st);
    if (o.sig == SIGPROF || o.sig == SIGALRM || o.sig == SIGVTALRM) { o.hang = true; }
  } else o.code = WEXITSTATUS(st);
  o.asan = S->asan_hit;
  if (!S->started) { fprintf(stderr, "simulated process did not start (status %d)\n", st); exit(3); }
  o.out.assign(S->out, S->out_len);
  o.err.assign(S->err, S->err_len);
  o.log.assign(S->log, S->log_len);
  o.note.assign(S->note, S->note_len);
  o.failed_open.assign(S->failed_open, S->failed_open_len);
  o.hash = S->hash ^ (uint64_t)(o.sig * 1000 + o.code) ^ fnv(o.out);
  o.events = S->events;
  o.fired.assign(S->fired, S->fired + FK_N);
  o.open_peak = S->open_peak; o.opens = S->opens; o.leaked = S->leaked_at_exit; o.peak_bytes = S->peak_bytes; o.allocs = S->allocs;
  o.canary = S->canary; o.badfree = S->badfree; o.forbidden = S->forbidden; o.out_lost = S->out_lost; o.clock_reads = S->clock_reads;
  o.clock_first = S->clock_first; o.clock_first_ns = S->clock_first_ns; o.clock_min = S->clock_min; o.clock_max = S->clock_max; o.clock_max_ns = S->clock_max_ns;
  o.finished = S->finished; o.live_end = S->live_bytes;
  strs names;
  for (auto &kv : sc.files) names.push_back(kv.first);
  for (int i = 0; i < S->dlv_n; i++) o.delivered.push_back({names[S->dlv[i].file], S->dlv[i].len, !!S->dlv[i].eof, !!S->dlv[i].err});
}
str Outcome::how() const {
  if (hang) return "did not terminate";
  if (asan) return "memory error (" + note + ")";
  if (canary || badfree) return "heap corruption (" + note + ")";
  if (sig) return fmt("killed by signal %d", sig);
  return fmt("exit code %d", code);
}
