// fitssim: the FITS functions of HealpixC/chealpix.c, with the real cfitsio above a simulated disk, heap and clock.
// A scenario is a sequence of operations on a few files and a list of faults, each at the n-th call of one kind
// inside one operation.  Operations run in a child process; a call that ends the process, or a kill, is followed by a
// restart that sees only what had reached the disk.  See DESIGN.md (fitssim).
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <zlib.h>
#include "chealpix.h"
using str = std::string; using strs = std::vector<str>;
static str fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) { auto b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
static uint64_t quick(const void *p, size_t n, uint64_t h) { auto b = (const unsigned char *)p; for (; n >= 8; n -= 8, b += 8) { uint64_t w; memcpy(&w, b, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return fnv(b, n, h); }
struct Rng {
  uint64_t s; explicit Rng(uint64_t x) : s(x) {}
  static uint64_t mix(uint64_t &x) { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t u64() { return mix(s); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  long range(long a, long b) { return a + (long)below(b - a + 1); }
  double real() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return real() < p; }
};

// ------------------------------------------------------------------ scenario
enum { WRITE, READ, SIZE, FOREIGN, MUT };
static const char *ON[] = {"write", "read", "size", "foreign", "damage"};
enum { C_OPEN, C_READ, C_WRITE, C_CLOSE, C_SEEK, C_ALLOC, C_REMOVE, C_TRUNC, C_CAP, C_OWN, NCLS };
static const char *CN[] = {"open", "read", "write", "close", "seek", "alloc", "remove", "truncate", "full", "own-alloc"};
enum { K_ERR, K_PART, K_EOF, K_KILL, K_SHORT };
static const char *KN[] = {"error", "partial", "eof", "kill", "short"};
enum { M_TRUNC, M_NOKEY, M_VALUE, M_DATA, M_GARBLE, M_APPEND, M_BLOCK, M_EMPTY, NMUT };
static const char *MN[] = {"truncate", "drop-keyword", "set-value", "data-bytes", "header-bytes", "append", "zero-block", "empty"};
struct Op { int kind = 0, file = 0; bool fresh = false; long nside = 1; uint64_t seed = 0; int nest = 0; str cs = "C"; bool force = false; int lay = 0, mut = 0; long at = 0; str key, val; };
struct Fault { int op = 0, cls = 0; long nth = 1; int kind = 0; long arg = 0; bool persist = false; };
struct Scn { str prop; uint64_t seed = 0; int fill = 0; long clock = 1700000000; std::vector<Op> ops; std::vector<Fault> faults; };
static str quote(const str &s) { str o = "'"; for (unsigned char c : s) o += fmt("%02x", c); return o; }
static str unquote(const str &s) { str o; for (size_t i = 1; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }
static str save(const Scn &s) {
  str o = "fitssim 1\n" + fmt("prop %s\nseed %llu\nfill %d\nclock %ld\n", s.prop.c_str(), (unsigned long long)s.seed, s.fill, s.clock);
  for (auto &p : s.ops) o += fmt("op %d %d %d %ld %llu %d %d %d %d %ld %s %s %s\n", p.kind, p.file, (int)p.fresh, p.nside, (unsigned long long)p.seed, p.nest, (int)p.force, p.lay, p.mut, p.at, quote(p.cs).c_str(), quote(p.key).c_str(), quote(p.val).c_str());
  for (auto &f : s.faults) o += fmt("fault %d %s %ld %s %ld %d\n", f.op, CN[f.cls], f.nth, KN[f.kind], f.arg, (int)f.persist);
  return o;
}
static bool load(const str &t, Scn &s) {
  std::istringstream in(t); str l; bool head = false;
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    std::istringstream w(l); str k; w >> k;
    if (k == "fitssim") head = true;
    else if (k == "prop") w >> s.prop;
    else if (k == "seed") w >> s.seed;
    else if (k == "fill") w >> s.fill;
    else if (k == "clock") w >> s.clock;
    else if (k == "op") { Op p; int a, b; str c, d, e; w >> p.kind >> p.file >> a >> p.nside >> p.seed >> p.nest >> b >> p.lay >> p.mut >> p.at >> c >> d >> e; p.fresh = a; p.force = b; p.cs = unquote(c); p.key = unquote(d); p.val = unquote(e); s.ops.push_back(p); }
    else if (k == "fault") { Fault f; str c, d; int q; w >> f.op >> c >> f.nth >> d >> f.arg >> q; f.persist = q; for (int i = 0; i < NCLS; i++) if (c == CN[i]) f.cls = i; for (int i = 0; i < 5; i++) if (d == KN[i]) f.kind = i; s.faults.push_back(f); }
  }
  return head;
}
static const char *FNAME[] = {"/sim/map.fits", "/sim/data/sky_map.fits", "/sim/b", "/sim/packed.fits.gz"};
static const int NFILES = 4; static const int SLOTS = 8; static const long FCAP = 16 << 20;
static str describe(const Op &o) {
  str f = FNAME[o.file];
  switch (o.kind) {
    case WRITE: return fmt("write_healpix_map(nside %ld, \"%s%s\", nest %d, \"%s\")", o.nside, o.force ? "!" : "", f.c_str(), o.nest, o.cs.c_str());
    case READ: return "read_healpix_map(\"" + f + "\")";
    case SIZE: return "get_fits_size(\"" + f + "\")";
    case FOREIGN: return fmt("a map of nside %ld in layout %d from elsewhere appears as ", o.nside, o.lay) + f;
    default: return fmt("%s of %s (%ld %s %s)", MN[o.mut], f.c_str(), o.at, o.key.c_str(), o.val.c_str());
  }
}

// ------------------------------------------------------------------ shared state: the disk and the record
enum { NOTRUN, RUNNING, RETURNED, EXITED, SIGNALLED, KILLED };
struct File { bool exists; char name[128]; long size; bool clean, lenient; unsigned char data[FCAP]; };
struct OpRes { int how, code; long cnt[NCLS]; int fired, fired_bad, fired_alloc, fired_open, fired_kill; int stderr_len; int expect; uint64_t trace, pre, others; char bad[600]; int existed; uint64_t outhash; };
struct Shared { File f[SLOTS]; OpRes r[64]; char err[300]; };
static Shared *sh;
static const Scn *cur; static int cop = -1;            // the operation in progress (child)
static bool in_sut = false;
static long handles_open = 0;

static void die_kill() { OpRes &r = sh->r[cop]; r.fired_kill++; r.how = KILLED; _exit(77); }
// returns the fault that fires at this call, or null
static const Fault *hit(int cls) {
  OpRes &r = sh->r[cop]; long n = ++r.cnt[cls];
  uint64_t q[2] = {(uint64_t)cls, (uint64_t)n}; r.trace = fnv(q, sizeof q, r.trace ? r.trace : 1469598103934665603ull);
  for (auto &f : cur->faults) if (f.op == cop && f.cls == cls && (f.nth == n || (f.persist && n > f.nth))) {
    r.fired++; if (f.kind != K_SHORT) r.fired_bad++; if (cls == C_ALLOC) r.fired_alloc++; if (cls == C_OPEN) r.fired_open++;
    uint64_t z[3] = {99, (uint64_t)f.kind, (uint64_t)f.arg}; r.trace = fnv(z, sizeof z, r.trace);
    if (f.kind == K_KILL && cls != C_WRITE) die_kill();
    return &f;
  }
  return nullptr;
}
static File *find(const char *name) { for (auto &f : sh->f) if (f.exists && !strcmp(f.name, name)) return &f; return nullptr; }
static File *create(const char *name) { if (auto f = find(name)) return f; for (auto &f : sh->f) if (!f.exists) { f.exists = true; snprintf(f.name, sizeof f.name, "%s", name); f.size = 0; f.clean = f.lenient = false; return &f; } return nullptr; }
// what a file says: compressed ones (gzip) are unpacked
struct Body { const unsigned char *d; long n; std::vector<unsigned char> v; };
static Body body(const File *f) {
  Body b{f->data, f->size}; if (f->size < 2 || f->data[0] != 0x1f || f->data[1] != 0x8b) return b;
  b.v.resize(FCAP); z_stream z{}; inflateInit2(&z, 31); z.next_in = (Bytef *)f->data; z.avail_in = f->size; z.next_out = b.v.data(); z.avail_out = FCAP;
  inflate(&z, Z_FINISH); b.n = FCAP - z.avail_out; inflateEnd(&z); b.v.resize(b.n); b.d = b.v.data(); return b;
}
struct Handle { File *f; long pos; bool rd, wr, app; long last_at, last_n; int id; };
static std::map<FILE *, Handle *> table; static int close_result = 0;
static ssize_t ck_read(void *c, char *b, size_t n) {
  auto h = (Handle *)c; if (!h->rd) { errno = EBADF; return -1; }
  auto f = hit(C_READ); long left = std::max(0L, h->f->size - h->pos); if ((long)n > left) n = left;
  if (f) { if (f->kind == K_EOF) return 0; if (f->kind == K_SHORT) { if (n > 1) n = 1 + f->arg % (n - 1); } else { errno = EIO; return -1; } }
  memcpy(b, h->f->data + h->pos, n); h->pos += n; return n;
}
static ssize_t ck_write1(Handle *h, const char *b, size_t n) {
  if (!h->wr) { errno = EBADF; return -1; }
  auto f = hit(C_WRITE); bool kill = false; ssize_t lim = n;
  if (f) { if (f->kind == K_ERR) { errno = f->arg & 1 ? ENOSPC : EIO; return -1; } if (f->kind == K_PART) lim = n ? f->arg % n : 0; if (f->kind == K_KILL) { kill = true; lim = n ? f->arg % (n + 1) : 0; } if (f->kind == K_SHORT && n > 1) lim = 1 + f->arg % (n - 1); }
  if (h->app) h->pos = h->f->size;
  for (auto &c : cur->faults) if (c.op == cop && c.cls == C_CAP && h->pos + lim > c.arg) { OpRes &r = sh->r[cop]; r.fired++; r.fired_bad++; lim = std::max(0L, c.arg - h->pos); if (!lim) { errno = ENOSPC; return -1; } }
  if (h->pos + lim > FCAP) { errno = EFBIG; return -1; }
  if (h->pos > h->f->size) memset(h->f->data + h->f->size, 0, h->pos - h->f->size);
  memcpy(h->f->data + h->pos, b, lim); h->last_at = h->pos; h->last_n = lim; h->pos += lim; h->f->size = std::max(h->f->size, h->pos);
  if (kill) die_kill();
  if (f && f->kind == K_PART) { errno = ENOSPC; return lim ? lim : -1; }
  return lim;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {      // as a file descriptor does: the C library goes on after a short write
  size_t done = 0; while (done < n) { ssize_t k = ck_write1((Handle *)c, b + done, n - done); if (k <= 0) break; done += k; }
  return done;
}
static int ck_seek(void *c, off64_t *o, int w) {
  auto h = (Handle *)c; if (auto f = hit(C_SEEK)) { (void)f; errno = EIO; return -1; }
  long p = w == SEEK_SET ? *o : w == SEEK_CUR ? h->pos + *o : h->f->size + *o; if (p < 0) { errno = EINVAL; return -1; } h->pos = p; *o = p; return 0;
}
static int ck_close(void *c) {
  auto h = (Handle *)c; handles_open--; auto f = hit(C_CLOSE);
  if (f) { if (f->kind == K_PART && h->wr && h->last_n > 0) memset(h->f->data + h->last_at, 0, h->last_n); delete h; errno = EIO; close_result = -1; return -1; }
  delete h; return 0;
}
static bool simulated(const char *p) { return p && !strncmp(p, "/sim/", 5); }
extern "C" {
FILE *sim_fopen(const char *p, const char *m) {
  if (!in_sut || !simulated(p)) return fopen(p, m);
  if (hit(C_OPEN)) { errno = EMFILE; return nullptr; }
  bool plus = strchr(m, '+'), w = m[0] == 'w', a = m[0] == 'a'; File *f = find(p);
  if (!f && !w && !a) { errno = ENOENT; return nullptr; }
  if (f && w && strchr(m, 'x')) { errno = EEXIST; return nullptr; }
  if (!f && !(f = create(p))) { errno = ENOSPC; return nullptr; }
  if (w) { f->size = 0; f->clean = f->lenient = false; }
  auto h = new Handle{f, a ? f->size : 0, plus || m[0] == 'r', plus || w || a, a, 0, 0, 0};
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; FILE *r = fopencookie(h, m, io);
  if (r) { handles_open++; h->id = 1000 + (int)table.size(); table[r] = h; if (cur->fill & 1) setvbuf(r, nullptr, _IOFBF, 512); }
  return r;
}
// a real stream reports at fclose what its last flush and the close of its descriptor say; a cookie stream does not
int sim_fclose(FILE *f) { if (!table.count(f)) return fclose(f); table.erase(f); int a = fflush(f); close_result = 0; fclose(f); return a || close_result ? EOF : 0; }
int sim_fileno(FILE *f) { auto i = table.find(f); return i == table.end() ? fileno(f) : i->second->id; }
int sim_ftruncate(int fd, off64_t n) {
  for (auto &t : table) if (t.second->id == fd) { if (hit(C_TRUNC)) { errno = EIO; return -1; } if (n > FCAP) { errno = EFBIG; return -1; } File *f = t.second->f; if (n > f->size) memset(f->data + f->size, 0, n - f->size); f->size = n; return 0; }
  return ftruncate(fd, n);
}
int sim_remove(const char *p) { if (!simulated(p)) { errno = EACCES; return -1; } if (hit(C_REMOVE)) { errno = EACCES; return -1; } File *f = find(p); if (!f) { errno = ENOENT; return -1; } f->exists = false; return 0; }
int sim_rename(const char *a, const char *b) { if (!simulated(a) || !simulated(b)) { errno = EACCES; return -1; } if (hit(C_REMOVE)) { errno = EACCES; return -1; } File *f = find(a); if (!f) { errno = ENOENT; return -1; } if (File *g = find(b)) if (g != f) g->exists = false; snprintf(f->name, sizeof f->name, "%s", b); return 0; }
int sim_access(const char *p, int m) { if (!simulated(p)) return access(p, m); if (!find(p)) { errno = ENOENT; return -1; } return 0; }
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
int sim_ftruncate64(int fd, off64_t n) { return sim_ftruncate(fd, n); }
int sim_unlink(const char *p) { return sim_remove(p); }
static const size_t HEAP_LIMIT = 64 << 20;
static void stain(void *p, size_t n) { if (!p || !(cur->fill / 2)) return; static const unsigned char P[] = {0, 0xff, 0x41, 0x3f, 0xcc, 0x7f}; memset(p, P[(cur->fill / 2) % 6], n); }
static void *alloc_(int cls, size_t n) { if (!in_sut) return malloc(n); if (hit(cls) || n > HEAP_LIMIT) { errno = ENOMEM; return nullptr; } void *p = malloc(n); stain(p, n); return p; }
void *sim_malloc(size_t n) { return alloc_(C_ALLOC, n); }
void *simo_malloc(size_t n) { return alloc_(C_OWN, n); }
void *simo_calloc(size_t a, size_t b) { if (b && a > HEAP_LIMIT / b) return nullptr; void *p = alloc_(C_OWN, a * b); if (p) memset(p, 0, a * b); return p; }
void *simo_realloc(void *p, size_t n) { if (!in_sut) return realloc(p, n); if (hit(C_OWN) || n > HEAP_LIMIT) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
void *sim_calloc(size_t a, size_t b) { if (!in_sut) return calloc(a, b); if (hit(C_ALLOC) || (a && b > HEAP_LIMIT / a)) { errno = ENOMEM; return nullptr; } return calloc(a, b); }
void *sim_realloc(void *p, size_t n) { if (!in_sut) return realloc(p, n); if (hit(C_ALLOC) || n > HEAP_LIMIT) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
// no network: cfitsio's network drivers find none
int curl_global_init(long) { return 2; } void curl_global_cleanup(void) {} void *curl_easy_init(void) { return nullptr; } int curl_easy_setopt(void *, int, ...) { return 2; } int curl_easy_perform(void *) { return 2; } void curl_easy_cleanup(void *) {} const char *curl_easy_strerror(int) { return "no network"; }
time_t sim_time(time_t *t) { time_t v = cur ? cur->clock : 0; if (t) *t = v; return v; }
}

// ------------------------------------------------------------------ an independent reading of the file format
struct Fits { bool ok = false, sized = true; str why; bool has_obs = false, bad_obs = false; long nside = 0, obs = 0, rows = 0, rowlen = 0, off = 0; bool has_ord = false, has_cs = false; str ord, cs; char type = 'E'; long rep = 1; double tscal = 1, tzero = 0; };
static bool card(const unsigned char *h, long len, const char *key, str &v) {
  char k[9]; snprintf(k, 9, "%-8s", key);
  for (long i = 0; i + 80 <= len; i += 80) { if (!memcmp(h + i, "END     ", 8)) break; if (!memcmp(h + i, k, 8) && h[i + 8] == '=') { v.assign((const char *)h + i + 9, 71); return true; } }
  return false;
}
static bool num(const str &v, long &o) { char *e; const char *p = v.c_str(); while (*p == ' ') p++; if (!(*p == '-' || *p == '+' || (*p >= '0' && *p <= '9'))) return false; errno = 0; o = strtol(p, &e, 10); if (errno) return false; while (*e == ' ') e++; return !*e || *e == '/'; }
static bool text(const str &v, str &o) { size_t p = v.find_first_not_of(' '); if (p == str::npos || v[p] != '\'') return false; o.clear(); for (p++; p < v.size(); p++) { if (v[p] == '\'') { if (p + 1 < v.size() && v[p + 1] == '\'') p++; else { while (!o.empty() && o.back() == ' ') o.pop_back(); return true; } } o += v[p]; } return false; }
static long hdrlen(const unsigned char *d, long n) { for (long i = 0; i + 80 <= n; i += 80) if (!memcmp(d + i, "END     ", 8)) { long e = (i / 2880 + 1) * 2880; return e <= n ? e : -1; } return -1; }
static Fits parse(const unsigned char *d, long n) {
  Fits f; long h = hdrlen(d, n); str v; long t;
  if (h < 0) { f.why = "no primary header"; return f; }
  long p = h; if (card(d, h, "NAXIS", v) && num(v, t) && t > 0) { long bp = 8, sz = 1; if (card(d, h, "BITPIX", v)) num(v, bp); for (int i = 1; i <= t && i < 9; i++) { long k = 0; if (card(d, h, fmt("NAXIS%d", i).c_str(), v)) num(v, k); sz *= k; } p += (sz * labs(bp) / 8 + 2879) / 2880 * 2880; }
  if (p > n) { f.why = "no extension"; return f; }
  const unsigned char *x = d + p; long hl = hdrlen(x, n - p); if (hl < 0) { f.why = "no complete extension header"; return f; }
  str s; if (!card(x, hl, "XTENSION", v) || !text(v, s) || s != "BINTABLE") f.sized = false;
  if (!card(x, hl, "NAXIS1", v) || !num(v, f.rowlen) || !card(x, hl, "NAXIS2", v) || !num(v, f.rows)) f.sized = false;
  if (!card(x, hl, "NSIDE", v) || !num(v, f.nside)) { f.why = "no NSIDE"; return f; }
  if (!card(x, hl, "TFORM1", v) || !text(v, s)) { f.sized = false; s = "?"; }
  f.rep = 1; size_t i = 0; if (isdigit(s[0])) { f.rep = atol(s.c_str()); while (i < s.size() && isdigit(s[i])) i++; } f.type = i < s.size() ? s[i] : '?';
  if (card(x, hl, "ORDERING", v) && text(v, f.ord)) f.has_ord = true;
  if (card(x, hl, "COORDSYS", v) && text(v, f.cs)) f.has_cs = true;
  if (card(x, hl, "OBS_NPIX", v)) { f.has_obs = true; f.bad_obs = !num(v, f.obs); }
  if (card(x, hl, "TSCAL1", v)) f.tscal = atof(v.c_str());
  if (card(x, hl, "TZERO1", v)) f.tzero = atof(v.c_str());
  f.off = p + hl; f.ok = true; return f;
}
static float bef(const unsigned char *p) { uint32_t u = (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; float r; memcpy(&r, &u, 4); return r; }
static double bed(const unsigned char *p) { uint64_t u = 0; for (int i = 0; i < 8; i++) u = u << 8 | p[i]; double r; memcpy(&r, &u, 8); return r; }
static bool same_value(float got, double file) {
  if (!std::isfinite(file)) return got == (float)HEALPIX_NULLVAL;
  if (fabs(file) < 1.1754943508222875e-38) return got == 0 || got == (float)file;
  return got == (float)file;
}
static void put_card(str &h, const str &c) { str t = c; t.resize(80, ' '); h += t; }
static str ival(const char *k, long v) { return fmt("%-8s= %20ld", k, v); }
static str sval(const char *k, const str &v) { return fmt("%-8s= '%-8s'", k, v.c_str()); }
static float pixel(uint64_t seed, long i, int pat) {
  uint64_t x = seed + 77 * (uint64_t)i; uint64_t r = Rng::mix(x); float f; uint32_t u = (uint32_t)r;
  switch (pat) {
    case 0: return 2.f * i;
    case 1: memcpy(&f, &u, 4); return f;                                       // any bit pattern: infinities, NaN, denormal numbers
    case 2: return (float)((r >> 40) / 1e4) - 500;
    case 3: return i % 7 == 3 ? (float)HEALPIX_NULLVAL : i * .5f;
    case 4: return i == (long)(seed % 97) ? -0.f : (i & 1 ? 3.4e38f : 1.2e-38f);
    default: return (float)(i % 251);
  }
}
static int pat_of(uint64_t seed) { return (int)(seed / 11 % 6); }
static void make_foreign(const Op &o) {
  // layouts: 0 as written here, 1 rows of several pixels, 2 three columns, 3 double, 4 with a primary image, 5 partial sky, 6 unknown order, 7 scaled, 8 long keyword values
  static const int REP[] = {12, 4, 3, 64, 1024, 2}; long npix = 12 * o.nside * o.nside, rep = 1; int cols = 1, w = 4; char ty = 'E'; int pat = pat_of(o.seed);
  if (o.lay == 1 || o.lay == 2) { rep = REP[o.seed % 6]; while (npix % rep) rep /= 2; if (rep < 1) rep = 1; }
  if (o.lay == 2) cols = 2 + o.seed % 3;
  if (o.lay == 3) { ty = 'D'; w = 8; if (pat == 1) pat = 2; }
  if (o.lay == 5) { rep = 1; cols = 2; }
  long rows = o.lay == 5 ? std::max(1L, (long)(o.seed % npix)) : npix / rep;
  str p; put_card(p, "SIMPLE  =                    T"); put_card(p, ival("BITPIX", 16)); str img;
  if (o.lay == 4) { put_card(p, ival("NAXIS", 2)); put_card(p, ival("NAXIS1", 37)); put_card(p, ival("NAXIS2", 53)); img.assign(37 * 53 * 2, '\x7e'); img.resize((img.size() + 2879) / 2880 * 2880, 0); } else put_card(p, ival("NAXIS", 0));
  put_card(p, "EXTEND  =                    T"); put_card(p, "END"); p.resize((p.size() + 2879) / 2880 * 2880, ' ');
  str h; put_card(h, "XTENSION= 'BINTABLE'"); put_card(h, ival("BITPIX", 8)); put_card(h, ival("NAXIS", 2)); put_card(h, ival("NAXIS1", rep * w * cols)); put_card(h, ival("NAXIS2", rows)); put_card(h, ival("PCOUNT", 0)); put_card(h, ival("GCOUNT", 1)); put_card(h, ival("TFIELDS", cols));
  for (int c = 1; c <= cols; c++) { put_card(h, sval(fmt("TTYPE%d", c).c_str(), o.lay == 5 ? (c == 1 ? "PIXEL" : "SIGNAL") : fmt("COL%d", c))); put_card(h, sval(fmt("TFORM%d", c).c_str(), o.lay == 5 && c == 1 ? "1J" : fmt("%ld%c", rep, ty))); }
  put_card(h, sval("PIXTYPE", "HEALPIX"));
  if (o.lay == 7) { put_card(h, "TSCAL1  =                  2.0"); put_card(h, "TZERO1  =                  0.0"); }
  if (o.lay != 6) put_card(h, sval("ORDERING", o.lay == 8 && o.seed % 3 == 0 ? str(12 + o.seed % 50, 'N') : o.nest ? "NESTED" : "RING"));
  put_card(h, ival("NSIDE", o.nside));
  if (o.lay != 6 || o.seed % 2) put_card(h, sval("COORDSYS", o.lay == 8 ? (o.seed % 2 ? str("EQUATORIAL") : str(8 + o.seed % 58, 'G')) : o.cs));
  if (o.lay == 5 || (o.lay == 0 && o.seed % 3 == 0)) put_card(h, ival("OBS_NPIX", o.lay == 5 ? rows : npix));
  for (uint64_t i = 0; i < o.seed % 60; i++) put_card(h, fmt("HISTORY line %d", (int)i));
  put_card(h, "END"); h.resize((h.size() + 2879) / 2880 * 2880, ' ');
  File *f = create(FNAME[o.file]); if (!f) return;
  long at = 0; auto put = [&](const str &s) { memcpy(f->data + at, s.data(), s.size()); at += s.size(); };
  put(p); put(img); put(h);
  long i = 0;
  for (long r = 0; r < rows; r++) for (int c = 0; c < cols; c++) for (long k = 0; k < rep; k++) {
    if (w == 8) { double v = pixel(o.seed, i, pat); uint64_t u; memcpy(&u, &v, 8); for (int b = 7; b >= 0; b--) f->data[at++] = u >> (8 * b); }
    else { float v = c ? -1.f - i : pixel(o.seed, i, pat); uint32_t u; memcpy(&u, &v, 4); if (o.lay == 5 && c == 0) u = (uint32_t)r; for (int b = 3; b >= 0; b--) f->data[at++] = u >> (8 * b); }
    if (c == 0) i++;
  }
  while (at % 2880) f->data[at++] = 0;
  f->size = at; f->clean = o.lay != 5 && o.lay != 7; f->lenient = false;      // 5 cannot be read as a full map
}
static void damage(const Op &o) {
  File *f = find(FNAME[o.file]); if (!f || !f->size) return;
  f->clean = false; long n = f->size;
  auto findcard = [&](const str &k) -> unsigned char * { char w[9]; snprintf(w, 9, "%-8s", k.c_str()); long i = 0; for (i = 2880; i + 80 <= n; i += 80) if (!memcmp(f->data + i, w, 8)) return f->data + i; return nullptr; };
  switch (o.mut) {
    case M_TRUNC: f->size = o.at % (n + 1); break;
    case M_EMPTY: f->size = 0; break;
    case M_NOKEY: if (auto c = findcard(o.key)) { memcpy(c, "COMMENT ", 8); c[8] = ' '; } break;
    case M_VALUE: { long t; str q; if ((o.key == "NSIDE" || o.key == "OBS_NPIX") && !num(o.val, t) && o.val.find_first_of("0123456789TF") != str::npos) f->lenient = true; if ((o.key == "ORDERING" || o.key == "COORDSYS") && !text(o.val, q)) f->lenient = true; } if (auto c = findcard(o.key)) { str v = fmt("%-8s= ", o.key.c_str()) + o.val; v.resize(80, ' '); memcpy(c, v.data(), 80); } break;
    case M_DATA: { Fits p = parse(f->data, n); if (p.ok && p.off < n) for (int i = 0; i < 5; i++) { uint64_t x = o.seed + i; f->data[p.off + Rng::mix(x) % (n - p.off)] = (unsigned char)(x >> 20); } break; }
    case M_GARBLE: { f->lenient = true; for (int i = 0; i < 1 + o.at % 4; i++) { uint64_t x = o.seed + i; uint64_t r = Rng::mix(x); long k = r % std::min(n, 5760L); f->data[k] = (r >> 40) % 3 ? 32 + (r >> 33) % 95 : (unsigned char)(r >> 50); } break; }
    case M_APPEND: { long k = std::min(FCAP - n, o.at % 9000); memset(f->data + n, (int)(o.seed & 255), k); f->size += k; break; }
    case M_BLOCK: { long b = o.at % ((n + 2879) / 2880); if (b < 3) f->lenient = true; memset(f->data + b * 2880, o.seed & 1 ? 0 : ' ', std::min(2880L, n - b * 2880)); break; }
  }
}

// ------------------------------------------------------------------ running
struct Guarded { unsigned char lo[64]; char b[10]; unsigned char hi[128]; void set(int fill) { memset(lo, 0xA5, sizeof lo); memset(hi, 0xA5, sizeof hi); memset(b, fill, sizeof b); } bool intact() { for (auto c : lo) if (c != 0xA5) return false; for (auto c : hi) if (c != 0xA5) return false; return true; } str get() { return str(b, strnlen(b, sizeof b)); } };
static void bad(const str &m) { OpRes &r = sh->r[cop]; if (!r.bad[0]) snprintf(r.bad, sizeof r.bad, "%s", m.c_str()); }
static bool text_ok(const str &got, const str &file) { if (file.size() <= 9) return got == file; return got.size() >= 8 && file.compare(0, got.size(), got) == 0; }
static uint64_t disk_hash(const char *except) { uint64_t h = 7; for (auto &f : sh->f) if (f.exists && (!except || strcmp(f.name, except))) { h = fnv(f.name, strlen(f.name), h); h = quick(f.data, f.size, h); } return h; }
static void run_op(const Scn &sc, int i) {
  const Op &o = sc.ops[i]; OpRes &r = sh->r[i]; const char *name = FNAME[o.file];
  if (o.kind == FOREIGN) { make_foreign(o); r.how = RETURNED; return; }
  if (o.kind == MUT) { damage(o); r.how = RETURNED; return; }
  File *before = find(name); r.existed = before != nullptr; r.pre = before ? quick(before->data, before->size, 1) : 0; r.others = disk_hash(o.kind == WRITE ? name : nullptr);
  r.expect = o.kind == WRITE ? o.nside >= 1 && !o.cs.empty() && (o.force || !before) : before && before->clean;
  if (before && o.kind == SIZE && before->clean && [&] { Body y = body(before); return !parse(y.d, y.n).has_ord; }()) r.expect = 0;
  Guarded go, gc; int fillc = (sc.fill & 2) ? 0x55 : 0; go.set(fillc); gc.set(fillc);
  if (o.kind == WRITE) {
    long npix = std::max(12L, 12 * o.nside * o.nside); int pat = pat_of(o.seed);
    float *m = (float *)malloc(npix * sizeof(float)); for (long k = 0; k < npix; k++) m[k] = pixel(o.seed, k, pat);
    uint64_t mh = quick(m, npix * 4, 1); str full = (o.force ? "!" : "") + str(name);
    r.how = RUNNING; in_sut = true; write_healpix_map(m, o.nside, full.c_str(), (char)o.nest, o.cs.c_str()); in_sut = false; r.how = RETURNED;
    if (handles_open) bad(fmt("open: %ld file(s) left open", handles_open));
    if (quick(m, npix * 4, 1) != mh) bad("input: the caller's values were changed");
    if (disk_hash(name) != r.others) bad("other: another file was changed");
    if (r.existed && !o.force && !r.fired_open) bad("replaced: success for an existing file although replacing it was not requested");
    if (o.nside < 1 || o.cs.empty()) bad("invalid: a map with an invalid resolution or no coordinate system is presented as written");
    File *f = find(name);
    if (!f) bad("lost: reported as written, but there is no such file");
    else if (!r.bad[0]) {
      Body y = body(f); Fits p = parse(y.d, y.n); long rl = p.rep * 4;
      if (!p.ok) bad("torn: reported as written, but the file has " + p.why);
      else if (y.n % 2880 || y.n < p.off + npix * 4) bad(fmt("torn: reported as written, but the file ends after %ld of %ld bytes", y.n, p.off + npix * 4));
      else if (p.nside != o.nside) bad(fmt("header: nside %ld was written as %ld", o.nside, p.nside));
      else if (p.type != 'E' || p.rows * p.rep != npix || p.rowlen != rl) bad("header: the table does not have the size of the map");
      else if (p.ord != (o.nest ? "NESTED" : "RING")) bad("header: ordering written as '" + p.ord + "'");
      else if (p.cs != (o.cs[0] == 'G' ? "G" : o.cs[0] == 'E' ? "E" : "C")) bad("header: coordinate system \"" + o.cs + "\" written as '" + p.cs + "'");
      else { for (long k = 0; k < npix; k++) { float v = bef(y.d + p.off + 4 * k); if (memcmp(&v, &m[k], 4) && !(std::isnan(v) && std::isnan(m[k]))) { bad(fmt("values: pixel %ld is %g in the file and %g in the map", k, v, m[k])); break; } } }
      f->clean = true; f->lenient = false; r.outhash = quick(y.d + p.off, p.ok ? std::max(0L, std::min(npix * 4, y.n - p.off)) : 0, 1);
    }
    free(m);
  } else {
    static long nside_out; nside_out = -7; float *m = nullptr; long np = 0;
    r.how = RUNNING; in_sut = true;
    if (o.kind == READ) m = read_healpix_map(name, &nside_out, gc.b, go.b); else np = get_fits_size(name, &nside_out, go.b);
    in_sut = false; r.how = RETURNED;
    if (handles_open) bad(fmt("open: %ld file(s) left open", handles_open));
    if (disk_hash(nullptr) != r.others) bad("other: reading changed a file");
    if (!gc.intact() || !go.intact()) bad("overrun: bytes after the caller's buffer of 10 characters were overwritten");
    File *f = find(name);
    if (o.kind == READ && !m) { r.how = EXITED; r.code = 1; r.stderr_len = 1; return; }
    if (!f) { bad("invented: success for a file that does not exist"); return; }
    Body y = body(f); Fits p = parse(y.d, y.n);
    if (p.ok && !p.sized && o.kind == READ) { p.ok = false; p.why = "no binary table with a size and a column format"; }
    if (!p.ok) { if (!f->lenient) bad("invented: success, but the file has " + p.why); if (nside_out < 1 || nside_out > (1L << 29)) bad(fmt("invented: success with nside %ld", nside_out)); free(m); return; }
    if (nside_out < 1 || nside_out > (1L << 29)) { bad(fmt("invented: success with nside %ld", nside_out)); free(m); return; }
    if (nside_out != p.nside) { if (!f->lenient) bad(fmt("nside: %ld returned, the file says %ld", nside_out, p.nside)); free(m); return; }
    long npix = 12 * p.nside * p.nside;
    if (p.has_ord && !text_ok(go.get(), p.ord) && !f->lenient) bad("ordering: '" + go.get() + "' returned, the file says '" + p.ord + "'");
    if (!p.has_ord && o.kind == SIZE && !f->lenient) bad("ordering: success without an ORDERING keyword");
    if (!p.has_ord && o.kind == READ && !f->lenient && !go.get().empty() && go.b[0] != fillc) bad("ordering: '" + go.get() + "' returned, the file has none");
    if (o.kind == READ && p.has_cs && !text_ok(gc.get(), p.cs) && !f->lenient) bad("coordsys: '" + gc.get() + "' returned, the file says '" + p.cs + "'");
    if (o.kind == READ && !p.has_cs && !f->lenient && !gc.get().empty() && gc.b[0] != fillc) bad("coordsys: '" + gc.get() + "' returned, the file has none");
    if (o.kind == SIZE) { long want = p.has_obs ? p.obs : npix; if (p.bad_obs && !f->lenient) bad("size: success with an unreadable OBS_NPIX"); else if (np != want && !f->lenient) bad(fmt("size: %ld returned, the file says %ld", np, want)); r.outhash = np; return; }
    int w = p.type == 'E' ? 4 : p.type == 'D' ? 8 : 0; bool lays = w && p.rowlen >= p.rep * w && p.rep >= 1 && p.tscal == 1 && p.tzero == 0;
    if (p.rows < 1 || p.rep < 1 || (lays && p.rows * p.rep < npix)) { if (!f->lenient) bad(fmt("invented: success, but the table holds %ld values of %ld", p.rows * p.rep, npix)); }
    else if (lays) {
      for (long k = 0; k < npix; k++) { long at = p.off + k / p.rep * p.rowlen + k % p.rep * w; if (at + w > y.n) { bad(fmt("invented: success, but the file ends before the value of pixel %ld", k)); break; }
        double v = w == 4 ? bef(y.d + at) : bed(y.d + at); if (!same_value(m[k], v) && !f->lenient) { bad(fmt("values: pixel %ld read as %.9g, the file says %.9g", k, m[k], v)); break; } }
    }
    r.outhash = quick(m, npix * 4, 1);
    free(m);
  }
}
struct Exec { std::vector<OpRes> r; uint64_t hash = 0; str err; };
static uint64_t g_execs = 0, g_procs = 0;
static int errfd = -1;
static Exec run(const Scn &sc) {
  g_execs++; cur = &sc; Exec e; int n = (int)sc.ops.size();
  for (auto &f : sh->f) f.exists = false;
  memset(sh->r, 0, sizeof sh->r);
  str all;
  for (int i = 0; i < n;) {
    g_procs++;
    int pfd[2]; if (pipe(pfd)) abort();
    if (ftruncate(errfd, 0)) abort();
    lseek(errfd, 0, SEEK_SET);
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
      close(pfd[0]); dup2(errfd, 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
      for (int k = i; k < n; k++) { cop = k; if (k > i && sc.ops[k].fresh) _exit(0); run_op(sc, k); if (sh->r[k].how == EXITED) _exit(0); }
      cop = n; _exit(0);
    }
    close(pfd[1]); pollfd pf = {pfd[0], POLLIN, 0}; int st = 0; bool slow = false;
    if (poll(&pf, 1, 30000) == 0) { kill(pid, SIGKILL); slow = true; }
    close(pfd[0]); while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    int k = i; while (k < n && sh->r[k].how == RETURNED) k++;
    char buf[4000]; ssize_t el = pread(errfd, buf, sizeof buf, 0);
    if (k < n) {
      OpRes &r = sh->r[k];
      if (r.how == RUNNING) { if (slow) { r.how = SIGNALLED; r.code = 999; } else if (WIFEXITED(st)) { r.how = EXITED; r.code = WEXITSTATUS(st); } else { r.how = SIGNALLED; r.code = WTERMSIG(st); } }
      if (r.how != NOTRUN) { r.stderr_len = std::max(r.stderr_len, el > 0 ? (int)el : 0);
        const Op &o = sc.ops[k]; if (o.kind == WRITE && r.existed && !o.force && !r.fired_open) { File *f = find(FNAME[o.file]); if (!f || quick(f->data, f->size, 1) != r.pre) snprintf(r.bad, sizeof r.bad, "replaced: an existing file was changed although replacing it was not requested"); }
        if ((o.kind == WRITE || o.kind == READ || o.kind == SIZE) && !r.bad[0] && disk_hash(o.kind == WRITE ? FNAME[o.file] : nullptr) != r.others) snprintf(r.bad, sizeof r.bad, "other: another file was changed");
        if (r.how == EXITED && r.code == 99) e.err = str(buf, std::max<ssize_t>(el, 0)); k++; }
    }
    i = std::max(k, i + 1);
  }
  e.r.assign(sh->r, sh->r + n);
  uint64_t h = 5; for (auto &r : e.r) { int q[2] = {r.how, r.code}; h = fnv(q, sizeof q, h); h = fnv(&r.trace, 8, h); h = fnv(&r.outhash, 8, h); h = fnv(r.bad, strlen(r.bad), h); }
  e.hash = h; return e;
}
struct Verdict { str cls, msg; Exec e; bool ok() const { return cls.empty(); } };

static Verdict judge(const Scn &sc) {
  Verdict v; v.e = run(sc);
  for (size_t i = 0; i < v.e.r.size(); i++) {
    const OpRes &r = v.e.r[i]; const Op &o = sc.ops[i]; str d = fmt("operation %d, ", (int)i + 1) + describe(o) + ": ";
    auto set = [&](const str &c, const str &m) { if (v.cls.empty()) { v.cls = str(ON[o.kind]) + "-" + c; v.msg = d + m; } };
    if (r.bad[0]) { str b = r.bad; size_t c = b.find(':'); set(b.substr(0, c), b.substr(c + 2)); }
    if (o.kind == FOREIGN || o.kind == MUT) continue;
    bool crash = (r.how == SIGNALLED && !(r.code == SIGABRT && r.stderr_len)) || (r.how == EXITED && r.code == 99);
    if (crash && !r.fired_alloc) set("crash", r.code == 999 ? "no progress within 30 s" : r.code == 99 ? "invalid memory access" : fmt("killed by signal %d", r.code));
    else if (!crash && r.how == EXITED && r.code == 0) set("silent", "ended the process with status 0");
    else if (!crash && (r.how == EXITED || r.how == SIGNALLED) && !r.stderr_len) set("silent", "failed without a message");
    else if (r.how == EXITED && r.expect && !r.fired_bad) set("refused", "failed although nothing was wrong");
  }
  return v;
}
// ------------------------------------------------------------------ generation
static Scn plan(const str &prop, uint64_t seed, bool thorough) {
  Scn s; s.prop = prop; s.seed = seed; Rng r(seed); s.fill = (int)r.below(12); s.clock = r.chance(.5) ? 1700000000 : r.range(0, 16000000000L);
  static const char *CS[] = {"C", "G", "E", "Q", "X", "Galactic", "c", "Ecliptic", "C       ", "g", "e", "galactic"};
  auto nside = [&]() { double x = r.real(); if (x < .5) return r.range(1, 5); if (x < .9) return r.range(1, 24); if (x < .98 || !thorough) return 1L << r.below(7); return 1L << r.below(9); };
  auto base = [&](int k) { Op o; o.kind = k; o.file = r.chance(.7) ? 0 : (int)r.below(NFILES); o.fresh = r.chance(.3); o.nside = nside(); o.seed = r.u64() >> 20; o.nest = r.chance(.5) ? 0 : r.chance(.7) ? 1 : (int)r.range(-128, 127); o.cs = CS[r.chance(.6) ? r.below(3) : r.below(12)]; o.force = r.chance(.4); return o; };
  auto writeop = [&]() { Op o = base(WRITE); if (r.chance(.02)) o.nside = -(long)r.below(5); if (r.chance(.02)) o.cs = ""; return o; };
  auto foreign = [&]() { Op o = base(FOREIGN); static const int L[] = {0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8}; o.lay = L[r.below(11)]; if (r.chance(.3)) o.nside = 1L << r.below(6); if (o.nest > 1 || o.nest < 0) o.nest = 1; if (o.cs.size() > 9) o.cs = "C"; return o; };
  auto mutate = [&](const Op &src) {
    Op o = base(MUT); o.file = src.file; static const int M[] = {0, 0, 0, 0, 1, 2, 2, 2, 3, 4, 5, 6, 7}; o.mut = M[r.below(13)]; o.nside = src.nside; long npix = 12 * src.nside * src.nside;
    o.at = r.chance(.3) ? r.range(0, 6) * 2880 + r.range(-4, 4) : r.chance(.4) ? 5760 + r.range(-100, npix * 4 + 200) : r.range(0, 20000); if (o.at < 0) o.at = 0;
    static const char *K[] = {"NSIDE", "NAXIS2", "NAXIS1", "TFORM1", "ORDERING", "COORDSYS", "OBS_NPIX", "TFIELDS", "XTENSION", "NAXIS", "PCOUNT", "BITPIX", "PIXTYPE", "END"};
    o.key = K[r.chance(.5) ? r.below(3) : r.below(o.mut == M_NOKEY ? 14 : 12)];
    strs V;
    if (o.key == "NSIDE") V = {"0", "-1", "-4", fmt("%ld", src.nside * 2), fmt("%ld", src.nside * 4), fmt("%ld", std::max(1L, src.nside / 2)), fmt("%ld", src.nside + 1), "536870912", "536870913", "1073741824", "2147483648", "4294967296", "1753413056", "99999999999999999999", "'abc'", "T", "1.5", "", fmt("%ld", src.nside), "3037000500", fmt("%ld", -src.nside)};
    else if (o.key == "NAXIS2" || o.key == "NAXIS1") V = {"0", "1", "-1", fmt("%ld", npix / 2), fmt("%ld", npix / 3), fmt("%ld", npix * 2), fmt("%ld", npix - 1), fmt("%ld", npix + 1), "9223372036854775807", "'x'", ""};
    else if (o.key == "TFORM1") V = {"'2E      '", "'1J      '", "'1A      '", "'0E      '", "'Q'", "'1PE(3)'", "7", "'1D'", "'4A'", "'1I'"};
    else if (o.key == "OBS_NPIX") V = {"'many'", "-5", "7", "T", "", "99999999999999999999"};
    else if (o.key == "XTENSION") V = {"'IMAGE   '", "'TABLE   '", "'NOTHING '", "5"};
    else if (o.key == "ORDERING" || o.key == "COORDSYS") V = {"'NESTED'", "5", "'" + str(r.range(1, 66), 'Z') + "'", "''", "'R", "T", ""};
    else V = {"0", "1", "3", "-1", "999", "'x'", "2", "99999999999"};
    o.val = V[r.below(V.size())];
    return o;
  };
  auto rd = [&](int f) { Op o = base(r.chance(.7) ? READ : SIZE); o.file = f; return o; };
  if (prop == "F01") {
    int n = (int)r.range(1, thorough ? 5 : 3);
    for (int i = 0; i < n; i++) {
      if (r.chance(.15)) s.ops.push_back(foreign());
      Op w = writeop(); s.ops.push_back(w);
      if (r.chance(.6)) s.ops.push_back(rd(w.file));
      if (r.chance(.3)) s.ops.push_back(rd(w.file));
    }
  } else {
    int n = (int)r.range(1, thorough ? 4 : 2);
    for (int i = 0; i < n; i++) {
      Op w = r.chance(.4) ? writeop() : foreign(); if (w.kind == WRITE) w.force = true; s.ops.push_back(w);
      if (r.chance(.3)) s.ops.push_back(rd(w.file));
      int m = r.chance(.25) ? 0 : r.chance(.7) ? 1 : 2; while (m--) s.ops.push_back(mutate(w));
      int k = (int)r.range(1, 3); while (k--) s.ops.push_back(rd(w.file));
    }
  }
  return s;
}
static void add_faults(Scn &s, const Exec &dry) {
  uint64_t x = s.seed ^ 0xfa17; Rng r(Rng::mix(x)); if (r.chance(.12)) return;
  int n = r.chance(.75) ? 1 : (int)r.range(2, 3);
  while (n--) {
    std::vector<int> cand; for (size_t i = 0; i < s.ops.size(); i++) if (s.ops[i].kind <= SIZE && (s.prop == "F01" ? s.ops[i].kind == WRITE || r.chance(.2) : s.ops[i].kind != WRITE || r.chance(.1))) cand.push_back((int)i);
    if (cand.empty()) return;
    Fault f; f.op = cand[r.below(cand.size())]; const OpRes &d = dry.r[f.op]; bool w = s.ops[f.op].kind == WRITE;
    static const int CW[] = {C_WRITE, C_WRITE, C_WRITE, C_WRITE, C_CLOSE, C_CLOSE, C_CLOSE, C_ALLOC, C_OPEN, C_REMOVE, C_TRUNC, C_CAP, C_CAP, C_READ, C_OWN}, CR[] = {C_READ, C_READ, C_READ, C_READ, C_READ, C_CLOSE, C_READ, C_READ, C_ALLOC, C_OWN, C_OPEN};
    f.cls = w ? CW[r.below(15)] : CR[r.below(11)];
    f.nth = 1 + r.below(d.cnt[f.cls] + (r.chance(.1) ? 2 : 0)); f.persist = r.chance(.4); f.arg = r.u64() >> 40;
    if (f.cls == C_CAP) { f.nth = 1; long total = 8640 + 48 * s.ops[f.op].nside * s.ops[f.op].nside; f.arg = r.chance(.3) ? r.range(0, 4) * 2880 : r.below(total + 100); }
    if (f.cls == C_WRITE) { static const int K[] = {K_ERR, K_ERR, K_PART, K_KILL, K_SHORT}; f.kind = K[r.below(5)]; }
    else if (f.cls == C_READ) { static const int K[] = {K_ERR, K_ERR, K_EOF, K_SHORT, K_KILL}; f.kind = K[r.below(5)]; }
    else if (f.cls == C_CLOSE) f.kind = r.chance(.15) ? K_KILL : r.chance(.5) ? K_PART : K_ERR;
    else f.kind = K_ERR;
    s.faults.push_back(f);
  }
}
// ------------------------------------------------------------------ minimising
static Scn minimise(Scn best, const str &cls, double secs) {
  double until = now_s() + secs; bool again = true;
  auto ok = [&](const Scn &t) { return now_s() < until && judge(t).cls == cls; };
  while (again && now_s() < until) {
    again = false;
    for (size_t i = best.faults.size(); i-- > 0;) { Scn t = best; t.faults.erase(t.faults.begin() + i); if (ok(t)) { best = t; again = true; } }
    for (size_t i = best.ops.size(); i-- > 0;) { if (best.ops.size() < 2) break; Scn t = best; t.ops.erase(t.ops.begin() + i); std::vector<Fault> fs; for (auto f : t.faults) if (f.op != (int)i) { if (f.op > (int)i) f.op--; fs.push_back(f); } t.faults = fs; if (ok(t)) { best = t; again = true; } }
    for (size_t i = 0; i < best.ops.size(); i++) {
      for (long ns : {1L, 2L, best.ops[i].nside / 2}) if (ns >= 1 && ns < best.ops[i].nside) { Scn t = best; t.ops[i].nside = ns; if (ok(t)) { best = t; again = true; break; } }
      if (best.ops[i].fresh) { Scn t = best; t.ops[i].fresh = false; if (ok(t)) { best = t; again = true; } }
      if (best.ops[i].seed) { Scn t = best; t.ops[i].seed = 0; if (ok(t)) { best = t; again = true; } }
      if (best.ops[i].kind == WRITE && best.ops[i].cs != "C") { Scn t = best; t.ops[i].cs = "C"; if (ok(t)) { best = t; again = true; } }
      if (best.ops[i].file) { Scn t = best; for (auto &o : t.ops) o.file = 0; if (ok(t)) { best = t; again = true; } }
    }
    for (size_t i = 0; i < best.faults.size(); i++) { if (best.faults[i].persist) { Scn t = best; t.faults[i].persist = false; if (ok(t)) { best = t; again = true; } } while (best.faults[i].nth > 1) { Scn t = best; t.faults[i].nth--; if (!ok(t)) break; best = t; } }
    if (best.fill) { Scn t = best; t.fill = 0; if (ok(t)) { best = t; again = true; } }
  }
  return best;
}
static str jstr(const str &s) { str r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; } return r + "\""; }
extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=0:handle_sigfpe=0:handle_sigbus=0:symbolize=0:print_legend=0:quarantine_size_mb=1"; }
int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("FITSSIM_NOASLR") && personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("FITSSIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
  strs a(argv + 1, argv + argc);
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); errfd = memfd_create("err", 0);
  if (a.size() == 8 && a[0] == "batch") {
    uint64_t seed = strtoull(a[2].c_str(), nullptr, 10); long from = atol(a[3].c_str()), count = atol(a[4].c_str()); double wall = atof(a[5].c_str()), t0 = now_s();
    std::set<str> seen; long done = 0; std::set<uint64_t> sigs; std::map<str, uint64_t> kinds, feats; strs samples; uint64_t digest = 0, calls = 0; double clockspan = 0;
    for (long i = from; i < from + count && now_s() - t0 < wall && seen.size() < 3; i++) {
      uint64_t x = seed * 1000003ull + i * 2654435761ull + fnv(a[1].data(), a[1].size()); uint64_t s = Rng::mix(x);
      Scn sc = plan(a[1], s, a[6] == "thorough"); Verdict v = judge(sc); done++;
      Scn bare = sc; bool fault = false;
      digest ^= v.e.hash * (2 * (uint64_t)i + 1);
      auto account = [&](const Scn &q, const Verdict &w) {
        uint64_t h = 3; bool nt = false;
        for (size_t k = 0; k < q.ops.size(); k++) { const OpRes &r = w.e.r[k]; h = fnv(&r.trace, 8, h); int z[2] = {r.how, r.code}; h = fnv(z, sizeof z, h); if (r.how == NOTRUN) continue;
          kinds[q.ops[k].kind == MUT ? str("damage: ") + MN[q.ops[k].mut] : ON[q.ops[k].kind]]++; calls++; nt |= q.ops[k].kind == MUT || r.fired;
          if (q.ops[k].kind <= SIZE) feats[str(ON[q.ops[k].kind]) + (r.how == RETURNED ? " returned" : r.how == KILLED ? " killed" : r.how == SIGNALLED ? " crashed in the FITS library after a failed allocation" : " reported a failure")]++; }
        for (auto &f : q.faults) { const OpRes &r = w.e.r[f.op]; if (r.fired) kinds[str("fault: ") + CN[f.cls] + " " + KN[f.kind]]++; }
        if (nt) sigs.insert(h);
      };
      account(sc, v);
      if (v.ok()) { add_faults(sc, v.e); if (!sc.faults.empty()) { fault = true; v = judge(sc); digest ^= v.e.hash * (2 * (uint64_t)i + 3); account(sc, v); } }
      clockspan = std::max(clockspan, (double)sc.clock);
      if (samples.size() < 2 && fault && i % 7 == 3) { str o = fmt("seed %llu:", (unsigned long long)s); for (auto &p : sc.ops) o += " " + describe(p) + ";"; for (auto &f : sc.faults) o += fmt(" fault in operation %d: %s %ld %s%s;", f.op + 1, CN[f.cls], f.nth, KN[f.kind], f.persist ? " from then on" : ""); samples.push_back(o.substr(0, 700)); }
      if (!v.ok() && seen.insert(v.cls).second) {
        str f = a[7] + fmt("/%s-%llu-%s.raw", a[1].c_str(), (unsigned long long)s, v.cls.c_str()); std::ofstream(f) << save(sc);
        printf("FOUND %s %s\n  %s\n", v.cls.c_str(), f.c_str(), v.msg.c_str()); fflush(stdout);
      }
    }
    str o = fmt("STATS {\"runs\": %llu, \"processes\": %llu, \"scenarios\": %ld, \"ops\": %llu, \"clock\": %.0f, \"digest\": \"%016llx\", \"kinds\": {", (unsigned long long)g_execs, (unsigned long long)g_procs, done, (unsigned long long)calls, clockspan, (unsigned long long)digest);
    bool f = true; for (auto &k : kinds) { o += str(f ? "" : ", ") + jstr(k.first) + fmt(": %llu", (unsigned long long)k.second); f = false; }
    o += "}, \"feats\": {"; f = true; for (auto &k : feats) { o += str(f ? "" : ", ") + jstr(k.first) + fmt(": %llu", (unsigned long long)k.second); f = false; }
    o += "}, \"sigs\": ["; f = true; for (auto k : sigs) { o += fmt("%s\"%llx\"", f ? "" : ",", (unsigned long long)k); f = false; }
    o += "], \"samples\": ["; f = true; for (auto &k : samples) { o += str(f ? "" : ", ") + jstr(k); f = false; }
    puts((o + "]}").c_str());
    return 0;
  }
  if (a.size() >= 2 && (a[0] == "replay" || a[0] == "min")) {
    Scn sc; std::ifstream in(a[1]); std::stringstream b; b << in.rdbuf();
    if (!load(b.str(), sc)) { fprintf(stderr, "%s: not a fitssim replay\n", a[1].c_str()); return 3; }
    if (a[0] == "min") {
      Scn m = minimise(sc, a[4], atof(a[3].c_str())); Verdict v = judge(m);
      std::ofstream o(a[2]); o << "# replay of a violation of " << m.prop << "\n# " << v.cls << ": " << v.msg << "\n";
      for (auto &p : m.ops) o << "#   " << describe(p) << "\n";
      o << save(m); return 0;
    }
    Verdict v = judge(sc);
    if (a.size() < 3) for (size_t i = 0; i < sc.ops.size(); i++) { auto &r = v.e.r[i]; static const char *H[] = {"not run", "running", "returned", "exited", "signal", "killed"}; printf("%s -> %s %d; calls:", describe(sc.ops[i]).c_str(), H[r.how], r.code); for (int c = 0; c < NCLS; c++) printf(" %s %ld", CN[c], r.cnt[c]); printf("; faults fired %d; %s\n", r.fired, r.bad); }
    if (a.size() < 3 && !v.e.err.empty()) puts(v.e.err.c_str());
    printf("HASH %016llx\n", (unsigned long long)v.e.hash);
    if (!v.ok()) printf("BAD %s %s\n", v.cls.c_str(), v.msg.c_str());
    return v.ok() ? 0 : 1;
  }
  fprintf(stderr, "usage: fitssim batch PROP SEED FROM COUNT WALL TIER OUTDIR | replay FILE [-q] | min IN OUT SECONDS CLASS\n");
  return 3;
}
