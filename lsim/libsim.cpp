// libsim: libsatskymap and libchealpix called by several threads (L01) and in arbitrary histories (L02).
//
// L01  real pthreads, but only the thread that holds the token runs.  The libraries are compiled with
//      -fsanitize-coverage=trace-pc,trace-loads,trace-stores; every callback is a point at which a seeded scheduler may
//      hand the token to another thread.  Every thread's results must be those of the same script run alone.
// L02  one thread; a target script runs alone in a fresh process, and again in a process with another residual memory,
//      after and interleaved with an arbitrary history on other satellites.  Results must be bitwise the same; blocks
//      used for a sequence of times are compared with freshly initialised ones; blocks are surrounded by red zones.
//
//   libsim batch L01|L02 SEED FROM COUNT WALL TIER OUTDIR POOL
//   libsim replay FILE [-q]         libsim min IN OUT SECONDS CLASS
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <poll.h>
#include "norad.h"
#include "observe.h"
#include "chealpix.h"
extern "C" {
char *mjd2date(double); char *mjd2datef(double); int date2mjd_nf(const char *, double *);
void lpsun_radec(double, double *, double *); double lmst_hr(const double, double, double *);
void dechalat2alt(double, double, double, double *, double *, double *);
double skysep_h(const double, const double, const double, const double);
void earthtilt(double, double *, double *, double *, double *, double *);
int zenith_site_ra(double, double, double *); int zenith_site_ra_last(double, double, double *);
}
typedef std::string str;
typedef std::vector<str> strs;
struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t &x) { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(seed); }
  uint64_t u64() { uint64_t a = s[0], b = s[1], r = a + b; b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27); return r; }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
  double real() { return (double)(u64() >> 11) / 9007199254740992.0; }
  double uniform(double a, double b) { return a + (b - a) * real(); }
  bool chance(double p) { return real() < p; }
};
static uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
static str fmt(const char *f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

// ------------------------------------------------------------------ scripts
enum { PARSE, INIT, PROP, CHECK, DATE, DATEF, UNDATE, SUN, LMST, ALT, SEP, TILT, ZENITH, SITE, RADEC, HPX, PARAM, NKINDS };
static const char *KN[NKINDS] = {"parse", "init", "prop", "checksum", "mjd2date", "mjd2datef", "date2mjd", "sun", "lmst", "altitude", "separation", "earthtilt", "zenith", "site", "radec", "healpix", "settings"};
static const char *MN[5] = {"SGP", "SGP4", "SGP8", "SDP4", "SDP8"};
static const int MSZ[5] = {N_SGP_PARAMS, N_SGP4_PARAMS, N_SGP8_PARAMS, N_SDP4_PARAMS, N_SDP8_PARAMS};
typedef void (*InitF)(double *, const tle_t *);
typedef int (*PropF)(const double, const tle_t *, const double *, double *, double *);
static const InitF INITF[5] = {SGP_init, SGP4_init, SGP8_init, SDP4_init, SDP8_init};
static const PropF PROPF[5] = {SGP, SGP4, SGP8, SDP4, SDP8};
struct Op { int who = 0;      // thread (L01); 0 = target, 1 = history (L02)
  int kind = 0, a = 0, b = 0; double x = 0, y = 0, z = 0, w = 0; str s, t; };
struct Scn { str prop; uint64_t seed = 0; int nthreads = 1; long fill = 0;
  std::vector<Op> ops;
  int explicit_sched = 0; uint64_t sched_seed = 0; double quantum = 50, phot = 0.3, pop = 0.1; int stall = -1; long stall_at = 0, stall_for = 0;
  std::vector<std::pair<uint64_t, int>> sched; };
static str describe(const Op &o) {
  switch (o.kind) {
    case PARSE: return fmt("slot %d parse \"%s\" \"%s\"", o.a, o.s.c_str(), o.t.c_str());
    case INIT: return fmt("slot %d %s_init", o.a, MN[o.b]);
    case PROP: return fmt("slot %d %s at %.17g min%s", o.a, MN[o.b], o.x, o.y != 0 ? "" : " without velocity");
    case CHECK: case UNDATE: return fmt("%s \"%s\"", KN[o.kind], o.s.c_str());
    default: return fmt("%s(%d, %d, %.17g, %.17g, %.17g, %.17g)", KN[o.kind], o.a, o.b, o.x, o.y, o.z, o.w);
  }
}
static str hexs(const str &s) { str r = "x"; for (unsigned char c : s) r += fmt("%02x", c); return r; }
static str unhexs(const str &s) { str r; for (size_t i = 1; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return r; }
static str save(const Scn &s) {
  str o = fmt("libsim 1\nprop %s\nseed %llu\nthreads %d\nfill %ld\nsched %d %llu %.17g %.17g %.17g %d %ld %ld\n", s.prop.c_str(), (unsigned long long)s.seed, s.nthreads, s.fill, s.explicit_sched, (unsigned long long)s.sched_seed, s.quantum, s.phot, s.pop, s.stall, s.stall_at, s.stall_for);
  for (auto &p : s.ops) o += "# " + fmt(s.prop == "L01" ? "thread %d: " : "part %d: ", p.who) + describe(p) + fmt("\nop %d %d %d %d %a %a %a %a ", p.who, p.kind, p.a, p.b, p.x, p.y, p.z, p.w) + hexs(p.s) + " " + hexs(p.t) + "\n";
  for (auto &d : s.sched) o += fmt("switch %llu %d\n", (unsigned long long)d.first, d.second);
  return o;
}
static bool load(const str &text, Scn &s) {
  std::istringstream in(text); str l; bool head = false;
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    std::istringstream w(l); str k; w >> k;
    if (k == "libsim") head = true;
    else if (k == "prop") w >> s.prop;
    else if (k == "seed") w >> s.seed;
    else if (k == "threads") w >> s.nthreads;
    else if (k == "fill") w >> s.fill;
    else if (k == "sched") w >> s.explicit_sched >> s.sched_seed >> s.quantum >> s.phot >> s.pop >> s.stall >> s.stall_at >> s.stall_for;
    else if (k == "op") { Op o; str n[4], a, b; w >> o.who >> o.kind >> o.a >> o.b >> n[0] >> n[1] >> n[2] >> n[3] >> a >> b; o.x = strtod(n[0].c_str(), nullptr); o.y = strtod(n[1].c_str(), nullptr); o.z = strtod(n[2].c_str(), nullptr); o.w = strtod(n[3].c_str(), nullptr); o.s = unhexs(a); o.t = unhexs(b); if (o.kind < 0 || o.kind >= NKINDS) return false; s.ops.push_back(o); }
    else if (k == "switch") { unsigned long long i; int t; w >> i >> t; s.sched.push_back({i, t}); }
    else return false;
  }
  return head;
}

// ------------------------------------------------------------------ token scheduler (L01)
static const int MAXT = 4;
static struct Sched {
  volatile bool on = false;
  int n = 0, cur = 0;
  sem_t sem[MAXT]; bool dead[MAXT];
  uint64_t g = 0, switches = 0, sig = 0; long left = 0; Rng r;
  bool expl = false; size_t next = 0; const std::vector<std::pair<uint64_t, int>> *list = nullptr;
  std::vector<std::pair<uint64_t, int>> rec;
  double quantum = 50, phot = 0, pop = 0; int stall = -1; uint64_t stall_at = 0, stall_for = 0; uint64_t stalls = 0, hot = 0;
  std::set<std::pair<uintptr_t, int>> places;
} S;
static thread_local int me = -1;
extern char __data_start, _end;
static inline bool is_global(const void *p) { return (const char *)p >= &__data_start && (const char *)p < &_end; }
static long draw() { double m = S.quantum; return m > 1e8 ? 1L << 40 : 1 + (long)(-m * log(1 - S.r.real())); }
static void hand_over(int to, uintptr_t pc) {
  S.switches++; S.sig = fnv(&pc, sizeof pc, S.sig ^ (uint64_t)to * 0x9E3779B97F4A7C15ull);
  S.places.insert({pc, me});
  S.rec.push_back({S.g, to});
  int from = me;
  S.cur = to; S.left = S.expl ? 0 : draw();
  sem_post(&S.sem[to]);
  while (sem_wait(&S.sem[from])) ;
}
static int other(bool any = false) {
  int c[MAXT], k = 0;
  for (int i = 0; i < S.n; i++) if (i != me && !S.dead[i] && (any || !(i == S.stall && S.g >= S.stall_at && S.g < S.stall_at + S.stall_for))) c[k++] = i;
  return k ? c[S.r.below(k)] : -1;
}
// kind 0 = block, 1 = load, 2 = store to global data, 3 = between calls, 4 = must switch (a lock is held elsewhere)
static void point(int kind, uintptr_t pc) {
  if (me < 0 || !S.on) return;
  S.g++;
  if (S.expl) {
    while (S.next < S.list->size() && (*S.list)[S.next].first < S.g) S.next++;
    if (S.next < S.list->size() && (*S.list)[S.next].first == S.g) { int to = (*S.list)[S.next++].second; if (to >= 0 && to < S.n && to != me && !S.dead[to]) { hand_over(to, pc); return; } }
    if (kind == 4) { for (int i = 1; i < S.n; i++) { int to = (me + i) % S.n; if (!S.dead[to]) { hand_over(to, pc); break; } } }
    return;
  }
  bool sw = kind == 4;
  if (--S.left <= 0) sw = true;
  if (kind == 2) { S.hot++; if (S.r.chance(S.phot)) sw = true; }
  if (kind == 3 && S.r.chance(S.pop)) sw = true;
  if (me == S.stall && S.g >= S.stall_at && S.g < S.stall_at + S.stall_for) { sw = true; S.stalls++; }
  if (!sw) return;
  int to = other(kind == 4);
  if (to < 0) { S.left = draw(); return; }
  hand_over(to, pc);
}
extern "C" {
#define CB(name, size, k) void __sanitizer_cov_##name##size(void *p) { (void)p; if (me >= 0) point(k, (uintptr_t)__builtin_return_address(0)); }
void __sanitizer_cov_trace_pc() { if (me >= 0) point(0, (uintptr_t)__builtin_return_address(0)); }
CB(load, 1, is_global(p) ? 1 : 0) CB(load, 2, is_global(p) ? 1 : 0) CB(load, 4, is_global(p) ? 1 : 0) CB(load, 8, is_global(p) ? 1 : 0) CB(load, 16, is_global(p) ? 1 : 0)
CB(store, 1, is_global(p) ? 2 : 0) CB(store, 2, is_global(p) ? 2 : 0) CB(store, 4, is_global(p) ? 2 : 0) CB(store, 8, is_global(p) ? 2 : 0) CB(store, 16, is_global(p) ? 2 : 0)
// locks of the library under test, should it use any: waiting means letting another thread run
#define SPIN(expr) { int rc; while ((rc = (expr)) == EBUSY) { if (me < 0 || !S.on) { usleep(50); continue; } point(4, (uintptr_t)__builtin_return_address(0)); } return rc; }
int sim_mutex_lock(pthread_mutex_t *m) SPIN(pthread_mutex_trylock(m))
int sim_spin_lock(pthread_spinlock_t *m) SPIN(pthread_spin_trylock(m))
int sim_rdlock(pthread_rwlock_t *m) SPIN(pthread_rwlock_tryrdlock(m))
int sim_wrlock(pthread_rwlock_t *m) SPIN(pthread_rwlock_trywrlock(m))
int sim_mtx_lock(pthread_mutex_t *m) { int rc; while ((rc = pthread_mutex_trylock(m)) == EBUSY) point(4, 1); return rc ? 2 : 0; }
int sim_once(pthread_once_t *o, void (*f)(void)) {
  int *v = (int *)o;
  while (*v == 77) point(4, 2);
  if (*v == 0) { *v = 77; f(); *v = 2; }
  return 0;
}
void sim_call_once(pthread_once_t *o, void (*f)(void)) { sim_once(o, f); }
int sim_yield() { point(3, 3); return 0; }
void sim_thrd_yield() { point(3, 3); }
}

// ------------------------------------------------------------------ execution of a script
struct Slot { str l1, l2; tle_t tle; int rc = -100; int sel = -9; double *blk[5] = {}; char *raw[5] = {}; bool init[5] = {}; std::vector<double> hist[5]; double pos[3] = {7000, 0, 0}, vel[3]; };
struct Ctx { Slot s[4]; double obs[3] = {6378, 0, 0}; long fill = 0; uint64_t n = 0; double worst_res = 0, worst_deep = 0, worst_near = 0; bool fresh_check = false; };
typedef std::vector<double> Res;
static const size_t RED = 64;
static void free_block(Slot &s, int m) { if (s.raw[m]) free(s.raw[m]); s.raw[m] = nullptr; s.blk[m] = nullptr; s.init[m] = false; s.hist[m].clear(); }
static void pattern(void *p, size_t n, long fill, uint64_t salt) {
  unsigned char *c = (unsigned char *)p;
  if (fill == 0) memset(c, 0, n);
  else if (fill == 1) memset(c, 0xff, n);
  else if (fill == 2) { double v = 1.0; for (size_t i = 0; i + 8 <= n; i += 8) memcpy(c + i, &v, 8); }
  else { Rng r(fill * 77 + salt); for (size_t i = 0; i + 8 <= n; i += 8) { double v = r.uniform(-1e4, 1e4); memcpy(c + i, &v, 8); } }
}
static double *new_block(char **raw, int m, long fill, uint64_t salt) {
  size_t n = MSZ[m] * sizeof(double);
  *raw = (char *)malloc(n + 2 * RED); memset(*raw, 0xA5, n + 2 * RED);
  double *b = (double *)(*raw + RED); pattern(b, n, fill, salt);
  return b;
}
static bool red_ok(const char *raw, int m) { size_t n = MSZ[m] * sizeof(double); for (size_t i = 0; i < RED; i++) if ((unsigned char)raw[i] != 0xA5 || (unsigned char)raw[RED + n + i] != 0xA5) return false; return true; }
static void __attribute__((noinline)) dirty_stack(long fill, uint64_t salt) { volatile char b[24576]; pattern((void *)b, sizeof b, fill, salt); asm volatile("" ::"r"(b) : "memory"); }
static void put(Res &r, const str &s) { r.push_back(s.size()); for (size_t i = 0; i < s.size(); i += 8) { double d = 0; memcpy(&d, s.data() + i, std::min<size_t>(8, s.size() - i)); r.push_back(d); } }
static double dist(const double *a, const double *b) { return sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
static double len(const double *a) { double z[3] = {0, 0, 0}; return dist(a, z); }
static bool solid(int rc) { return rc == 0 || rc == SXPX_WARN_ORBIT_WITHIN_EARTH || rc == SXPX_WARN_PERIGEE_WITHIN_EARTH; }
static bool deep(int m) { return m >= 3; }
static bool resonant(const tle_t &t) { double rev = t.xno * 1440 / (2 * M_PI); return (rev > 1.85 && rev < 2.16 && t.eo >= .49) || (rev > .78 && rev < 1.22); }
// what a freshly initialised block gives for time t after the requests in pre
static int fresh(const tle_t &t, int m, const std::vector<double> &pre, double at, double *pos, double *vel, long fill) {
  char *raw; double *b = new_block(&raw, m, fill, 99);
  INITF[m](b, &t);
  for (double x : pre) PROPF[m](x, &t, b, pos, vel);
  int rc = PROPF[m](at, &t, b, pos, vel);
  free(raw);
  return rc;
}
static const double TOL_NEAR = 1e-9, TOL_DEEP = 1e-8, TOL_RES = 2e-4;
static bool judged_sequence(const tle_t &t) {      // element sets for which the two-sided comparison is meaningful
  return t.ephemeris_type == 'H' || (t.xno > 0 && t.eo >= 0 && t.eo < .8 && t.xincl < 170 * M_PI / 180 && t.xno * 1440 / (2 * M_PI) < 17 && t.xno * 1440 / (2 * M_PI) > .25);
}
static str g_bad;       // problem seen by the executing process itself
static void bad(const str &s) { if (g_bad.empty()) g_bad = s; }
static void exec_op(Ctx &c, const Op &o, Res &r) {
  c.n++;
  if (c.fill >= 0 && me < 0) dirty_stack(c.fill, c.n);
  Slot &s = c.s[o.a & 3];
  switch (o.kind) {
    case PARSE: {
      for (int m = 0; m < 5; m++) free_block(s, m);
      s.l1 = o.s; s.l2 = o.t;
      char a[160], b[160]; memset(a, 0, sizeof a); memset(b, 0, sizeof b);
      snprintf(a, sizeof a, "%s\n", o.s.c_str()); snprintf(b, sizeof b, "%s\n", o.t.c_str());
      pattern(&s.tle, sizeof s.tle, std::max(0L, c.fill), c.n); s.tle.ephemeris_type = 0;
      s.rc = parse_elements(a, b, &s.tle); r.push_back(s.rc);
      s.sel = -9;
      if (s.rc >= 0) {
        const tle_t &t = s.tle;
        for (double d : {t.epoch, t.xincl, t.xnodeo, t.eo, t.omegao, t.xmo, t.xno}) r.push_back(d);
        if (t.ephemeris_type != 'H') for (double d : {t.xndt2o, t.xndd6o, t.bstar}) r.push_back(d);
        for (int d : {t.norad_number, t.bulletin_number, t.revolution_number, (int)t.classification, (int)t.ephemeris_type}) r.push_back(d);
        put(r, str(t.intl_desig, strnlen(t.intl_desig, 9)));
        point(3, 10);
        s.sel = select_ephemeris(&s.tle); r.push_back(s.sel);
      }
      break;
    }
    case INIT: {
      int m = o.b;
      if (s.rc < 0 || (s.tle.ephemeris_type == 'H' && m != 3)) break;
      free_block(s, m);
      s.blk[m] = new_block(&s.raw[m], m, std::max(0L, c.fill), c.n);
      tle_t before = s.tle;
      INITF[m](s.blk[m], &s.tle); s.init[m] = true;
      if (memcmp(&before, &s.tle, sizeof before)) bad(str(MN[m]) + "_init changed the element set it was given");
      if (!red_ok(s.raw[m], m)) bad(fmt("%s_init wrote outside its block of %d values", MN[m], MSZ[m]));
      break;
    }
    case PROP: {
      int m = o.b;
      if (s.rc < 0 || !s.init[m]) break;
      double pos[3] = {12345, 12345, 12345}, vel[3] = {12345, 12345, 12345};
      bool wv = o.y != 0;
      tle_t before = s.tle;
      int rc = PROPF[m](o.x, &s.tle, s.blk[m], pos, wv ? vel : nullptr);
      point(3, 11);
      r.push_back(rc); for (double d : pos) r.push_back(d);
      if (wv) for (double d : vel) r.push_back(d);
      if (memcmp(&before, &s.tle, sizeof before)) bad(str(MN[m]) + " changed the element set it was given");
      if (!red_ok(s.raw[m], m)) bad(fmt("%s wrote outside its block of %d values", MN[m], MSZ[m]));
      if (solid(rc)) { memcpy(s.pos, pos, sizeof pos); memcpy(s.vel, vel, sizeof vel); }
      if (c.fresh_check && judged_sequence(s.tle) && fabs(o.x) <= 14400) {
        // admissible: what a fresh block gives now, or - the models may reuse lunar and solar perturbations of a request
        // at most half an hour away - what it gives right after such an earlier request
        double tol = !deep(m) || s.tle.ephemeris_type == 'H' ? TOL_NEAR : resonant(s.tle) ? TOL_RES : TOL_DEEP, best = INFINITY;
        str how; bool rcdiff = true;
        std::vector<std::vector<double>> pre = {{}};
        if (deep(m)) for (double h : s.hist[m]) if (fabs(h - o.x) <= 30) pre.push_back({h});
        for (auto &p : pre) {
          double fp[3], fv[3]; int frc = fresh(s.tle, m, p, o.x, fp, fv, c.fill + 5);
          if (solid(frc) != solid(rc)) continue;
          if (!solid(rc)) { best = 0; rcdiff = false; break; }
          rcdiff = false;
          double d = dist(fp, pos) / std::max(len(fp), 6000.);
          if (wv) d = std::max(d, dist(fv, vel) / std::max(len(fv), 1.));
          if (!(d < INFINITY)) d = len(fp) < INFINITY ? 1 : 0;
          best = std::min(best, d);
          if (best <= 1e-12) break;
        }
        double &w = !deep(m) || s.tle.ephemeris_type == 'H' ? c.worst_near : resonant(s.tle) ? c.worst_res : c.worst_deep;
        if (best < INFINITY) w = std::max(w, best);
        if (rcdiff || best > tol) {
          str h; for (size_t i = s.hist[m].size() > 6 ? s.hist[m].size() - 6 : 0; i < s.hist[m].size(); i++) h += fmt(" %.6g", s.hist[m][i]);
          bad(fmt("sequence: %s at %.9g min on a block already used for (last six)%s gives rc %d, and differs from a freshly initialised block by %.3g of the radius (allowed %.1g)", MN[m], o.x, h.c_str(), rc, best, tol));
        }
        if (!s.hist[m].empty() && s.hist[m].back() == o.x) {        // the same request again, at once
          double again[3] = {0, 0, 0}; int rc2 = PROPF[m](o.x, &s.tle, s.blk[m], again, nullptr);
          if (rc2 != rc || (solid(rc) && len(pos) < INFINITY && !(dist(again, pos) <= 1e-9 * std::max(1., len(pos))))) bad(fmt("sequence: %s at %.9g min asked again at once gives another answer", MN[m], o.x));
        }
      }
      s.hist[m].push_back(o.x);
      break;
    }
    case CHECK: { char a[200]; snprintf(a, sizeof a, "%s\n", o.s.c_str()); r.push_back(tle_checksum(a)); break; }
    case DATE: case DATEF: {
      char *p = o.kind == DATE ? mjd2date(o.x) : mjd2datef(o.x);
      point(3, 12);
      if (p) put(r, str(p, strnlen(p, 40))); else r.push_back(-1);
      break;
    }
    case UNDATE: { double m = 0; int rc = date2mjd_nf(o.s.c_str(), &m); r.push_back(rc); r.push_back(m); break; }
    case SUN: { double a = 0, b = 0; lpsun_radec(o.x, &a, &b); r.push_back(a); r.push_back(b); break; }
    case LMST: { double g = 0; double l = lmst_hr(o.x, o.y, &g); r.push_back(l); r.push_back(g); break; }
    case ALT: { double a = 0, b = 0, p = 0; dechalat2alt(o.x, o.y, o.z, &a, &b, &p); r.push_back(a); r.push_back(b); r.push_back(p); break; }
    case SEP: r.push_back(skysep_h(o.x, o.y, o.z, o.w)); break;
    case TILT: { double v[5] = {}; earthtilt(o.x, v, v + 1, v + 2, v + 3, v + 4); for (double d : v) r.push_back(d); break; }
    case ZENITH: { double a = 0, b = 0; zenith_site_ra(o.x, o.y, &a); zenith_site_ra_last(o.x, o.y, &b); r.push_back(a); r.push_back(b); break; }
    case SITE: { double rc = 0, rs = 0; earth_lat_alt_to_parallax(o.x, o.y, &rc, &rs); observer_cartesian_coords(o.z, o.w, rc, rs, c.obs); r.push_back(rc); r.push_back(rs); for (double d : c.obs) r.push_back(d); break; }
    case RADEC: { double a = 0, d = 0, e = 0; get_satellite_ra_dec_delta(c.obs, s.pos, &a, &d, &e); r.push_back(a); r.push_back(d); r.push_back(e); epoch_of_date_to_j2000(o.x, &a, &d); r.push_back(a); r.push_back(d); break; }
    case HPX: {
      long ns = 1L << (o.b & 15), p = 0, q = 0, u = 0; double th = 0, ph = 0, v[3];
      ang2pix_ring(ns, o.x, o.y, &p); ang2pix_nest(ns, o.x, o.y, &q); r.push_back(p); r.push_back(q);
      pix2ang_ring(ns, p, &th, &ph); r.push_back(th); r.push_back(ph); pix2ang_nest(ns, q, &th, &ph); r.push_back(th); r.push_back(ph);
      nest2ring(ns, q, &u); r.push_back(u); ring2nest(ns, p, &u); r.push_back(u);
      pix2vec_nest(ns, q, v); for (double d : v) r.push_back(d); vec2pix_ring(ns, v, &u); r.push_back(u); r.push_back(npix2nside(nside2npix(ns)));
      break;
    }
    case PARAM: {          // other settings, a propagation, and the settings back
      if (s.rc < 0 || s.tle.ephemeris_type == 'H') break;
      sxpx_set_implementation_param(SXPX_DPSEC_INTEGRATION_ORDER, o.b); sxpx_set_implementation_param(SXPX_DUNDEE_COMPLIANCE, (int)o.y); sxpx_set_dpsec_integration_step(o.z);
      double p[3], v[3]; fresh(s.tle, 3, {}, o.x, p, v, 0);
      sxpx_set_implementation_param(SXPX_DPSEC_INTEGRATION_ORDER, 2); sxpx_set_implementation_param(SXPX_DUNDEE_COMPLIANCE, 0); sxpx_set_dpsec_integration_step(720.);
      break;
    }
  }
}

// ------------------------------------------------------------------ one process execution
struct Shared { volatile uint64_t n; volatile int done; uint64_t g, switches, sig, hot, stalls, nplaces, nrec; double wn, wd, wr; char bad[1024]; uint64_t rec[2 * 200000]; uint64_t places[4096]; double data[1 << 19]; };
static Shared *sh;
// results: for each op index in ops: count, values
struct Exec { bool crashed = false; str how, bad; std::vector<Res> res; uint64_t g = 0, switches = 0, sig = 0, hot = 0, stalls = 0; double wn = 0, wd = 0, wr = 0; std::vector<std::pair<uint64_t, int>> rec; std::vector<uint64_t> places; };
struct TArg { int id; const Scn *sc; std::vector<Res> *res; };
static void *thread_main(void *p) {
  TArg *a = (TArg *)p;
  while (sem_wait(&S.sem[a->id])) ;
  me = a->id;
  Ctx c; c.fill = a->sc->fill;
  for (size_t i = 0; i < a->sc->ops.size(); i++) if (a->sc->ops[i].who == a->id) { point(3, 20); exec_op(c, a->sc->ops[i], (*a->res)[i]); }
  S.dead[me] = true;
  int to = -1; for (int i = 0; i < S.n && to < 0; i++) if (!S.dead[i]) to = i;       // a thread that ends hands over to the first one left
  me = -1;
  if (to >= 0) { S.cur = to; sem_post(&S.sem[to]); }
  return nullptr;
}
static void child(const Scn &sc, int mode, int only) {     // mode 0: threads; 1: thread "only" alone; 2: targets only; 3: everything in order
  std::vector<Res> res(sc.ops.size());
  struct rlimit rl = {60, 60}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  if (mode <= 1) {
    S.n = sc.nthreads; S.r = Rng(sc.sched_seed); S.expl = sc.explicit_sched; S.list = &sc.sched; S.quantum = sc.quantum; S.phot = sc.phot; S.pop = sc.pop; S.stall = sc.stall; S.stall_at = sc.stall_at; S.stall_for = sc.stall_for;
    S.left = draw();
    pthread_t th[MAXT]; TArg ta[MAXT];
    for (int i = 0; i < sc.nthreads; i++) { sem_init(&S.sem[i], 0, 0); S.dead[i] = mode == 1 && i != only; }
    S.on = mode == 0; S.cur = mode == 0 ? (int)(sc.sched_seed % sc.nthreads) : only;
    for (int i = 0; i < sc.nthreads; i++) if (!S.dead[i]) { ta[i] = {i, &sc, &res}; pthread_create(&th[i], nullptr, thread_main, &ta[i]); }
    bool made[MAXT]; for (int i = 0; i < sc.nthreads; i++) made[i] = !(mode == 1 && i != only);
    sem_post(&S.sem[S.cur]);
    for (int i = 0; i < sc.nthreads; i++) if (made[i]) pthread_join(th[i], nullptr);
  } else {
    Ctx target, hist; target.fill = mode == 2 ? 0 : sc.fill; hist.fill = sc.fill; target.fresh_check = true;
    for (size_t i = 0; i < sc.ops.size(); i++) {
      const Op &o = sc.ops[i];
      if (o.who == 0) exec_op(target, o, res[i]);
      else if (mode == 3) exec_op(hist, o, res[i]);
    }
    sh->wn = target.worst_near; sh->wd = target.worst_deep; sh->wr = target.worst_res;
  }
  uint64_t n = 0;
  for (auto &r : res) { if (n + r.size() + 2 > sizeof sh->data / 8) break; sh->data[n++] = r.size(); for (double d : r) sh->data[n++] = d; }
  sh->n = n; sh->g = S.g; sh->switches = S.switches; sh->sig = S.sig; sh->hot = S.hot; sh->stalls = S.stalls;
  uint64_t k = 0; for (auto &p : S.rec) if (k < 200000) { sh->rec[2 * k] = p.first; sh->rec[2 * k + 1] = p.second; k++; }
  sh->nrec = k; k = 0; for (auto &p : S.places) if (k < 4096) sh->places[k++] = fnv(&p.first, sizeof p.first, p.second);
  sh->nplaces = k;
  strncpy(sh->bad, g_bad.c_str(), sizeof sh->bad - 1);
  sh->done = 1;
}
static uint64_t g_execs = 0;
static Exec run(const Scn &sc, int mode, int only = 0) {
  Exec e; g_execs++;
  sh->n = 0; sh->done = 0; sh->bad[0] = 0; sh->wn = sh->wd = sh->wr = 0;
  fflush(stdout);
  int pfd[2]; if (pipe(pfd)) abort();
  pid_t pid = fork();
  if (!pid) { close(pfd[0]); child(sc, mode, only); _exit(0); }
  close(pfd[1]);
  struct pollfd pf = {pfd[0], POLLIN, 0}; int st = 0;
  if (poll(&pf, 1, 30000) == 0) { kill(pid, SIGKILL); e.how = "no progress within 30 s"; }
  close(pfd[0]);
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  if (!sh->done) { e.crashed = true; if (e.how.empty()) e.how = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exit %d", WEXITSTATUS(st)); return e; }
  e.bad = sh->bad;
  uint64_t n = 0;
  for (size_t i = 0; i < sc.ops.size(); i++) { Res r; if (n < sh->n) { size_t k = (size_t)sh->data[n++]; r.assign(sh->data + n, sh->data + n + k); n += k; } e.res.push_back(r); }
  e.g = sh->g; e.switches = sh->switches; e.sig = sh->sig; e.hot = sh->hot; e.stalls = sh->stalls; e.wn = sh->wn; e.wd = sh->wd; e.wr = sh->wr;
  for (uint64_t i = 0; i < sh->nrec; i++) e.rec.push_back({sh->rec[2 * i], (int)sh->rec[2 * i + 1]});
  for (uint64_t i = 0; i < sh->nplaces; i++) e.places.push_back(sh->places[i]);
  return e;
}
static bool same(const Res &a, const Res &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) { if (!memcmp(&a[i], &b[i], 8)) continue; if (std::isnan(a[i]) && std::isnan(b[i])) continue; if (a[i] == b[i] && a[i] == 0) continue; return false; }
  return true;
}
static str show(const Res &r) { str o = "("; for (size_t i = 0; i < r.size() && i < 8; i++) o += fmt(i ? ", %.17g" : "%.17g", r[i]); return o + (r.size() > 8 ? ", ...)" : ")"); }
struct Verdict { str cls, msg; uint64_t hash = 0; Exec e; bool ok() const { return cls.empty(); } };
static uint64_t hash_exec(const Exec &e) { uint64_t h = e.sig ^ e.g; for (auto &r : e.res) for (double d : r) { if (std::isnan(d)) d = 0; h = fnv(&d, 8, h); } return fnv(e.bad.data(), e.bad.size(), h); }
static Verdict judge(const Scn &sc) {
  Verdict v;
  if (sc.prop == "L01") {
    std::vector<Exec> solo;
    for (int t = 0; t < sc.nthreads; t++) solo.push_back(run(sc, 1, t));
    v.e = run(sc, 0);
    v.hash = hash_exec(v.e);
    for (int t = 0; t < sc.nthreads; t++) if (solo[t].crashed) { v.cls = "alone"; v.msg = fmt("thread %d alone: %s", t, solo[t].how.c_str()); return v; }
    if (v.e.crashed) { v.cls = "crash"; v.msg = "the interleaved execution ended: " + v.e.how; return v; }
    for (size_t i = 0; i < sc.ops.size(); i++) { const Res &a = solo[sc.ops[i].who].res[i], &b = v.e.res[i];
      if (!same(a, b)) { v.cls = KN[sc.ops[i].kind]; v.msg = fmt("thread %d: %s gives ", sc.ops[i].who, describe(sc.ops[i]).c_str()) + show(b) + " interleaved with other threads and " + show(a) + " alone"; return v; } }
  } else {
    Exec base = run(sc, 2);
    v.e = run(sc, 3);
    v.hash = hash_exec(v.e);
    if (base.crashed || v.e.crashed) { v.cls = "crash"; v.msg = base.crashed ? "alone in a fresh process: " + base.how : "after a history: " + v.e.how; return v; }
    for (size_t i = 0; i < sc.ops.size(); i++) if (sc.ops[i].who == 0 && !same(base.res[i], v.e.res[i])) {
      v.cls = KN[sc.ops[i].kind]; v.msg = describe(sc.ops[i]) + " gives " + show(v.e.res[i]) + " after a history of other calls and " + show(base.res[i]) + " in a fresh process"; return v; }
    for (auto *e : {&base, &v.e}) if (!e->bad.empty()) { v.cls = e->bad.compare(0, 8, "sequence") ? "block" : "sequence"; v.msg = e->bad; return v; }
  }
  return v;
}

// ------------------------------------------------------------------ generation
static std::vector<std::pair<str, str>> pool;
static void load_pool(const str &dir) {
  for (const char *f : {"default.tle", "stations.txt", "gaia_2025.txt", "euclid_2025.txt", "jwt_2025.txt", "juice_2024.txt"}) {
    std::ifstream in(dir + "/" + f); str l, prev;
    while (std::getline(in, l)) { while (!l.empty() && (l.back() == '\r' || l.back() == ' ')) l.pop_back(); if (l.compare(0, 2, "2 ") == 0 && prev.compare(0, 2, "1 ") == 0) pool.push_back({prev, l}); prev = l; }
  }
  if (pool.size() < 50) { fprintf(stderr, "pool not readable\n"); exit(3); }
}
static void fix_sum(str &l) { int c = 0; for (int i = 0; i < 68; i++) { if (l[i] >= '0' && l[i] <= '9') c += l[i] - '0'; else if (l[i] == '-') c++; } l[68] = '0' + c % 10; }
static std::pair<str, str> make_set(Rng &r, int kind) {
  // kinds: 0 near-Earth, 1 twelve-hour resonant, 2 synchronous, 3 other deep, 4 high (state vector, pool), 5 pool, 6 degenerate, 7 damaged, 8 marked type, 9 boundary
  if (kind == 5) return pool[r.below(pool.size())];
  if (kind == 4) { for (;;) { auto &p = pool[r.below(pool.size())]; if (p.first.size() > 62 && p.first[62] == 'H') return p; } }
  double rev = 15, e = .001, inc = r.uniform(0, 145), node = r.uniform(0, 360), argp = r.uniform(0, 360), m = r.uniform(0, 360), b = r.uniform(-1e-3, 1e-3);
  if (r.chance(.15)) inc = r.uniform(0, 11); if (r.chance(.05)) inc = 0;
  if (kind == 0 || kind == 8) { rev = r.uniform(6.5, 16.2); double amin = pow(398600.4 / pow(rev * 2 * M_PI / 86400, 2), 1 / 3.); double emax = 1 - 6500 / amin; e = r.uniform(0, std::max(1e-4, std::min(.7, emax))); }
  else if (kind == 1) { rev = r.uniform(1.9, 2.11); e = r.uniform(.5, .75); if (r.chance(.5)) inc = r.uniform(60, 66); }
  else if (kind == 2) { rev = r.uniform(.85, 1.17); e = r.uniform(0, .4); if (r.chance(.5)) { rev = r.uniform(1.0, 1.005); e = r.uniform(0, .01); inc = r.uniform(0, 15); } }
  else if (kind == 3) { rev = r.chance(.6) ? r.uniform(1.25, 6.3) : r.uniform(.35, .8); e = r.uniform(0, .7); }
  else if (kind == 9) { double c[] = {6.3995, 6.4, 6.4005, 1.893, 1.8935, 2.1175, 2.118, 1.2, .8, 1.2001, .7999}; rev = c[r.below(11)] + r.uniform(-1e-3, 1e-3); double ee[] = {.4999999, .5, .65, .6500001, .7, .715, .0001, .00009999}; e = ee[r.below(8)]; if (rev > 6) e = r.uniform(0, .2); }
  else if (kind == 6) { rev = r.chance(.4) ? 0 : r.uniform(.01, 17); e = r.chance(.5) ? .9999999 : r.uniform(.9, 1); b = r.uniform(-.9, .9); inc = r.uniform(0, 180); }
  char ty = kind == 8 ? "1234500"[r.below(7)] : '0';
  char l1[80], l2[80], bs[16];
  int ex = (int)floor(log10(fabs(b) + 1e-12)) + 1, mant = (int)(fabs(b) / pow(10, ex) * 1e5 + .5); if (mant > 99999) mant = 99999; if (ex < -9) { ex = -9; mant = 0; }
  snprintf(bs, sizeof bs, "%c%05d%c%d", b < 0 ? '-' : ' ', mant, ex > 0 ? '+' : '-', abs(ex) % 10);
  int num = (int)r.range(1, 99999);
  snprintf(l1, sizeof l1, "1 %05dU %02d%03dA   %02d%012.8f %c.%08d  00000-0 %s %c %4d0", num, (int)r.range(0, 99), (int)r.range(1, 300), (int)r.range(0, 99), r.uniform(1, 366), r.chance(.3) ? '-' : ' ', (int)r.range(0, 99999), bs, ty, (int)r.range(1, 9999));
  snprintf(l2, sizeof l2, "2 %05d %8.4f %8.4f %07d %8.4f %8.4f %11.8f%5d0", num, inc, node, (int)(e * 1e7), argp, m, rev, (int)r.range(0, 99999));
  str a = str(l1).substr(0, 69), c = str(l2).substr(0, 69); a.resize(69, '0'); c.resize(69, '0');
  fix_sum(a); fix_sum(c);
  if (kind == 7) { str &l = r.chance(.5) ? a : c; int k = (int)r.range(1, 3); while (k--) l[r.below(l.size())] = " 0123456789.-+AZz"[r.below(17)]; if (r.chance(.3)) l.resize(r.below(69)); else if (r.chance(.5)) fix_sum(l); }
  return {a, c};
}
static double pick_time(Rng &r, double last) {
  double x = r.real();
  if (x < .12) return 0;
  if (x < .22) return last;
  if (x < .45) return std::max(-14400., std::min(14400., last + r.uniform(-35, 35)));
  if (x < .55) { double c[] = {30, -30, 29.999, 30.001, 720, -720, 720.001, 1440, -1440, 60, 15}; return std::max(-14400., std::min(14400., last + c[r.below(11)])); }
  if (x < .65) return r.uniform(-100, 100);
  if (x < .75) return -last;
  return r.uniform(-14400, 14400);
}
static int pick_model(Rng &r, int kind) { if (kind == 4) return 3; if (kind == 1 || kind == 2 || kind == 3 || kind == 9) return r.chance(.85) ? 3 + (int)r.below(2) : (int)r.below(5); if (kind == 5) return (int)r.below(5); return r.chance(.85) ? (int)r.below(3) : (int)r.below(5); }
static Op mk(int who, int kind, int a = 0, int b = 0, double x = 0, double y = 0, double z = 0, double w = 0, const str &s = "", const str &t = "") { Op o; o.who = who; o.kind = kind; o.a = a; o.b = b; o.x = x; o.y = y; o.z = z; o.w = w; o.s = s; o.t = t; return o; }
struct GenSlot { int kind = -1; std::vector<int> models; double last = 0; bool high = false; };
static const double DJ[] = {2451545.0, 2460000.5, 2460676.5, 2415020.0, 2469807.5};
static Op gen_misc(Rng &r, int who, double &lastjd) {
  double jd = r.chance(.3) ? lastjd + r.uniform(-.02, .02) : r.chance(.2) ? lastjd : DJ[r.below(5)] + r.uniform(-4000, 4000); lastjd = jd;
  double ra = r.uniform(0, 2 * M_PI), de = r.uniform(-M_PI / 2, M_PI / 2);
  switch (r.below(12)) {
    case 0: return mk(who, DATE, 0, 0, r.chance(.1) ? r.uniform(-1e7, 1e7) : jd - 2400000.5);
    case 1: return mk(who, DATEF, 0, 0, r.chance(.1) ? r.uniform(-1e7, 1e7) : jd - 2400000.5);
    case 2: { char b[40]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", (int)r.range(1900, 2100), (int)r.range(1, 12), (int)r.range(1, 28), (int)r.range(0, 23), (int)r.range(0, 59), (int)r.range(0, 59)); str s = b; if (r.chance(.15)) s.resize(r.below(s.size())); return mk(who, UNDATE, 0, 0, 0, 0, 0, 0, s); }
    case 3: return mk(who, SUN, 0, 0, jd);
    case 4: return mk(who, LMST, 0, 0, jd, r.uniform(-180, 180));
    case 5: return mk(who, ALT, 0, 0, de, r.chance(.1) ? 0 : r.uniform(-12, 12), r.uniform(-90, 90));
    case 6: return mk(who, SEP, 0, 0, ra, de, r.uniform(0, 6.2), r.uniform(-1.5, 1.5));
    case 7: return mk(who, TILT, 0, 0, jd);
    case 8: return mk(who, ZENITH, 0, 0, jd - 2400000.5, r.uniform(-180, 180));
    case 9: return mk(who, SITE, 0, 0, r.uniform(-1.57, 1.57), r.uniform(0, 5000), jd, r.uniform(-M_PI, M_PI));
    case 10: return mk(who, RADEC, (int)r.below(3), 0, jd);
    default: return mk(who, HPX, 0, (int)r.below(14), r.uniform(0, M_PI), r.uniform(0, 2 * M_PI));
  }
}
static Op gen_sat(Rng &r, int who, GenSlot *g, int nslots, const std::vector<std::pair<str, str>> &shared, bool rough) {
  int k = (int)r.below(nslots); GenSlot &s = g[k];
  if (s.kind < 0 || r.chance(.1)) {
    static const int W[] = {0, 0, 1, 1, 2, 2, 3, 4, 5, 8, 9};
    int kind = rough && r.chance(.3) ? 6 + (int)r.below(2) : W[r.below(11)];
    auto p = !shared.empty() && r.chance(.35) ? shared[r.below(shared.size())] : make_set(r, kind);
    s.kind = kind; s.models.clear(); s.last = 0; s.high = p.first.size() > 62 && p.first[62] == 'H';
    if (s.high) s.kind = 4;
    return mk(who, PARSE, k, 0, 0, 0, 0, 0, p.first, p.second);
  }
  if (s.models.empty() || r.chance(.1)) { int m = s.high ? 3 : pick_model(r, s.kind); s.models.push_back(m); return mk(who, INIT, k, m); }
  if (r.chance(.06)) return mk(who, CHECK, 0, 0, 0, 0, 0, 0, make_set(r, r.chance(.5) ? 7 : 0).first);
  int m = s.models[r.chance(.7) ? s.models.size() - 1 : r.below(s.models.size())];
  s.last = pick_time(r, s.last);
  return mk(who, PROP, k, m, s.last, r.chance(.85) ? 1 : 0);
}
static Scn generate(const str &prop, uint64_t seed, bool thorough) {
  Scn s; s.prop = prop; s.seed = seed; Rng r(seed);
  std::vector<std::pair<str, str>> shared;
  static const int SK[] = {0, 1, 2, 3, 4, 5, 9, 4, 1}; int ns = (int)r.range(1, 3);
  for (int i = 0; i < ns; i++) shared.push_back(make_set(r, SK[r.below(9)]));
  if (r.chance(.3)) { auto p = shared[0]; for (auto *l : {&p.first, &p.second}) if (l->size() == 69) { (*l)[6] = '0' + ((*l)[6] - '0' + 1) % 10; fix_sum(*l); } shared.push_back(p); }   // the same orbit under another number
  if (r.chance(.3) && shared[0].second.size() == 69) { auto p = shared[0]; std::swap(p.second[45], p.second[46]); fix_sum(p.second); shared.push_back(p); }                              // the same number, another orbit
  double lastjd = DJ[r.below(5)];
  if (prop == "L01") {
    s.nthreads = (int)r.range(2, 4); s.fill = (long)r.below(6);
    GenSlot g[MAXT][3]; double misc = r.chance(.3) ? .9 : r.chance(.5) ? .1 : .5;
    for (int t = 0; t < s.nthreads; t++) { int n = (int)r.range(3, thorough ? 40 : 20); double lj = lastjd; for (int i = 0; i < n; i++) s.ops.push_back(r.chance(misc) ? gen_misc(r, t, lj) : gen_sat(r, t, g[t], 3, shared, r.chance(.3))); }
    s.sched_seed = r.u64();
    static const double Q[] = {1, 2, 5, 20, 60, 200, 1000, 5000, 1e9}; s.quantum = Q[r.below(9)];
    static const double P[] = {0, .1, .5, 1}; s.phot = P[r.below(4)]; s.pop = P[r.below(4)];
    if (r.chance(.3)) { s.stall = (int)r.below(s.nthreads); s.stall_at = r.range(1, 5000); s.stall_for = r.range(100, 200000); }
  } else {
    s.fill = (long)r.below(8);
    GenSlot gt[2], gh[3]; int nt = (int)r.range(3, 14), nh = (int)r.range(0, thorough ? 60 : 25); double lj = lastjd; bool rough = r.chance(.6), tm = r.chance(.5);
    double mixed = r.chance(.3) ? 0 : r.chance(.5) ? .3 : .7;
    auto hist = [&]() { if (r.chance(.04) && gh[0].kind >= 0) return mk(1, PARAM, 0, (int)r.range(0, 6), r.uniform(-9000, 9000), r.chance(.4), r.uniform(60, 2000)); return r.chance(.35) ? gen_misc(r, 1, lj) : gen_sat(r, 1, gh, 3, shared, rough); };
    for (int i = 0; i < nh; i++) s.ops.push_back(hist());
    for (int i = 0; i < nt; i++) {
      s.ops.push_back(tm && r.chance(.4) ? gen_misc(r, 0, lj) : gen_sat(r, 0, gt, r.chance(.7) ? 1 : 2, shared, r.chance(.1)));
      while (r.chance(mixed)) s.ops.push_back(hist());
    }
  }
  return s;
}

// ------------------------------------------------------------------ minimising
static Verdict judge_any(Scn &s, const str &cls, int tries, double until) {      // look for a schedule under which this script still fails
  Verdict v = judge(s); if (v.cls == cls || s.prop != "L01") return v;
  Scn t = s; t.explicit_sched = 0; t.sched.clear();
  static const double Q[] = {1, 3, 10, 50, 1e9};
  for (int i = 0; i < tries && now_s() < until; i++) { t.sched_seed = Rng(s.seed + 31 * i).u64(); t.quantum = Q[i % 5]; t.phot = i % 2 ? 1 : .5; t.pop = i % 3 ? .5 : 0; t.stall = -1; v = judge(t); if (v.cls == cls) { s = t; return v; } }
  return v;
}
static Scn minimise(Scn s, const str &cls, double secs) {
  double until = now_s() + secs; Scn best = s;
  auto drop = [&](std::vector<char> dead) { Scn t = best; t.ops.clear(); for (size_t i = 0; i < best.ops.size(); i++) if (!dead[i]) t.ops.push_back(best.ops[i]); return t; };
  if (s.prop == "L01") for (int th = 0; th < s.nthreads && now_s() < until; th++) { std::vector<char> d(best.ops.size()); bool any = false; for (size_t i = 0; i < d.size(); i++) if (best.ops[i].who == th) d[i] = any = true; if (!any) continue; Scn t = drop(d); if (judge_any(t, cls, 20, until).cls == cls) best = t; }
  for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2); now_s() < until; chunk = chunk / 2) {
    bool again = true;
    while (again && now_s() < until) {
      again = false;
      for (size_t i = 0; i < best.ops.size() && now_s() < until; ) { std::vector<char> d(best.ops.size()); for (size_t k = i; k < std::min(best.ops.size(), i + chunk); k++) d[k] = 1; Scn t = drop(d); if (!t.ops.empty() && judge_any(t, cls, 12, until).cls == cls) { best = t; again = true; } else i += chunk; }
      if (chunk > 1) break;
    }
    if (chunk <= 1) break;
  }
  if (best.fill) { Scn t = best; t.fill = 0; if (judge(t).cls == cls) best = t; }
  if (s.prop == "L01") {                                                // make the schedule explicit and drop switches
    Verdict v = judge(best);
    if (v.cls == cls && !v.e.crashed) {
      Scn t = best; t.explicit_sched = 1; t.sched = v.e.rec; t.stall = -1;
      if (judge(t).cls == cls) {
        best = t;
        for (size_t chunk = std::max<size_t>(1, best.sched.size() / 2); now_s() < until + secs; chunk /= 2) {
          for (size_t i = 0; i < best.sched.size() && now_s() < until + secs;) { Scn u = best; u.sched.erase(u.sched.begin() + i, u.sched.begin() + std::min(u.sched.size(), i + chunk)); if (judge(u).cls == cls) best = u; else i += chunk; }
          if (chunk <= 1) break;
        }
      }
    }
  }
  return best;
}
static str jstr(const str &s) { str r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; } return r + "\""; }
int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("LIBSIM_NOASLR") && personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("LIBSIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
  strs a(argv + 1, argv + argc);
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (a.size() == 9 && a[0] == "batch") {
    // one processor per worker: the token passes between threads without crossing processors
    cpu_set_t set; if (!sched_getaffinity(0, sizeof set, &set)) { int n = CPU_COUNT(&set), want = (int)(strtoull(a[3].c_str(), nullptr, 10) / 10000000) % std::max(1, n), k = 0; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &set) && k++ == want) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; } }
    load_pool(a[8]);
    uint64_t seed = strtoull(a[2].c_str(), nullptr, 10); long from = atol(a[3].c_str()), count = atol(a[4].c_str()); double wall = atof(a[5].c_str()), t0 = now_s();
    std::set<str> seen; long done = 0; uint64_t points = 0, switches = 0, hot = 0, stalls = 0, ops = 0, nontriv = 0; double span = 0, wn = 0, wd = 0, wr = 0; std::set<uint64_t> sigs, places; std::map<str, uint64_t> kinds, feats; strs samples; uint64_t digest = 0;
    for (long i = from; i < from + count && now_s() - t0 < wall && seen.size() < 3; i++) {
      uint64_t x = seed * 1000003ull + i * 2654435761ull + fnv(a[1].data(), a[1].size()); uint64_t s = Rng::mix(x);
      Scn sc = generate(a[1], s, a[6] == "thorough");
      Verdict v = judge(sc); done++;
      points += v.e.g; switches += v.e.switches; hot += v.e.hot; stalls += v.e.stalls; ops += sc.ops.size(); wn = std::max(wn, v.e.wn); wd = std::max(wd, v.e.wd); wr = std::max(wr, v.e.wr);
      digest ^= v.hash * (2 * (uint64_t)i + 1);
      uint64_t h = v.e.sig; if (a[1] == "L02") for (auto &o : sc.ops) { int q[4] = {o.who, o.kind, o.a, o.b}; h = fnv(q, sizeof q, h); h = fnv(&o.x, 8, h); h = fnv(o.s.data(), o.s.size(), h); }
      bool nt = a[1] == "L01" ? v.e.switches > 0 : std::any_of(sc.ops.begin(), sc.ops.end(), [](const Op &o) { return o.who == 1; });
      if (nt) { nontriv++; sigs.insert(h); }
      for (auto p : v.e.places) places.insert(p);
      for (size_t k = 0; k < sc.ops.size(); k++) { auto &o = sc.ops[k]; kinds[o.kind == INIT ? str(MN[o.b]) + "_init" : o.kind == PROP ? MN[o.b] : KN[o.kind]]++; if (o.kind == PROP) span += fabs(o.x);
        if (o.kind == PARSE && k < v.e.res.size() && !v.e.res[k].empty() && v.e.res[k][0] < 0) feats["element sets that do not parse"]++;
        if (o.kind == PROP && k < v.e.res.size() && !v.e.res[k].empty() && v.e.res[k][0] < 0) feats["propagations that end with an error or warning code"]++; }
      if (sc.fill) feats["runs with non-zero residual memory"]++;
      if (sc.stall >= 0) feats["runs with a stalled thread"]++;
      if (samples.size() < 2 && i % 5 == 2) { str o = fmt("seed %llu: %d threads, quantum %g, %zu switches, calls:", (unsigned long long)s, sc.nthreads, sc.quantum, (size_t)v.e.switches); for (size_t k = 0; k < sc.ops.size() && k < 7; k++) o += fmt(" [%d] ", sc.ops[k].who) + describe(sc.ops[k]) + ";"; samples.push_back(o.substr(0, 700)); }
      if (!v.ok() && seen.insert(v.cls).second) {
        str f = a[7] + fmt("/%s-%llu-%s.raw", a[1].c_str(), (unsigned long long)s, v.cls.c_str()); std::ofstream(f) << save(sc);
        printf("FOUND %s %s\n  %s\n", v.cls.c_str(), f.c_str(), v.msg.c_str()); fflush(stdout);
      }
    }
    str o = fmt("STATS {\"runs\": %llu, \"scenarios\": %ld, \"nontrivial\": %llu, \"ops\": %llu, \"points\": %llu, \"switches\": %llu, \"hot\": %llu, \"stalls\": %llu, \"span_min\": %.0f, \"worst_near\": %g, \"worst_deep\": %g, \"worst_resonant\": %g, \"digest\": \"%016llx\", \"kinds\": {", (unsigned long long)g_execs, done, (unsigned long long)nontriv, (unsigned long long)ops, (unsigned long long)points, (unsigned long long)switches, (unsigned long long)hot, (unsigned long long)stalls, span, wn, wd, wr, (unsigned long long)digest);
    bool f = true; for (auto &k : kinds) { o += str(f ? "" : ", ") + jstr(k.first) + fmt(": %llu", (unsigned long long)k.second); f = false; }
    o += "}, \"feats\": {"; f = true; for (auto &k : feats) { o += str(f ? "" : ", ") + jstr(k.first) + fmt(": %llu", (unsigned long long)k.second); f = false; }
    o += "}, \"sigs\": ["; f = true; for (auto k : sigs) { o += fmt("%s\"%llx\"", f ? "" : ",", (unsigned long long)k); f = false; }
    o += "], \"places\": ["; f = true; for (auto k : places) { o += fmt("%s\"%llx\"", f ? "" : ",", (unsigned long long)k); f = false; }
    o += "], \"samples\": ["; f = true; for (auto &k : samples) { o += str(f ? "" : ", ") + jstr(k); f = false; }
    puts((o + "]}").c_str());
    return 0;
  }
  if (a.size() >= 2 && (a[0] == "replay" || a[0] == "min" || a[0] == "gen")) {
    Scn sc;
    if (a[0] == "gen") { load_pool(a[3]); fputs(save(generate(a[1], strtoull(a[2].c_str(), nullptr, 10), false)).c_str(), stdout); return 0; }
    std::ifstream in(a[1]); std::stringstream b; b << in.rdbuf();
    if (!load(b.str(), sc)) { fprintf(stderr, "%s: not a libsim replay\n", a[1].c_str()); return 3; }
    if (a[0] == "min") {
      Scn m = minimise(sc, a[4], atof(a[3].c_str())); Verdict v = judge(m);
      std::ofstream(a[2]) << "# replay of a violation of " << m.prop << "\n# " << v.cls << ": " << v.msg << "\n" << save(m);
      return 0;
    }
    Verdict v = judge(sc);
    if (a.size() < 3) for (size_t i = 0; i < sc.ops.size(); i++) printf("%d: %s -> %s\n", sc.ops[i].who, describe(sc.ops[i]).c_str(), i < v.e.res.size() ? show(v.e.res[i]).c_str() : "?");
    printf("HASH %016llx\n", (unsigned long long)v.hash);
    if (!v.ok()) printf("BAD %s %s\n", v.cls.c_str(), v.msg.c_str());
    return v.ok() ? 0 : 1;
  }
  fprintf(stderr, "usage: libsim batch PROP SEED FROM COUNT WALL TIER OUTDIR POOL | replay FILE [-q] | min IN OUT SECONDS CLASS | gen PROP SEED POOL\n");
  return 3;
}
