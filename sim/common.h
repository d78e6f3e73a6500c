// Shared basics of the simulators: PRNG, hashing, scenario files, run outcomes.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>

typedef std::string str;
typedef std::vector<str> strs;

// ---------------------------------------------------------------- PRNG (one integer decides everything)
struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t &x) {
    x += 0x9E3779B97F4A7C15ull;
    uint64_t z = x;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(seed); }
  uint64_t u64() {
    uint64_t a = s[0], b = s[1], r = a + b;
    b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27);
    return r;
  }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
  double real() { return (double)(u64() >> 11) / 9007199254740992.0; }
  double uniform(double a, double b) { return a + (b - a) * real(); }
  bool chance(double p) { return real() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t fnv(const str &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
str read_all(const str &path, bool *ok = nullptr);
bool write_all(const str &path, const str &data);
str esc(const str &s);                  // printable one-line form (\xHH escapes)
bool unesc(const str &s, str &out);
strs split_lines(const str &data);      // keeps the terminators

// ---------------------------------------------------------------- scenario
struct SimFile {
  str data;
  int open_errno = 0;       // open fails with this
  long fail_at = -1;        // reading byte offset >= fail_at fails ...
  int fail_errno = 0;       // ... with this (once, if transient)
  bool transient = false;
  long swap_at = -1;        // after this many bytes were delivered, the file is replaced by data2:
  int swap_kind = 0;        // 1 = renamed over (open stream keeps the old), 2 = rewritten in place
  str data2;
};
struct Scenario {
  str prop, profile, prog;
  strs argv;                              // without argv[0]
  std::map<str, SimFile> files;           // normalised relative or absolute path
  std::vector<std::pair<str, str>> env;
  long fill = 0;            // pattern of uninitialised memory (stack and heap)
  long chunk = 0;           // largest read, 0 = no limit
  long chunk_seed = 0;      // random chunk sizes if not 0
  long move = 1;            // realloc always moves
  long align = 0;           // extra bytes between heap blocks
  long out_mode = 0;        // 0 fully buffered, 1 line, 2 unbuffered
  long out_buf = 4096;
  long out_fail = -1;       // device fails once this many bytes were accepted
  long out_errno = 28;      // ENOSPC
  long out_chunk = 0;       // device accepts at most so many bytes per write
  long out_closed = 0;      // stdout is closed
  long alloc_fail = 0;      // n-th allocation fails
  long alloc_fail_on = 0;   // ... and all later ones
  long fd_limit = 0;        // 0: unlimited
  long clock = 1700000000;  // simulated clock at start (s)
  long clock_ns = 0;
  std::vector<long> jumps;  // added before the k-th reading of the clock
  long clock_fail = 0;      // k-th reading fails
  long asan = 0;            // run the AddressSanitizer build
  std::map<str, str> meta;  // for the oracle (request parameters)
  str save() const;
  bool load(const str &text, str &err);
};

// ---------------------------------------------------------------- outcome (lives in shared memory during the run)
enum { FK_OPEN, FK_READ_ERR, FK_READ_EINTR, FK_SHORT_READ, FK_SWAP_RENAME, FK_SWAP_INPLACE, FK_ALLOC, FK_EMFILE,
       FK_OUT_ERR, FK_OUT_SHORT, FK_OUT_CLOSED, FK_CLOCK_JUMP, FK_CLOCK_FAIL, FK_FILL, FK_REALLOC_MOVE, FK_FORBIDDEN, FK_N };
extern const char *fault_names[FK_N];

struct Shm {
  uint64_t hash;            // running hash of the event log
  uint64_t events;
  uint64_t fired[FK_N];
  int64_t out_len, out_lost, err_len;
  int64_t open_now, open_peak, opens, leaked_at_exit;
  int64_t live_bytes, peak_bytes, allocs;
  int64_t canary, badfree, asan_hit, forbidden, clock_reads, started, finished;
  int64_t clock_first, clock_first_ns, clock_min, clock_max, clock_max_ns;
  int64_t reads_after_err;
  int64_t note_len, log_len;
  int64_t failed_open_len, dlv_n;
  char failed_open[512];
  char note[4096];          // what went wrong (canary, forbidden call ...)
  char log[1 << 16];        // readable event log (bounded)
  char err[1 << 14];
  struct Dlv { int file; int64_t len; int eof; int err; } dlv[4096];  // bytes delivered per open, in order
  char out[24 << 20];
};

extern str locale_dir;              // installed locales, or empty
struct Outcome {
  bool hang = false;
  int sig = 0, code = 0;      // ended by signal / exit code
  str out, err, log, note, failed_open;
  uint64_t hash = 0, events = 0;
  std::vector<uint64_t> fired;
  int64_t open_peak = 0, opens = 0, leaked = 0, peak_bytes = 0, allocs = 0, canary = 0, badfree = 0, asan = 0, forbidden = 0,
          out_lost = 0, clock_reads = 0, clock_first = 0, clock_first_ns = 0, clock_min = 0, clock_max = 0, clock_max_ns = 0, finished = 0,
          live_end = 0;
  struct D { str path; int64_t len; bool eof, err; };
  std::vector<D> delivered;
  bool crashed() const { return sig || hang || canary || badfree || asan; }
  str how() const;
};

void run(const Scenario &sc, Outcome &o);
str norm_path(const str &p);
