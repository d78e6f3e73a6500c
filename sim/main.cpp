// satsim: batch / min / replay / show
#include "sat.h"
#include <time.h>
#include <unistd.h>
#include <libgen.h>
#include <sys/personality.h>

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static str self_dir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; return dirname(b); }
#if defined(__SANITIZE_ADDRESS__)
static const long is_asan = 1;
#else
static const long is_asan = 0;
#endif
static str jstr(const str &s) {
  str r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; }
  return r + "\"";
}
static void print_stats(double secs) {
  str o = fmt("STATS {\"runs\": %llu, \"scenarios\": %llu, \"nontrivial\": %llu, \"executions\": %zu, \"digest\": \"%016llx\", \"seconds\": %.2f, ", (unsigned long long)stats.runs, (unsigned long long)stats.scenarios,
    (unsigned long long)stats.nontrivial, stats.executions.size(), (unsigned long long)stats.digest, secs);
  auto put = [&](const char *k, std::map<str, uint64_t> &m) { o += str("\"") + k + "\": {"; bool f = true; for (auto &kv : m) { o += str(f ? "" : ", ") + jstr(kv.first) + fmt(": %llu", (unsigned long long)kv.second); f = false; } o += "}, "; };
  put("fired", stats.fired); put("probes", stats.probes); put("ends", stats.ends);
  o += "\"behaviours\": ["; bool f = true; for (auto b : stats.behaviours) { o += fmt("%s\"%llx\"", f ? "" : ",", (unsigned long long)b); f = false; } o += "], \"samples\": [";
  f = true; for (auto &s : stats.samples) { o += (f ? "" : ", ") + jstr(s); f = false; }
  puts((o + "]}").c_str());
}
static str describe(const Scenario &s) {
  str o = s.prog; for (auto &a : s.argv) o += " " + esc(a);
  o += fmt("  [%zu files", s.files.size());
  for (auto &f : s.files) {
    if (f.second.open_errno) o += fmt("; open %s errno %d", f.first.c_str(), f.second.open_errno);
    if (f.second.fail_errno) o += fmt("; read %s fails at %ld errno %d", f.first.c_str(), f.second.fail_at, f.second.fail_errno);
    if (f.second.swap_at >= 0) o += fmt("; %s replaced at %ld", f.first.c_str(), f.second.swap_at);
  }
  if (s.alloc_fail) o += fmt("; allocation %ld fails", s.alloc_fail);
  if (s.out_fail >= 0) o += fmt("; output fails at %ld errno %ld", s.out_fail, s.out_errno);
  if (s.out_closed) o += "; output closed";
  if (s.fd_limit) o += fmt("; %ld descriptors", s.fd_limit);
  return o.substr(0, 500) + "]";
}
int main(int argc, char **argv) {
  int pers = personality(0xffffffff);              // address space randomisation would be a choice the seed does not make
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1 && !getenv("SATSIM_NOASLR")) {
    setenv("SATSIM_NOASLR", "1", 1);
    execv("/proc/self/exe", argv);
  }
  unsetenv("SATSIM_NOASLR");
  strs a(argv + 1, argv + argc);
  if (a.empty()) { fprintf(stderr, "usage: satsim batch PROP SEED FROM COUNT WALL TIER OUTDIR | replay FILE | min IN OUT BUDGET | gen PROP SEED\n"); return 3; }
  str pooldir = getenv("SATSIM_POOL") ? getenv("SATSIM_POOL") : self_dir() + "/../sim/pool";
  unsetenv("SATSIM_POOL");
  locale_dir = self_dir() + "/locale";
  if (access((locale_dir + "/de_DE.UTF-8").c_str(), F_OK)) locale_dir = "";
  load_pool(pooldir);
  if (a[0] == "batch" && a.size() == 8) {
    uint64_t seed = strtoull(a[2].c_str(), nullptr, 10); long from = atol(a[3].c_str()), count = atol(a[4].c_str()); double wall = atof(a[5].c_str());
    bool thorough = a[6] == "thorough";
    double t0 = now_s(); std::set<str> seen; long done = 0;
    for (long i = from; i < from + count; i++) {
      if (now_s() - t0 > wall) break;
      uint64_t s = seed * 1000003ull + i * 2654435761ull + fnv(a[1]);
      s = Rng::mix(s);
      Scenario sc = generate(a[1], s, thorough);
      sc.asan = is_asan;
      if (stats.samples.size() < 2 && i % 7 == 3) stats.samples.push_back(fmt("seed %llu: ", (unsigned long long)s) + describe(sc));
      Viols v = judge(sc);
      done++;
      for (auto &x : v) if (seen.insert(x.cls).second) {
        str f = a[7] + fmt("/%s-%llu-%s.raw", a[1].c_str(), (unsigned long long)s, x.cls.c_str());
        write_all(f, sc.save());
        printf("FOUND %s %s\n", x.cls.c_str(), f.c_str());
        printf("  %s\n  %s\n", x.msg.c_str(), describe(sc).c_str());
        fflush(stdout);
      }
      if (seen.size() >= 3) break;
    }
    printf("DONE %ld\n", done);
    print_stats(now_s() - t0);
    return 0;
  }
  if (a[0] == "gen" && a.size() == 3) { fputs(generate(a[1], strtoull(a[2].c_str(), nullptr, 10), false).save().c_str(), stdout); return 0; }
  if (a.size() < 2) return 3;
  bool ok; str text = read_all(a[1], &ok); Scenario sc; str err;
  if (!ok || !sc.load(text, err)) { fprintf(stderr, "%s: %s\n", a[1].c_str(), ok ? err.c_str() : "cannot read"); return 3; }
  if (sc.asan != is_asan) {
    str exe = self_dir() + (sc.asan ? "/satsim_asan" : "/satsim");
    setenv("SATSIM_POOL", pooldir.c_str(), 1);
    execv(exe.c_str(), argv); perror(exe.c_str()); return 3;
  }
  if (a[0] == "min" && a.size() == 5) {
    Scenario best = minimise(sc, a[4], atof(a[3].c_str()));
    Outcome o; Viols v = judge(best, &o);
    str head = "# replay of a violation of " + best.prop + "\n";
    for (auto &x : v) head += "# " + x.cls + ": " + esc(x.msg) + "\n";
    head += "# execution hash " + fmt("%016llx", (unsigned long long)o.hash) + "\n";
    write_all(a[2], head + best.save());
    return 0;
  }
  if (a[0] == "replay") {
    Outcome o; Viols v = judge(sc, &o);
    bool quiet = a.size() > 2 && a[2] == "-q";
    if (!quiet) { fputs(o.log.substr(0, 6000).c_str(), stdout); printf("---- output (%s)\n%s\n----\n", o.how().c_str(), o.out.substr(0, 8000).c_str()); }
    printf("HASH %016llx\n", (unsigned long long)o.hash);
    for (auto &x : v) printf("BAD %s %s\n", x.cls.c_str(), esc(x.msg).c_str());
    return v.empty() ? 0 : 1;
  }
  return 3;
}
