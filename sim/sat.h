// Reference model of the query tools, scenario generators and oracles.
#pragma once
#include "common.h"
#include <memory>

// ---------------------------------------------------------------- strict JSON
struct Json {
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
  bool b = false; double num = 0; str s; str raw;
  std::vector<Json> a; std::vector<std::pair<str, Json>> o;
  const Json *get(const str &k) const { for (auto &kv : o) if (kv.first == k) return &kv.second; return nullptr; }
};
bool parse_json(const str &text, Json &j, str &err);   // the whole text is one value, optionally followed by one newline

// ---------------------------------------------------------------- element sets
struct Entry { str name, l1, l2; };          // lines without terminators; name may be empty
int line_sum(const str &l);                  // checksum digit of the first 68 columns
void fix_sum(str &l);
str relabel(const str &l, int line, const str &norad5, const str &intl = "");
struct Scanned { str name_line; bool has_name; str l1, l2, norad; size_t end; bool partial; };
// intact sets of a catalogue in order; grey = the documentation leaves open what happens
std::vector<Scanned> scan_catalogue(const str &data, bool &grey);
extern std::vector<Entry> pool, hpool;
void load_pool(const str &dir);

// ---------------------------------------------------------------- requests
struct Req {
  bool vis = false, ok = true, usage = false;      // ok: every option is understood by the model
  str cat; bool list = false, cat_first = true;
  size_t cat_at = 0;                               // index in argv
  str dir = "."; bool has_l = false;
  long max = 1000; bool I = false, V = false, single = false;
  bool by_n = false, by_i = false, by_S = false, alt = false;
  long norad = 0; str intl, satname; double alt_lo = 0, alt_hi = -1;   // the filter's range when both bounds are understood
};
Req parse_request(const Scenario &sc);

struct Single { bool error = false, included = false; str rec; bool sunlit = false; long norad = 0; str intl, name; std::map<str, str> head; str why; int status = 0; };

struct Expect {
  enum End { OK, FOUND, LIMIT, E_OPEN, E_READ, E_EMPTY, E_DECODE, E_LIST } end = OK;
  bool grey = false; str why_grey;
  std::vector<const Single *> recs; long n_found = 0, n_sunlit = 0;
  bool last_optional = false;     // the final record may be absent (cut line at a read error)
  bool retry_ok = false;          // transient fault: carrying on is as good as failing
  str path;                       // file concerned by the error
  str refused;                    // a set that carries what was asked for and passes the filters, but which the tool alone does not report
  bool single_found = false;
};

struct Violation { str cls, msg; };
typedef std::vector<Violation> Viols;

struct Report { bool usage = false, ok = false; str err; Json j; long status = -999, n_found = -1, n_sats = -1, n_sunlit = -1; str errmsg; std::vector<const Json *> sats; bool has_sats = false; };
void parse_report(const Outcome &o, Report &r);

struct Stats {
  uint64_t runs = 0, scenarios = 0, nontrivial = 0;
  std::map<str, uint64_t> fired, probes, ends;
  std::set<uint64_t> behaviours, executions;
  uint64_t digest = 0;
  double sim_seconds = 0;
  strs samples;
};
extern Stats stats;

void simulate(const Scenario &sc, Outcome &o);                    // run() plus statistics
Scenario generate(const str &prop, uint64_t seed, bool thorough);
Viols judge(const Scenario &sc, Outcome *first = nullptr);         // runs the scenario and applies the oracles of sc.prop
Scenario minimise(const Scenario &sc, const str &cls, double budget_s);
