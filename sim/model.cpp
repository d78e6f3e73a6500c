#include "sat.h"
#include <errno.h>
#include <ctype.h>
#include <math.h>
#include <unordered_map>
#include <algorithm>

Stats stats;
std::vector<Entry> pool, hpool;

// ---------------------------------------------------------------- JSON (RFC 8259, strict, UTF-8)
namespace {
struct JP {
  const char *b, *p, *e; str err; int depth = 0;
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; }
  bool fail(const char *m) { if (err.empty()) err = fmt("%s at byte %ld: '%s'", m, (long)(p - b), esc(str(p > b + 20 ? p - 20 : b, std::min(e, p + 20))).c_str()); return false; }
  bool string(str &s) {
    if (p >= e || *p != '"') return fail("string expected");
    p++;
    while (p < e && *p != '"') {
      unsigned char c = *p;
      if (c < 0x20) return fail("control character in string");
      if (c == '\\') {
        if (++p >= e) return fail("bad escape");
        switch (*p) {
          case '"': s += '"'; break; case '\\': s += '\\'; break; case '/': s += '/'; break;
          case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
          case 'u': {
            if (e - p < 5) return fail("bad escape");
            for (int i = 1; i <= 4; i++) if (!isxdigit((unsigned char)p[i])) return fail("bad escape");
            long v = strtol(str(p + 1, 4).c_str(), nullptr, 16);
            if (v < 0x100) s += (char)v; else s += '?';
            p += 4; break; }
          default: return fail("bad escape");
        }
        p++;
      } else if (c < 0x80) { s += c; p++; }
      else {
        int n = c >= 0xC2 && c < 0xE0 ? 1 : (c & 0xF0) == 0xE0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : 0;
        bool ok = n && e - p > n;
        for (int i = 1; ok && i <= n; i++) ok = ((unsigned char)p[i] & 0xC0) == 0x80;
        if (ok && n > 1) { unsigned char d = p[1]; ok = !((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F)); }
        if (!ok) return fail("string is not UTF-8");
        s.append(p, n + 1); p += n + 1;
      }
    }
    if (p >= e) return fail("unterminated string");
    p++; return true;
  }
  bool value(Json &j) {
    if (++depth > 60) return fail("too deep");
    ws();
    const char *st = p;
    if (p >= e) return fail("value expected");
    if (*p == '{') {
      j.t = Json::OBJ; p++; ws();
      if (p < e && *p == '}') p++;
      else for (;;) {
        ws(); str k; Json v;
        if (!string(k)) return false;
        ws(); if (p >= e || *p != ':') return fail("':' expected");
        p++;
        if (!value(v)) return false;
        j.o.emplace_back(k, v);
        ws();
        if (p < e && *p == ',') { p++; continue; }
        if (p < e && *p == '}') { p++; break; }
        return fail("',' or '}' expected");
      }
    } else if (*p == '[') {
      j.t = Json::ARR; p++; ws();
      if (p < e && *p == ']') p++;
      else for (;;) {
        Json v;
        if (!value(v)) return false;
        j.a.push_back(v); ws();
        if (p < e && *p == ',') { p++; continue; }
        if (p < e && *p == ']') { p++; break; }
        return fail("',' or ']' expected");
      }
    } else if (*p == '"') { j.t = Json::STR; if (!string(j.s)) return false; }
    else if (*p == '-' || isdigit((unsigned char)*p)) {
      j.t = Json::NUM;
      if (*p == '-') p++;
      if (p >= e || !isdigit((unsigned char)*p)) return fail("bad number");
      if (*p == '0') p++; else while (p < e && isdigit((unsigned char)*p)) p++;
      if (p < e && *p == '.') { p++; if (p >= e || !isdigit((unsigned char)*p)) return fail("bad number"); while (p < e && isdigit((unsigned char)*p)) p++; }
      if (p < e && (*p == 'e' || *p == 'E')) { p++; if (p < e && (*p == '+' || *p == '-')) p++; if (p >= e || !isdigit((unsigned char)*p)) return fail("bad number"); while (p < e && isdigit((unsigned char)*p)) p++; }
      j.num = strtod(str(st, p).c_str(), nullptr);
    } else if (e - p >= 4 && !memcmp(p, "true", 4)) { j.t = Json::BOOL; j.b = true; p += 4; }
    else if (e - p >= 5 && !memcmp(p, "false", 5)) { j.t = Json::BOOL; p += 5; }
    else if (e - p >= 4 && !memcmp(p, "null", 4)) p += 4;
    else return fail("value expected");
    j.raw.assign(st, p);
    depth--;
    return true;
  }
};
}
bool parse_json(const str &t, Json &j, str &err) {
  JP q; q.b = q.p = t.data(); q.e = q.b + t.size();
  if (!q.value(j)) { err = q.err; return false; }
  if (q.p < q.e && *q.p == '\n') q.p++;
  if (q.p != q.e) { q.fail("trailing bytes"); err = q.err; return false; }
  return true;
}

// ---------------------------------------------------------------- element sets
int line_sum(const str &l) {
  int s = 0;
  for (size_t i = 0; i < 68 && i < l.size(); i++) { if (isdigit((unsigned char)l[i])) s += l[i] - '0'; else if (l[i] == '-') s++; }
  return s % 10;
}
void fix_sum(str &l) { l.resize(69, ' '); l[68] = '0' + line_sum(l); }
str relabel(const str &l0, int line, const str &norad, const str &intl) {
  str l = l0;
  if (norad.size() == 5) l.replace(2, 5, norad);
  if (line == 1 && intl.size() == 8) l.replace(9, 8, intl);
  fix_sum(l);
  return l;
}
static bool intact_line(const str &l, char d) {
  if (l.size() < 69 || l[0] != d || l[1] != ' ') return false;
  for (int i = 0; i < 68; i++) if (l[i] < ' ' || l[i] > 'z') return false;
  if (l.size() > 69 && (unsigned char)l[69] > ' ') return false;
  return isdigit((unsigned char)l[68]) && l[68] - '0' == line_sum(l);
}
std::vector<Scanned> scan_catalogue(const str &data, bool &grey) {
  std::vector<Scanned> r;
  strs ls = split_lines(data);
  size_t pos = 0;
  std::vector<size_t> ends;
  for (auto &l : ls) {
    pos += l.size(); ends.push_back(pos);
    if (l.size() > 98 && (l[98] == 0)) grey = true;
    while (!l.empty() && (l.back() == '\n')) l.pop_back();
    if (!l.empty() && l.back() == '\r') l.pop_back();
  }
  auto elem = [](const str &l) { return l.size() > 1 && (l[0] == '1' || l[0] == '2') && l[1] == ' '; };
  for (size_t i = 0; i < ls.size(); i++) {
    if (!intact_line(ls[i], '1') || i + 1 >= ls.size()) continue;
    if (!intact_line(ls[i + 1], '2')) continue;
    if (ls[i].compare(2, 5, ls[i + 1], 2, 5)) continue;
    Scanned s;
    s.has_name = i > 0 && !elem(ls[i - 1]);
    if (s.has_name) s.name_line = ls[i - 1];
    s.l1 = ls[i].substr(0, 69); s.l2 = ls[i + 1].substr(0, 69); s.norad = ls[i].substr(2, 5);
    s.end = ends[i + 1];
    s.partial = data[s.end - 1] != '\n';
    if (s.norad.find(',') != str::npos) grey = true;
    r.push_back(s);
  }
  return r;
}
static long norad_num(const str &f) {            // traditional and Alpha-5 numbers; -1: other
  long v = 0; size_t i = 0;
  if (f.size() != 5) return -1;
  if (isupper((unsigned char)f[0])) {
    if (f[0] == 'I' || f[0] == 'O') return -1;
    v = f[0] - 'A' + 10; if (f[0] > 'I') v--; if (f[0] > 'O') v--; i = 1;
  }
  for (; i < 5; i++) { if (!isdigit((unsigned char)f[i])) return -1; v = v * 10 + f[i] - '0'; }
  return v;
}
static str designator(const str &l1) {
  str d = l1.substr(9, 8);
  if (d[0] == ' ') return "none";
  str r = (atoi(d.c_str()) > 57000 ? "19" : "20") + d.substr(0, 2) + "-" + d.substr(2);
  while (!r.empty() && r.back() == ' ') r.pop_back();
  return r;
}
// a full designator, or the first part of one (launch, or launch and piece), as -i accepts it
static bool desig_match(const str &d, const str &want) {
  if (want.empty() || d.compare(0, want.size(), want)) return false;
  return !(isalpha((unsigned char)want.back()) && d.size() > want.size() && isalpha((unsigned char)d[want.size()]));
}
static str trim_name(const str &n) {
  str r = n.substr(0, 23);
  r = r.c_str();
  while (!r.empty() && isspace((unsigned char)r.back())) r.pop_back();
  return r;
}
void load_pool(const str &dir) {
  for (const char *f : {"default.tle", "stations.txt"}) {
    bool g = false;
    for (auto &s : scan_catalogue(read_all(dir + "/" + f), g)) pool.push_back({s.name_line, s.l1, s.l2});
  }
  for (const char *f : {"gaia_2025.txt", "jwt_2025.txt", "euclid_2025.txt", "juice_2024.txt"}) {
    bool g = false;
    for (auto &s : scan_catalogue(read_all(dir + "/" + f), g)) hpool.push_back({s.name_line, s.l1, s.l2});
  }
  if (pool.size() < 100 || hpool.size() < 8) { fprintf(stderr, "pool not readable (%zu, %zu)\n", pool.size(), hpool.size()); exit(3); }
}

// ---------------------------------------------------------------- requests (grammar of the usage text)
Req parse_request(const Scenario &sc) {
  Req r;
  r.vis = sc.prog == "sat_visibility";
  const strs &a = sc.argv;
  if (a.empty()) { r.ok = false; return r; }
  str sw = r.vis ? "hNT" : "hEGHITV", par = r.vis ? "adDijlrst" : "adDijlnprsSt";
  std::set<size_t> used;
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].empty()) { r.ok = false; return r; }
    if (a[i][0] != '-') continue;
    used.insert(i);
    if (a[i].size() < 2) { r.ok = false; return r; }
    char c = a[i][1];
    if (sw.find(c) != str::npos) {
      if (a[i].size() != 2) { r.ok = false; return r; }
      if (c == 'h') { r.usage = true; return r; }
      if (c == 'I') r.I = true;
      if (c == 'V') r.V = true;
      if (c == 'T') r.dir = "/usr/local/TLErepo";
      if (c == 'E') r.alt = r.alt;
      continue;
    }
    if (par.find(c) == str::npos) { r.ok = false; return r; }
    str v = a[i].substr(2);
    if (v.empty()) { if (++i >= a.size()) { r.ok = false; return r; } v = a[i]; used.insert(i); }
    if (c == 'D') r.dir = v;
    else if (c == 'l') r.has_l = true;
    else if (c == 'n') { if (sscanf(v.c_str(), "%ld", &r.max) != 1) r.ok = false; }
    else if (c == 's') { char *e; r.by_n = true; r.norad = strtol(v.c_str(), &e, 10); if (*e || r.norad <= 0 || r.norad > 2147483647L) r.ok = false; }
    else if (c == 'i') { r.by_i = true; r.intl = v; }
    else if (c == 'S') { r.by_S = true; r.satname = v; }
    else if (c == 'a') { r.alt = true; if (sscanf(v.c_str(), "%lf,%lf", &r.alt_lo, &r.alt_hi) != 2) { r.alt_lo = 0; r.alt_hi = -1; } else if (r.alt_hi < r.alt_lo) std::swap(r.alt_lo, r.alt_hi); }
  }
  r.single = r.by_n || r.by_i;
  size_t at = a[0][0] == '-' ? a.size() - 1 : 0;
  r.cat_first = at == 0; r.cat_at = at;
  if (used.count(at)) r.ok = false;
  r.cat = a[at];
  if (!r.cat.empty() && r.cat[0] == '@') { r.list = true; r.cat = r.cat.substr(1); }
  if (!r.has_l) r.usage = true;
  return r;
}

// ---------------------------------------------------------------- reports
void parse_report(const Outcome &o, Report &r) {
  r = Report();
  if (o.out.compare(0, 6, "Usage:") == 0) { r.usage = true; return; }
  if (o.out.empty()) { r.err = "no output"; return; }
  if (o.out.back() != '\n') { r.err = "output does not end with a newline"; }
  str e;
  if (!parse_json(o.out, r.j, e)) { r.err = "not JSON: " + e; return; }
  if (!r.err.empty()) return;
  if (r.j.t != Json::OBJ) { r.err = "not an object"; return; }
  auto num = [&](const char *k, long &v) { const Json *x = r.j.get(k); if (x && x->t == Json::NUM) v = (long)x->num; else if (x) r.err = str(k) + " is not a number"; };
  num("status", r.status); num("n_sats_found", r.n_found); num("n_sats", r.n_sats); num("n_sunlit_sats", r.n_sunlit);
  const Json *m = r.j.get("errmsg");
  if (m && m->t == Json::STR) r.errmsg = m->s; else r.err = "no errmsg";
  if (r.status == -999) r.err = "no status";
  if (r.n_found < 0) r.err = "no n_sats_found";
  if (!r.j.get("run_command")) r.err = "no run_command";
  if (const Json *s = r.j.get("satellites")) {
    r.has_sats = true;
    if (s->t != Json::ARR) r.err = "satellites is not an array";
    for (auto &x : s->a) { if (x.t != Json::OBJ) r.err = "satellite record is not an object"; r.sats.push_back(&x); }
  }
  if (!r.err.empty()) return;
  r.ok = true;
}
static bool rec_sunlit(const Json &rec, bool &ok) {
  const Json *d = rec.get("data");
  ok = d && d->t == Json::ARR && d->a.size() == 10 && d->a[8].t == Json::NUM;
  return ok && d->a[8].num != 0;
}

// ---------------------------------------------------------------- running
void simulate(const Scenario &sc, Outcome &o) {
  run(sc, o);
  stats.runs++;
  for (int i = 0; i < FK_N; i++) if (o.fired[i]) stats.fired[fault_names[i]] += o.fired[i];
  stats.executions.insert(o.hash);
  stats.digest = stats.digest * 1099511628211ull + o.hash;
}

// the record the tool prints for one element set alone in a clean world
static std::unordered_map<str, std::unique_ptr<Single>> single_cache;
static const Single *single_run(const Scenario &sc, const Req &r, const Scanned &s, bool no_alt = false, bool by_number = false) {
  Scenario q;
  q.prog = sc.prog; q.asan = 0;
  strs a;
  for (size_t i = 0; i < sc.argv.size(); i++) {
    if (i == r.cat_at) { a.push_back("one.tle"); continue; }
    const str &x = sc.argv[i];
    if (x.compare(0, 2, "-s") == 0 && r.by_n) { if (x.size() == 2) i++; a.push_back(fmt("-s%ld", r.norad)); continue; }   // however the number was written
    if (by_number && x.compare(0, 2, "-S") == 0) { if (x.size() == 2) i++; a.push_back(fmt("-s%ld", norad_num(s.norad))); continue; }
    if (no_alt && x.compare(0, 2, "-a") == 0) { if (x.size() == 2) i++; continue; }
    if (!r.vis) {                       // -I, -V and -n are the model's business
      if (x == "-I" || x == "-V") continue;
      if (x.compare(0, 2, "-n") == 0) { if (x.size() == 2) i++; continue; }
      // a parameter given separately must not be mistaken for a switch
      if (x.size() == 2 && x[0] == '-' && strchr("adDijlprsSt", x[1]) && i + 1 < sc.argv.size() && i + 1 != r.cat_at) { a.push_back(x); a.push_back(sc.argv[++i]); continue; }
    }
    a.push_back(x);
  }
  if (!r.cat_first) { /* keeps its place at the end */ }
  q.argv = a;
  str key = q.prog;
  for (auto &x : a) key += "\x01" + x;
  str data = (s.has_name ? s.name_line + "\n" : str()) + s.l1 + "\n" + s.l2 + "\n";
  key += "\x02" + data;
  auto it = single_cache.find(key);
  if (it != single_cache.end()) return it->second.get();
  if (single_cache.size() > 60000) single_cache.clear();
  q.files[norm_path(r.dir + "/one.tle")].data = data;
  Outcome o; simulate(q, o);
  Report rep; parse_report(o, rep);
  auto res = std::make_unique<Single>();
  if (o.crashed()) { res->error = true; res->why = o.how(); res->status = -998; }
  else if (!rep.ok) { res->error = true; res->why = rep.err; res->status = -997; }
  else {
    res->status = rep.status;
    for (auto &kv : rep.j.o) {
      str raw = kv.second.raw;
      if (kv.first == "run_command" || kv.first == "satellites" || kv.first == "status" || kv.first == "errmsg") continue;
      if (!r.vis && kv.first.compare(0, 2, "n_") == 0) continue;
      if (kv.first == "input_params") {
        raw = "";
        for (auto &m : kv.second.o) if (m.first != "tle_file" && m.first != "max_sats") raw += m.first + "=" + m.second.raw + ";";
      }
      res->head[kv.first] += raw;
    }
    if (!r.vis) {
      if (rep.status != 0) { res->error = true; res->why = "status"; }
      else if (rep.sats.size() == 1) {
        bool ok; res->included = true; res->rec = rep.sats[0]->raw; res->sunlit = rec_sunlit(*rep.sats[0], ok);
        if (const Json *n = rep.sats[0]->get("norad_n")) res->norad = (long)n->num;
        if (const Json *n = rep.sats[0]->get("intl_desig")) res->intl = n->s;
        if (const Json *n = rep.sats[0]->get("name")) res->name = n->s;
      }
    }
  }
  stats.probes["reference_singletons"]++;
  return (single_cache[key] = std::move(res)).get();
}

// big synthetic catalogues: many sets share one record up to the catalogue number
static const Single *single_of(const Scenario &sc, const Req &r, const Scanned &s) {
  if (sc.meta.count("synthetic") && norad_num(s.norad) >= 0 && !r.by_n) {
    static std::unordered_map<str, std::unique_ptr<Single>> derived;
    Scanned base = s;
    base.norad = "00000"; base.l1 = relabel(s.l1, 1, "00000"); base.l2 = relabel(s.l2, 2, "00000");
    const Single *b = single_run(sc, r, base);
    str key = fmt("%p|", (void *)b) + s.norad;
    auto it = derived.find(key);
    if (it != derived.end()) return it->second.get();
    if (derived.size() > 200000) derived.clear();
    auto x = std::make_unique<Single>(*b);
    if (x->included) {
      size_t k = x->rec.find("\"norad_n\": 0,");
      if (k == str::npos) return single_run(sc, r, s);
      x->rec.replace(k, 13, fmt("\"norad_n\": %ld,", norad_num(s.norad)));
      x->norad = norad_num(s.norad);
    }
    return (derived[key] = std::move(x)).get();
  }
  return single_run(sc, r, s);
}

// lines with right checksums in which every number stands where it belongs
static bool well_formed(const Scanned &s) {
  auto like = [](const str &l, size_t at, const char *pat) {      // d digit, s sign or blank, b digit or blank; anything else itself
    for (size_t i = 0; pat[i]; i++) {
      unsigned char c = l[at + i];
      if (pat[i] == 'd' ? !isdigit(c) : pat[i] == 's' ? !strchr(" +-", c) : pat[i] == 'b' ? !(isdigit(c) || c == ' ') : c != (unsigned char)pat[i]) return false;
    }
    return true;
  };
  const str &a = s.l1, &b = s.l2;
  if (!like(a, 18, "ddddd.dddddddd ") || norad_num(s.norad) <= 0) return false;
  double day = atof(a.substr(20, 12).c_str());
  if (day < 1 || day > 366) return false;
  return like(a, 33, "s.dddddddd sdddddsd sdddddsd d ") && like(b, 7, " bbd.dddd bbd.dddd ddddddd bbd.dddd bbd.dddd bd.dddddddd");
}
// does the tool take the two lines for an element set at all (asked for by its number, no filter)
static bool accepted(const Scenario &sc, const Scanned &s, bool &unknown) {
  if (well_formed(s)) return true;
  if (norad_num(s.norad) <= 0) { unknown = true; return true; }
  Scenario q = sc; q.prog = "sat_skymap"; q.argv = {"one.tle", "-l10,20,100", "-j58900", fmt("-s%ld", norad_num(s.norad))};
  const Single *g = single_run(q, parse_request(q), s);
  return g->included || g->error;
}
// a request for one satellite reports the set that carries what was asked for, unless a filter excludes it
static void check_presence(const Scenario &sc, const Req &r, const Scanned &s, Expect &x) {
  stats.probes[well_formed(s) ? "presence_asserted" : "presence_not_asserted"]++;
  if (!well_formed(s)) return;
  const Single *g = single_of(sc, r, s);
  if (r.vis) { if (g->status == 1) x.refused = "status 1 for a catalogue holding only " + s.norad; return; }
  if (g->included || g->error) return;
  if (!r.single) {                     // by name
    if (r.alt || norad_num(s.norad) <= 0 || !single_run(sc, r, s, false, true)->included) return;
  } else if (r.alt) {
    if (!(r.alt_hi - r.alt_lo > 0.1)) return;
    const Single *n = single_run(sc, r, s, true);
    size_t k = n->rec.find("\"alt\":");
    if (!n->included || k == str::npos) return;
    double alt = atof(n->rec.c_str() + k + 6);
    if (alt < r.alt_lo + 0.02 || alt > r.alt_hi - 0.02) { stats.probes["single_satellite_outside_altitude_filter"]++; return; }
  }
  x.refused = "satellite " + s.norad + " (" + esc(designator(s.l1)) + ") passes the request but is not reported even when alone";
}

// ---------------------------------------------------------------- the reference model of a scan
static void expect(const Scenario &sc, const Req &r, Expect &x) {
  std::vector<str> cats;
  auto openable = [&](const str &p, const SimFile *&f) {
    auto it = sc.files.find(p);
    if (it == sc.files.end()) return false;
    f = &it->second;
    if (f->open_errno) { if (f->transient) x.retry_ok = true; return false; }
    return true;
  };
  std::set<str> swapped;
  auto stream = [&](const str &p, const SimFile *f, bool &err) {
    str d = f->data; err = false;
    if (f->swap_at >= 0) {
      if (swapped.count(p)) d = f->data2;
      else if ((size_t)f->swap_at <= f->data.size()) {
        swapped.insert(p);
        if (f->swap_kind == 2) d = f->data.substr(0, f->swap_at) + ((size_t)f->swap_at < f->data2.size() ? f->data2.substr(f->swap_at) : "");
      }
    }
    if (f->fail_errno && f->fail_at >= 0 && f->fail_at <= (long)d.size()) { err = true; if (f->transient || f->fail_errno == EINTR) x.retry_ok = true; d.resize(f->fail_at); }
    return d;
  };
  const SimFile *f = nullptr;
  bool list_err = false;
  if (r.list) {
    str lp = norm_path(r.dir + "/" + r.cat);
    if (!openable(lp, f)) { x.end = Expect::E_LIST; x.path = lp; return; }
    str d = stream(lp, f, list_err);
    if (f->swap_at >= 0 && f->swap_kind == 2) { x.grey = true; x.why_grey = "list rewritten"; }
    for (auto &l : split_lines(d)) {
      if (list_err && (l.empty() || l.back() != '\n')) break;
      if (l.size() > 4000) { x.grey = true; x.why_grey = "long list row"; }
      while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
      if (l.empty() || l[0] == '#') continue;
      for (unsigned char c : l) if (c < 32 || c == ' ') { x.grey = true; x.why_grey = "odd list row"; }
      cats.push_back(norm_path(r.dir + "/" + l));
    }
    if (list_err) x.path = lp;
  } else cats.push_back(norm_path(r.cat.find('/') == str::npos ? r.dir + "/" + r.cat : r.cat));
  std::set<str> met;
  for (auto &p : cats) {
    if (!openable(p, f)) { x.end = Expect::E_OPEN; x.path = p; return; }
    bool err;
    str d = stream(p, f, err);
    if (d.empty() || (err && d.find('\n') == str::npos && d.size() < 99)) { x.end = err ? Expect::E_READ : Expect::E_EMPTY; x.path = p; return; }
    for (auto &s : scan_catalogue(d, x.grey)) {
      bool opt = err && s.partial;
      if (r.by_n) { long n = norad_num(s.norad); if (n < 0) { x.grey = true; x.why_grey = "odd number"; } if (n != r.norad) continue; }
      else if (r.by_i) { if (!desig_match(designator(s.l1), r.intl)) continue; }
      else if (r.by_S) { str nm = s.has_name ? trim_name(s.name_line) : ""; if (nm.compare(0, r.satname.size(), r.satname)) continue; if (!s.has_name) { x.grey = true; x.why_grey = "nameless"; } }
      bool unknown = false;
      if (!accepted(sc, s, unknown)) continue;      // no element set after all: a later one with this number is the first
      if ((r.single || r.by_S) && s.norad.find(' ') == str::npos) check_presence(sc, r, s, x);
      if (r.vis) {
        if (opt) { x.grey = true; x.why_grey = "cut line"; return; }
        x.recs.push_back(single_of(sc, r, s)); x.n_found = 1; x.end = Expect::FOUND; x.single_found = true; return; }
      if (met.count(s.norad)) continue;
      const Single *g = single_of(sc, r, s);
      if (g->error) { if (opt) { x.grey = true; x.why_grey = "cut line"; } x.end = Expect::E_DECODE; if (g->status <= -997) { x.grey = true; x.why_grey = "singleton run failed: " + g->why; } return; }
      met.insert(s.norad);
      if (!g->included && unknown) { x.grey = true; x.why_grey = "odd number"; }
      if (!g->included || (r.V && !g->sunlit)) continue;
      x.recs.push_back(g); x.n_found++; x.n_sunlit += g->sunlit;
      if (opt) { x.last_optional = true; }
      if (r.single) { if (opt) { x.grey = true; x.why_grey = "cut line"; } x.single_found = true; x.end = Expect::FOUND; return; }
      if (x.n_found == r.max) { if (opt) { x.grey = true; x.why_grey = "cut line"; } x.end = Expect::LIMIT; return; }
    }
    if (err) { x.end = Expect::E_READ; x.path = p; return; }
  }
  if (list_err) { x.end = Expect::E_READ; return; }
  x.end = Expect::OK;
}

// ---------------------------------------------------------------- oracles
static str base_name(const str &p) { size_t k = p.rfind('/'); return k == str::npos ? p : p.substr(k + 1); }
static void crash_check(const Outcome &o, Viols &v) {
  if (o.hang) v.push_back({"hang", "the tool did not terminate"});
  else if (o.asan) v.push_back({"memory", "memory error: " + o.note});
  else if (o.canary || o.badfree) v.push_back({"heap", "heap corruption: " + o.note});
  else if (o.sig) v.push_back({"crash", fmt("killed by signal %d", o.sig)});
}
static void wellformed(const Scenario &sc, const Outcome &o, const Report &rep, Viols &v) {
  if (o.crashed()) { crash_check(o, v); return; }
  if (rep.usage) {
    if (o.code) v.push_back({"exit", fmt("usage text with exit code %d", o.code)});
    return;
  }
  if (!rep.ok) { v.push_back({"json", "report malformed: " + rep.err}); return; }
  if (sc.prog == "sat_skymap" && (rep.n_sats < 0 || rep.n_sunlit < 0)) v.push_back({"json", "satellite counters missing"});
  if (!sc.argv.empty()) {
    if ((rep.status == 0) != (o.code == 0)) v.push_back({"exit", fmt("status %ld but exit code %d", rep.status, o.code)});
  }
  if (rep.status != 0 && rep.errmsg.empty()) v.push_back({"errmsg", "failure without errmsg"});
  if (rep.status == 0 && !rep.errmsg.empty() && rep.errmsg.find("not found") == str::npos) v.push_back({"errmsg", "status 0 with errmsg '" + esc(rep.errmsg) + "'"});
  if (rep.status != 0 && !rep.errmsg.empty()) {
    strs bad;                                     // files that could not be opened or read
    if (!o.failed_open.empty()) for (auto &l : split_lines(o.failed_open)) bad.push_back(base_name(l.substr(0, l.size() - 1)));
    for (auto &d : o.delivered) if (d.err) bad.push_back(base_name(d.path));
    if (!bad.empty() && !o.fired[FK_ALLOC]) {
      bool named = false;
      for (auto &b : bad) if (b.size() > 60 || rep.errmsg.find(b) != str::npos) named = true;
      if (!named) v.push_back({"errmsg", "errmsg '" + esc(rep.errmsg) + "' does not name the file that failed (" + esc(bad[0]) + ")"});
    }
  }
}
static void counters(const Scenario &, const Req &r, const Report &rep, Viols &v) {
  if (!rep.ok || r.vis) return;
  long sun = 0; bool ok = true;
  for (auto *s : rep.sats) { sun += rec_sunlit(*s, ok); if (!ok) { v.push_back({"record", "malformed satellite record"}); return; } }
  if (rep.n_sats != rep.n_found) v.push_back({"counters", fmt("n_sats %ld but n_sats_found %ld", rep.n_sats, rep.n_found)});
  if (r.I) {
    if (rep.has_sats) v.push_back({"counters", "-I lists satellites"});
  } else {
    if ((long)rep.sats.size() != rep.n_found) v.push_back({"counters", fmt("n_sats_found %ld but %zu records", rep.n_found, rep.sats.size())});
    if (sun != rep.n_sunlit) v.push_back({"counters", fmt("n_sunlit_sats %ld but %ld records are sunlit", rep.n_sunlit, sun)});
    if (r.V && sun != (long)rep.sats.size()) v.push_back({"counters", "-V reports a satellite that is not sunlit"});
  }
  if (rep.n_sunlit > rep.n_found) v.push_back({"counters", "more sunlit satellites than satellites"});
  if (r.max > 0 && rep.n_found > r.max) v.push_back({"limit", fmt("%ld satellites reported, maximum %ld", rep.n_found, r.max)});
}
static str sname(const Single *s) { return s->rec.substr(0, 90); }
static void compare(const Scenario &, const Req &r, const Outcome &o, const Report &rep, const Expect &x, Viols &v) {
  if (o.crashed()) { crash_check(o, v); return; }
  if (rep.usage) { v.push_back({"model", "usage text instead of a report"}); return; }
  if (!rep.ok) { v.push_back({"json", "report malformed: " + rep.err}); return; }
  if ((rep.status == 0) != (o.code == 0)) { v.push_back({"exit", fmt("status %ld but exit code %d", rep.status, o.code)}); return; }
  if (!x.refused.empty()) { v.push_back({"refused", x.refused}); return; }
  bool may_fail = o.fired[FK_ALLOC] || o.fired[FK_EMFILE] || x.retry_ok;
  static const char *ends[] = {"complete", "found", "limit", "open failure", "read failure", "empty catalogue", "undecodable", "list open failure"};
  stats.ends[ends[x.end]]++;
  bool ok_end = x.end == Expect::OK || x.end == Expect::FOUND || x.end == Expect::LIMIT;
  if (r.vis) {
    if (may_fail && rep.status != 0) return;
    if (x.end == Expect::FOUND) {
      const Single *s = x.recs[0];
      if (s->error) return;
      if (rep.status != s->status) { v.push_back({"model", fmt("satellite present: status %ld where it alone gives %d (errmsg '%s')", rep.status, s->status, esc(rep.errmsg).c_str())}); return; }
      std::map<str, str> head;
      for (auto &kv : rep.j.o) {
        str raw = kv.second.raw;
        if (kv.first == "run_command" || kv.first == "satellites" || kv.first == "status" || kv.first == "errmsg") continue;
        if (kv.first == "input_params") { raw = ""; for (auto &m : kv.second.o) if (m.first != "tle_file" && m.first != "max_sats") raw += m.first + "=" + m.second.raw + ";"; }
        head[kv.first] += raw;
      }
      for (auto &kv : s->head) if (head[kv.first] != kv.second) { v.push_back({"model", "visibility report differs from that of the satellite alone in '" + kv.first + "': " + esc(head[kv.first]).substr(0, 120) + " instead of " + esc(kv.second).substr(0, 120)}); return; }
      for (auto &kv : head) if (!s->head.count(kv.first)) { v.push_back({"model", "visibility report has extra member " + kv.first}); return; }
      if (const Json *sat = rep.j.get("satellite")) {
        const Json *n = sat->get("norad_n"), *d = sat->get("intl_desig");
        if (r.by_n && (!n || (long)n->num != r.norad)) v.push_back({"wrong_satellite", fmt("asked for %ld", r.norad)});
        if (r.by_i && !r.by_n && (!d || !desig_match(d->s, r.intl))) v.push_back({"wrong_satellite", "asked for " + r.intl + ", got " + (d ? d->s : "?")});
      }
    } else {
      if (rep.status == 0) v.push_back({"silent", str("expected a failure (") + ends[x.end] + ") but status is 0"});
      if (rep.j.get("satellite") || rep.n_found) v.push_back({"wrong_satellite", "a satellite is reported although the one asked for was not met"});
      if (x.end == Expect::OK && rep.errmsg.find("not found") == str::npos) v.push_back({"model", "absent satellite not reported as not found: '" + esc(rep.errmsg) + "'"});
      if (x.end != Expect::OK && rep.errmsg.find("not found") != str::npos) v.push_back({"silent", "scan incomplete but the satellite is reported as not found"});
    }
    return;
  }
  if (rep.status == 0 && !ok_end) { v.push_back({"silent", str("status 0 although the scan met: ") + ends[x.end] + " of " + x.path}); return; }
  if (rep.status != 0 && ok_end && !may_fail) { v.push_back({"model", fmt("status %ld ('%s') where the scan should succeed", rep.status, esc(rep.errmsg).c_str())}); return; }
  size_t n = r.I ? rep.n_found : rep.sats.size();
  bool prefix_only = may_fail && rep.status != 0;
  if (!r.I) {
    std::vector<str> got;
    for (auto *s : rep.sats) got.push_back(s->raw);
    for (size_t i = 0; i < got.size() && i < x.recs.size(); i++)
      if (got[i] != x.recs[i]->rec) {
        v.push_back({"record", fmt("record %zu is ", i) + esc(got[i]).substr(0, 260) + " where the set alone gives " + esc(x.recs[i]->rec).substr(0, 260)}); return; }
    if (got.size() > x.recs.size()) { v.push_back({"extra", "unexpected record " + esc(got[x.recs.size()]).substr(0, 200)}); return; }
    bool fewer_ok = prefix_only || (x.last_optional && got.size() + 1 == x.recs.size());
    if (got.size() < x.recs.size() && !fewer_ok) { v.push_back({"missing", "missing record " + esc(sname(x.recs[got.size()]))}); return; }
  } else {
    bool fewer_ok = prefix_only || (x.last_optional && (long)n + 1 == x.n_found);
    if ((long)n > x.n_found || ((long)n < x.n_found && !fewer_ok)) { v.push_back({"counters", fmt("n_sats_found %zu, expected %ld", n, x.n_found)}); return; }
  }
  if (n <= x.recs.size()) {
    long sun = 0;
    for (size_t i = 0; i < n; i++) sun += x.recs[i]->sunlit;
    if (rep.n_sunlit != sun) v.push_back({"counters", fmt("n_sunlit_sats %ld, expected %ld", rep.n_sunlit, sun)});
  }
  if (r.single) {
    for (auto *s : rep.sats) {
      const Json *a = s->get("norad_n"), *d = s->get("intl_desig");
      if (r.by_n && (!a || (long)a->num != r.norad)) v.push_back({"wrong_satellite", fmt("asked for %ld", r.norad)});
      if (r.by_i && !r.by_n && (!d || !desig_match(d->s, r.intl))) v.push_back({"wrong_satellite", "asked for " + r.intl + ", got " + (d ? esc(d->s) : "?")});
    }
    if (x.end == Expect::OK && rep.status == 0 && rep.errmsg.find("not found") == str::npos) v.push_back({"model", "absent or filtered satellite not reported as not found"});
    if (x.end == Expect::FOUND && rep.status == 0 && !rep.errmsg.empty()) v.push_back({"model", "satellite found but errmsg '" + esc(rep.errmsg) + "'"});
  }
  // request header: same as for any single set
  if (!x.recs.empty() && rep.status == 0) {
    for (auto &kv : x.recs[0]->head) {
      if (kv.first == "data_fields" && r.I) continue;
      const Json *m = rep.j.get(kv.first);
      str raw = m ? m->raw : "";
      if (kv.first == "input_params" && m) { raw = ""; for (auto &q : m->o) if (q.first != "tle_file" && q.first != "max_sats") raw += q.first + "=" + q.second.raw + ";"; }
      if (raw != kv.second) { v.push_back({"header", "'" + kv.first + "' differs: " + esc(raw).substr(0, 150) + " instead of " + esc(kv.second).substr(0, 150)}); break; }
    }
  }
}
static void model_check(const Scenario &sc, const Outcome &o, const Report &rep, Viols &v) {
  Req r = parse_request(sc);
  if (o.crashed()) { crash_check(o, v); return; }
  if (!r.ok) { stats.probes["request_outside_model"]++; return; }
  if (r.usage) { if (!rep.usage) v.push_back({"model", "usage text expected"}); return; }
  if (r.vis && !r.single) { if (rep.ok && rep.status == 0) v.push_back({"model", "no satellite named but status 0"}); return; }
  Expect x;
  expect(sc, r, x);
  if (x.grey) { stats.probes["grey_skipped"]++; return; }
  if (x.retry_ok && rep.ok && (rep.status == 0 || (r.vis && x.end != Expect::FOUND && rep.errmsg.find("not found") != str::npos))) {
    // carried on after a transient fault: then the result has to be the one without that fault
    Scenario q = sc;
    for (auto &f : q.files) if (f.second.transient || f.second.fail_errno == EINTR) { f.second.open_errno = 0; f.second.fail_errno = 0; f.second.fail_at = -1; f.second.transient = false; }
    Expect y; expect(q, r, y);
    if (y.grey) { stats.probes["grey_skipped"]++; return; }
    stats.probes["retried_transient_fault"]++;
    compare(q, r, o, rep, y, v);
    return;
  }
  compare(sc, r, o, rep, x, v);
  if (o.forbidden) v.push_back({"effects", "the tool tried to change something: " + o.note});
}

// ---------------------------------------------------------------- visibility windows against themselves and against the sky map
static double jnum(const Json *j, const char *k) { const Json *m = j ? j->get(k) : nullptr; return m && m->t == Json::NUM ? m->num : NAN; }
static double date_mjd(const str &d) {
  int y, mo, da, h, mi, s, n = 0;
  if (sscanf(d.c_str(), "%4d-%2d-%2dT%2d:%2d:%2d%n", &y, &mo, &da, &h, &mi, &s, &n) != 6 || (size_t)n != d.size()) return NAN;
  long a = (14 - mo) / 12, yy = y + 4800 - a, m = mo + 12 * a - 3;
  long jdn = da + (153 * m + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045;
  return jdn - 2400001 + (h * 3600 + mi * 60 + s) / 86400.0;
}
static bool sky_map_at(const Scenario &sc, const Json *in, double mjd, Report &k, Viols &v) {
  Req r = parse_request(sc);
  Scenario q; q.prog = "sat_skymap"; q.prop = sc.prop; q.files = sc.files; q.clock = sc.clock;
  for (auto &f : q.files) { f.second.open_errno = f.second.fail_errno = 0; f.second.fail_at = f.second.swap_at = -1; f.second.transient = false; }
  q.argv.push_back((r.list ? "@" : "") + r.cat);
  q.argv.push_back("-D" + r.dir);
  q.argv.push_back("-j" + fmt("%.6f", mjd));
  q.argv.push_back("-l" + fmt("%.4f,%.4f,%.1f", jnum(in->get("location"), "lat"), jnum(in->get("location"), "lon"), jnum(in->get("location"), "alt")));
  if (r.by_n) q.argv.push_back(fmt("-s%ld", r.norad)); else q.argv.push_back("-i" + r.intl);
  Outcome p; simulate(q, p);
  parse_report(p, k);
  if (p.crashed() || !k.ok) { v.push_back({"json", "sky map of the same instant: " + (p.crashed() ? p.how() : k.err)}); return false; }
  return true;
}
static double datum(const Report &k, size_t i) { const Json *da = k.sats.size() == 1 ? k.sats[0]->get("data") : nullptr; return da && da->a.size() > i ? da->a[i].num : NAN; }
static bool same_sun(const Json *a, const Json *b) {
  double dr = std::fabs(jnum(a, "ra") - jnum(b, "ra")); if (dr > 180) dr = 360 - dr;
  return dr < 0.02 && std::fabs(jnum(a, "dec") - jnum(b, "dec")) < 0.02 && std::fabs(jnum(a, "alt") - jnum(b, "alt")) < 0.03;
}
// no window was reported: at no instant of the range is the satellite in sunlight within the radius
static void no_window_check(const Scenario &sc, const Report &rep, Viols &v) {
  const Json *in = rep.j.get("input_params"), *rng = in->get("mjd_range");
  double lo = rng->a[0].num, hi = rng->a[1].num, step = jnum(in, "delta_time_s"), radius = jnum(in->get("region"), "radius");
  stats.probes["no_window"]++;
  Req r = parse_request(sc);
  for (size_t i = 0; i < sc.argv.size(); i++) if (i != r.cat_at && (sc.argv[i] == "-N" || sc.argv[i].compare(0, 2, "-a") == 0)) return;
  { Report q; if (!sky_map_at(sc, in, lo, q, v)) return;
    const Json *a = rep.j.get("sun"), *b = q.j.get("sun");
    if (a && b && !same_sun(a, b)) { v.push_back({"sky_map", fmt("the Sun at the start of the range: RA %.3f Dec %.3f altitude %.3f, in the sky map of MJD %.5f %.3f %.3f %.3f", jnum(a, "ra"), jnum(a, "dec"), jnum(a, "alt"), lo, jnum(b, "ra"), jnum(b, "dec"), jnum(b, "alt"))}); return; } }
  double d = (step + 1) / 86400;
  if (!(step >= 1 && step <= 15 && hi - lo > 3 * d && hi - lo < 2)) return;
  for (int n = 1; n < 4; n++) {
    double u = lo + d + (hi - lo - 2 * d) * (n == 1 ? 0.02 : n == 2 ? 0.5 : 0.9);
    bool in_all = true; double s0 = NAN;
    for (int k = -1; k < 2 && in_all; k++) {
      Report q; if (!sky_map_at(sc, in, u + k * d, q, v)) return;
      double sep = datum(q, 5);
      in_all = q.status == 0 && q.sats.size() == 1 && datum(q, 8) == 1 && sep < radius - 0.3 && (k < 0 || std::fabs(sep - s0) < 5);
      s0 = sep;
    }
    if (in_all) { v.push_back({"missed", fmt("no window in %.5f - %.5f, but the sky map of MJD %.6f has the satellite in sunlight %.3f deg from the zenith (radius %.3f)", lo, hi, u, s0, radius)}); return; }
    stats.probes["no_window_confirmed"]++;
  }
}
static void window_check(const Scenario &sc, const Report &rep, Viols &v) {
  if (!rep.ok || rep.status != 0) return;
  const Json *sat = rep.j.get("satellite"), *in = rep.j.get("input_params");
  if (!in) { v.push_back({"window", "no input_params"}); return; }
  const Json *rng = in->get("mjd_range");
  if (!rng || rng->a.size() != 2) { v.push_back({"window", "no mjd_range"}); return; }
  if (rep.n_found < 1) { if (sat) v.push_back({"window", "n_sats_found 0 with a satellite"}); else no_window_check(sc, rep, v); return; }
  if (!sat) { v.push_back({"window", "n_sats_found without a satellite"}); return; }
  stats.probes["window"]++;
  double lo = rng->a[0].num, hi = rng->a[1].num, m[4], step = jnum(in, "delta_time_s"), radius = jnum(in->get("region"), "radius");
  static const char *nm[] = {"start", "mid", "max", "end"};
  for (int i = 0; i < 4; i++) {
    const Json *s = sat->get(str("sat_") + nm[i]), *g = sat->get(str("geoloc_") + nm[i]), *u = sat->get(str("sun_") + nm[i]);
    if (!s || !g || !u) { v.push_back({"window", str("data of the instant '") + nm[i] + "' missing"}); return; }
    m[i] = jnum(s, "MJD");
    const Json *d = s->get("Date");
    double dm = d ? date_mjd(d->s) : NAN;
    if (!(std::fabs(dm - m[i]) <= 2.0 / 86400)) { v.push_back({"date", fmt("%s: Date %s is not MJD %.5f", nm[i], d ? esc(d->s).c_str() : "?", m[i])}); return; }
    if (!(m[i] >= lo - 1.1e-5 && m[i] <= hi + 1.1e-5)) { v.push_back({"window", fmt("%s at MJD %.5f is outside the requested range %.5f - %.5f", nm[i], m[i], lo, hi)}); return; }
    double sep = jnum(s, "Separation"), alt = jnum(s, "alt");
    if (!(std::fabs(sep + alt - 90) < 0.02)) { v.push_back({"window", fmt("%s: separation %.4f from the zenith with altitude %.4f", nm[i], sep, alt)}); return; }
    if ((i == 0 || i == 2) && !(sep <= radius + 0.001)) { v.push_back({"window", fmt("%s: separation %.4f outside the radius %.4f", nm[i], sep, radius)}); return; }
  }
  if (!(m[0] <= m[2] + 1.1e-5 && m[2] <= m[3] + 1.1e-5 && m[0] <= m[3])) { v.push_back({"window", fmt("start %.5f, highest %.5f, end %.5f are out of order", m[0], m[2], m[3])}); return; }
  if (!(std::fabs(m[1] - (m[0] + m[3]) / 2) <= 1.1e-5)) { v.push_back({"window", fmt("middle %.5f of %.5f - %.5f", m[1], m[0], m[3])}); return; }
  double dur = jnum(&rep.j, "sunlit_duration_minutes");
  if (!(std::fabs(dur - (m[3] - m[0]) * 1440) <= 0.0251)) { v.push_back({"window", fmt("duration %.2f min of a window of %.2f min", dur, (m[3] - m[0]) * 1440)}); return; }
  if (!(jnum(sat->get("sat_max"), "alt") >= jnum(sat->get("sat_start"), "alt") - 0.001)) { v.push_back({"window", "the satellite is higher at the start than when it is highest"}); return; }
  (void)step;
  // the sky map of each instant, asked for after the storage has healed
  auto ask = [&](double mjd, Report &k) { return sky_map_at(sc, in, mjd, k, v); };
  auto ground = [](const Json *a, const Json *b) {
    double la = jnum(a, "lat") * M_PI / 180, lb = jnum(b, "lat") * M_PI / 180, dl = (jnum(a, "lon") - jnum(b, "lon")) * M_PI / 180;
    double c = std::sin(la) * std::sin(lb) + std::cos(la) * std::cos(lb) * std::cos(dl);
    return std::acos(std::max(-1.0, std::min(1.0, c))) * 180 / M_PI;
  };
  auto dist = [](const Json *rec) { const Json *da = rec->get("data"); return da && da->a.size() > 4 ? da->a[4].num : (double)NAN; };
  for (int i = 0; i < 4; i++) {
    Report k, e[2];
    if (!ask(m[i], k) || !ask(m[i] - 6e-6, e[0]) || !ask(m[i] + 6e-6, e[1])) return;
    if (k.status == 2 && k.errmsg.find("decode") != str::npos) { stats.probes["sky_map_undecodable"]++; continue; }
    if (k.status != 0 || k.sats.size() != 1) { v.push_back({"sky_map", fmt("%s: the sky map of MJD %.5f does not have the satellite (status %ld '%s')", nm[i], m[i], k.status, esc(k.errmsg).c_str())}); return; }
    for (const char *f : {"name", "intl_desig", "norad_n"}) {
      const Json *a = sat->get(f), *b = k.sats[0]->get(f);
      if (!a || !b || a->raw != b->raw) { v.push_back({"sky_map", fmt("%s differs: %s / %s", f, a ? esc(a->raw).c_str() : "?", b ? esc(b->raw).c_str() : "?")}); return; }
    }
    if (e[0].sats.size() != 1 || e[1].sats.size() != 1) { stats.probes["sky_map_undecodable"]++; continue; }
    // the MJD is printed with 5 decimals, which is up to 0.44 s: allow for the motion the sky maps half a second before and after show
    const Json *g1 = sat->get(str("geoloc_") + nm[i]), *g2 = k.sats[0]->get("geoloc");
    double ta = 0.02, tl = 0.3, td = 0.3;
    for (auto &q : e) {
      const Json *g3 = q.sats[0]->get("geoloc");
      ta = std::max(ta, 0.02 + 1.2 * ground(g2, g3)); tl = std::max(tl, 0.3 + 1.2 * std::fabs(jnum(g2, "alt") - jnum(g3, "alt"))); td = std::max(td, 0.3 + 1.2 * std::fabs(dist(k.sats[0]) - dist(q.sats[0])));
    }
    if (!(ta < 0.15 && tl < 12 && td < 12)) { stats.probes["unphysical_motion"]++; continue; }   // years away from the epoch of the elements
    double d1 = jnum(sat->get(str("sat_") + nm[i]), "Distance"), d2 = dist(k.sats[0]);
    if (!(ground(g1, g2) < ta)) { v.push_back({"sky_map", fmt("%s: ground points of the two tools at MJD %.5f are %.3f deg apart", nm[i], m[i], ground(g1, g2))}); return; }
    if (!(std::fabs(jnum(g1, "alt") - jnum(g2, "alt")) < tl)) { v.push_back({"sky_map", fmt("%s: altitude %.2f and %.2f km at MJD %.5f", nm[i], jnum(g1, "alt"), jnum(g2, "alt"), m[i])}); return; }
    if (!(std::fabs(d2 - d1) < td)) { v.push_back({"sky_map", fmt("%s: distance %.2f and %.2f km at MJD %.5f", nm[i], d1, d2, m[i])}); return; }
    if (i < 3 && m[3] - m[0] > std::max(1.5e-4, i == 1 ? 3 * step / 86400 : 0) && datum(k, 8) == 0) {          // the flag may change within seconds of the ends of the window
      Report f[2]; if (!ask(m[i] - 5e-5, f[0]) || !ask(m[i] + 5e-5, f[1])) return;
      if (datum(f[0], 8) == 0 && datum(f[1], 8) == 0) v.push_back({"sky_map", fmt("%s: the sky map of MJD %.5f has the satellite in the Earth's shadow", nm[i], m[i])});
      if (!v.empty()) return;
    }
    const Json *s1 = sat->get(str("sun_") + nm[i]), *s2 = k.j.get("sun");
    if (!same_sun(s1, s2)) { v.push_back({"sky_map", fmt("%s: the Sun at RA %.3f Dec %.3f altitude %.3f, in the sky map of the same instant %.3f %.3f %.3f", nm[i], jnum(s1, "ra"), jnum(s1, "dec"), jnum(s1, "alt"), jnum(s2, "ra"), jnum(s2, "dec"), jnum(s2, "alt"))}); return; }
    stats.probes["instant_compared"]++;
  }
}

static void behaviour(const Scenario &sc, const Outcome &o, const Report &rep) {
  uint64_t m = 0;
  for (int i = 0; i < FK_FILL; i++) if (o.fired[i]) m |= 1ull << i;
  str sig = fmt("%s|%llx|%d|%d|%ld|%ld|%zu|%ld", sc.prog.c_str(), (unsigned long long)m, o.sig, o.code, rep.status, std::min(rep.n_found, 6L), o.delivered.size(), std::min<long>(o.out.size() / 2000, 20));
  sig += rep.errmsg.substr(0, 24);
  for (auto &f : sc.files) if (f.second.fail_errno) sig += fmt("|%ld", f.second.data.empty() ? 0 : f.second.fail_at * 20 / (long)f.second.data.size());
  if (sc.prog == "mjdnow") { int b = 0; for (uint64_t c = sc.clock < 0 ? -sc.clock : sc.clock; c; c >>= 1) b++; sig += fmt("|%d|%d|%zu|%ld|%zu", b, sc.clock < 0, sc.jumps.size(), sc.out_mode, o.out.size()); for (auto &e : sc.env) sig += e.second; m |= o.clock_reads > 0; }
  stats.behaviours.insert(fnv(sig));
  bool nt = m || o.delivered.size() > 0;
  if (nt) stats.nontrivial++;
}

static str squash(const str &s) { return esc(s).substr(0, 160); }

Viols judge(const Scenario &sc, Outcome *first) {
  Viols v;
  Outcome o; simulate(sc, o);
  stats.scenarios++;
  Report rep; parse_report(o, rep);
  behaviour(sc, o, rep);
  if (first) *first = o;
  const str &P = sc.prop;
  if (P == "S01") { wellformed(sc, o, rep, v); }
  else if (P == "S02") { model_check(sc, o, rep, v); }
  else if (P == "S03") {
    Scenario q = sc;
    q.out_fail = -1; q.out_closed = 0; q.out_chunk = 0;
    Outcome h; simulate(q, h);
    if (o.crashed()) { crash_check(o, v); return v; }
    if (h.crashed()) return v;
    bool lost = o.out.size() < h.out.size();
    if (lost && o.code == 0) v.push_back({"lost_output", fmt("%zu of %zu bytes written, exit code 0", o.out.size(), h.out.size())});
    if (h.out.compare(0, o.out.size(), o.out) != 0) v.push_back({"output", "what was written is not a prefix of the complete output"});
    if (!o.fired[FK_OUT_ERR] && !o.fired[FK_OUT_CLOSED]) {
      if (o.out != h.out) v.push_back({"output", fmt("output lost without a device error (%zu of %zu bytes)", o.out.size(), h.out.size())});
      if (o.code != h.code) v.push_back({"exit", fmt("exit code %d with a healthy device, %d before", o.code, h.code)});
    }
  }
  else if (P == "S04") {
    if (o.crashed()) { crash_check(o, v); return v; }
    if (o.forbidden) v.push_back({"effects", "the tool tried to change something: " + o.note});
    Rng g(fnv(sc.save()));
    static const long fills[] = {0, 65, 255, 1, 0x20, 12345, 987654321, 0x22};
    for (int k = 0; k < 4 && v.empty(); k++) {
      Scenario q = sc;
      q.fill = fills[(g.below(4) * 2 + k) % 8]; if (q.fill > 255) q.fill += g.below(1000);
      if (k) {
        q.chunk_seed = g.chance(0.5) ? 1 + g.below(1000) : 0; q.chunk = g.chance(0.3) ? 1 : g.chance(0.5) ? 1 + g.below(200) : 0;
        q.align = g.below(16) * 16; q.clock = g.range(-1000000000, 4000000000L); q.jumps = {g.range(-100000, 100000), 86400};
        q.env = {{"TZ", g.chance(0.5) ? "Pacific/Auckland" : "America/New_York"}, {g.chance(0.7) ? "LC_ALL" : g.chance(0.5) ? "LANG" : "LC_NUMERIC", g.chance(0.6) ? "de_DE.UTF-8" : g.chance(0.5) ? "C.UTF-8" : "C"}, {"HOME", "/nowhere"}, {"PATH", "/bin"}, {"TLE_DIR", "/x"}, {"COLUMNS", "10"}};
        q.out_mode = g.below(3); q.out_chunk = g.chance(0.3) ? 1 + g.below(50) : 0; q.out_buf = 1 + g.below(9000);
        // other files beside the named ones, and an updater renaming a catalogue over the one being read
        Req r = parse_request(sc);
        q.files["unrelated.txt"].data = "NOISE\n"; q.files[norm_path(r.dir + "/zzz.tle")].data = pool[g.below(pool.size())].l1 + "\n";
        q.files["tle_search.cfg"].data = "x\n";
        if (!r.list || k == 2) for (auto &f : q.files) if (g.chance(0.5) && sc.files.count(f.first) && !f.second.fail_errno && f.second.swap_at < 0) {
          // only files that are opened once can be renamed over without changing what is read
          int opens = 0;
          for (auto &d : o.delivered) opens += d.path == f.first;
          if (opens == 1 && !f.second.data.empty()) { f.second.swap_at = g.below(f.second.data.size()); f.second.swap_kind = 1; f.second.data2 = "REPLACED\n" + pool[g.below(pool.size())].l1 + "\n"; }
        }
      }
      Outcome p; simulate(q, p);
      if (p.crashed()) { crash_check(p, v); break; }
      if (p.out != o.out) {
        size_t i = 0; while (i < p.out.size() && i < o.out.size() && p.out[i] == o.out[i]) i++;
        v.push_back({k ? "environment" : "residual_memory", fmt("two runs of the same request on the same bytes differ at byte %zu: '%s' / '%s'", i, squash(o.out.substr(i > 30 ? i - 30 : 0, 80)).c_str(), squash(p.out.substr(i > 30 ? i - 30 : 0, 80)).c_str())});
      } else if (p.code != o.code) v.push_back({"environment", fmt("exit codes differ: %d / %d", o.code, p.code)});
    }
  }
  else if (P == "S12") {
    model_check(sc, o, rep, v);
    if (v.empty() && !o.crashed() && parse_request(sc).ok && !parse_request(sc).usage) window_check(sc, rep, v);
  }
  else if (P == "S05" || P == "S06" || P == "S08") { model_check(sc, o, rep, v); }
  else if (P == "S07") {
    Req r = parse_request(sc);
    if (o.crashed()) { crash_check(o, v); return v; }
    if (!rep.ok) { if (!rep.usage) v.push_back({"json", "report malformed: " + rep.err}); return v; }
    counters(sc, r, rep, v);
    if (v.empty()) model_check(sc, o, rep, v);
    if (v.empty() && r.ok && !r.vis && !o.fired[FK_ALLOC]) {          // same request with -I toggled
      Scenario q = sc;
      if (r.I) q.argv.erase(std::find(q.argv.begin(), q.argv.end(), "-I"));
      else q.argv.insert(q.argv.begin() + (r.cat_first ? 1 : 0), "-I");
      Req r2 = parse_request(q);
      if (r2.ok && r2.I != r.I && r2.cat == r.cat) {
        Outcome p; simulate(q, p);
        Report rp; parse_report(p, rp);
        if (p.crashed() || !rp.ok) v.push_back({"json", "-I variant: " + (p.crashed() ? p.how() : rp.err)});
        else {
          counters(q, r2, rp, v);
          if (rp.n_found != rep.n_found || rp.n_sunlit != rep.n_sunlit || rp.n_sats != rep.n_sats)
            v.push_back({"counters", fmt("with and without -I: n_sats_found %ld/%ld, n_sunlit_sats %ld/%ld, n_sats %ld/%ld", rep.n_found, rp.n_found, rep.n_sunlit, rp.n_sunlit, rep.n_sats, rp.n_sats)});
        }
      }
    }
  }
  else if (P == "S09") {
    crash_check(o, v);
    if (o.forbidden) v.push_back({"effects", o.note});
    if (v.empty() && !sc.asan) {                       // values that were never written must not show
      Scenario q = sc; q.fill = sc.fill == 255 ? 66 : 255; 
      Outcome p; simulate(q, p);
      if (p.crashed()) crash_check(p, v);
      else if (p.out != o.out || p.code != o.code) {
        size_t i = 0; while (i < p.out.size() && i < o.out.size() && p.out[i] == o.out[i]) i++;
        v.push_back({"uninitialised", fmt("with other residual memory contents the report differs at byte %zu: '%s' / '%s'", i, squash(o.out.substr(i > 30 ? i - 30 : 0, 80)).c_str(), squash(p.out.substr(i > 30 ? i - 30 : 0, 80)).c_str())});
      }
    }
  }
  else if (P == "S10") {
    if (o.crashed()) { crash_check(o, v); return v; }
    Req r = parse_request(sc);
    if (sc.fd_limit >= (r.list ? 2 : 1) && o.fired[FK_EMFILE]) v.push_back({"open_files", fmt("runs out of %ld descriptors after %zu files", sc.fd_limit, (size_t)o.opens)});
    if (o.open_peak > (r.list ? 2 : 1)) v.push_back({"open_files", fmt("%ld files open at once (%zu opened)", (long)o.open_peak, (size_t)o.opens)});
    long distinct = atol(sc.meta.count("distinct") ? sc.meta.at("distinct").c_str() : "0");
    if (o.peak_bytes > 400000 + 400 * distinct) v.push_back({"memory_use", fmt("%ld bytes allocated for %ld distinct satellites", (long)o.peak_bytes, distinct)});
    if (v.empty() && r.ok && r.list && !r.usage) {     // the same list with every catalogue named once needs as much memory
      str lp = norm_path(r.dir + "/" + r.cat);
      auto it = sc.files.find(lp);
      if (it != sc.files.end() && !it->second.fail_errno && !it->second.open_errno && !o.fired[FK_ALLOC]) {
        Scenario q = sc; std::set<str> seen; str d;
        for (auto &l : split_lines(it->second.data)) if (seen.insert(l).second) d += l;
        q.files[lp].data = d;
        Outcome p; simulate(q, p);
        if (!p.crashed() && o.peak_bytes > p.peak_bytes + 4096) v.push_back({"memory_use", fmt("%ld bytes allocated at once, %ld when the list names every catalogue once", (long)o.peak_bytes, (long)p.peak_bytes)});
      }
    }
    if (v.empty()) model_check(sc, o, rep, v);
  }
  else if (P == "S11") {
    if (o.crashed()) { crash_check(o, v); return v; }
    if (o.fired[FK_CLOCK_FAIL]) {
      if (o.code == 0) v.push_back({"clock", "the clock could not be read but mjdnow printed '" + esc(o.out) + "' and succeeded"});
      return v;
    }
    if (o.code) v.push_back({"exit", fmt("exit code %d", o.code)});
    if (!o.clock_reads) { v.push_back({"clock", "the system clock was not read"}); return v; }
    const str &t = o.out;
    size_t i = 0;
    if (i < t.size() && t[i] == '-') i++;
    size_t d0 = i; while (i < t.size() && isdigit((unsigned char)t[i])) i++;
    bool shape = i > d0 && i < t.size() && t[i] == '.' && t.size() == i + 8 && t.back() == '\n';
    for (size_t k = i + 1; shape && k < i + 7; k++) shape = isdigit((unsigned char)t[k]);
    if (!shape) { v.push_back({"format", "output '" + esc(t) + "'"}); return v; }
    long double val = strtold(t.c_str(), nullptr), lo = 40587.0L + (long double)o.clock_min / 86400.0L - 0.51e-6L,
                hi = 40587.0L + ((long double)o.clock_max + o.clock_max_ns / 1e9L) / 86400.0L + 0.51e-6L;
    if (val < lo || val > hi) v.push_back({"value", fmt("printed %s for a clock between %ld and %ld", esc(t).c_str(), (long)o.clock_min, (long)o.clock_max)});
  }
  return v;
}

// ---------------------------------------------------------------- minimisation
#include <time.h>
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
Scenario minimise(const Scenario &sc0, const str &cls, double budget) {
  Scenario best = sc0;
  double end = now_s() + budget;
  auto bad = [&](const Scenario &s) {
    if (now_s() > end) return false;
    for (auto &x : judge(s)) if (x.cls == cls) return true;
    return false;
  };
  auto attempt = [&](Scenario s) { if (bad(s)) { best = s; return true; } return false; };
  for (int round = 0; round < 4; round++) {
    str before = best.save();
    Scenario def;
#define TRY(n) if (best.n != def.n) { Scenario s = best; s.n = def.n; attempt(s); }
    TRY(fill) TRY(chunk) TRY(chunk_seed) TRY(align) TRY(out_mode) TRY(out_buf) TRY(out_fail) TRY(out_chunk) TRY(out_closed) TRY(alloc_fail) TRY(alloc_fail_on) TRY(fd_limit) TRY(clock) TRY(clock_ns) TRY(clock_fail)
    if (!best.jumps.empty()) { Scenario s = best; s.jumps.clear(); attempt(s); }
    if (!best.env.empty()) { Scenario s = best; s.env.clear(); attempt(s); }
    strs keys; for (auto &f : best.files) keys.push_back(f.first);
    for (auto &k : keys) {
      { Scenario s = best; s.files.erase(k); if (attempt(s)) continue; }
      SimFile &f = best.files[k];
      if (f.open_errno) { Scenario s = best; s.files[k].open_errno = 0; attempt(s); }
      if (best.files[k].fail_errno) { Scenario s = best; s.files[k].fail_errno = 0; s.files[k].fail_at = -1; s.files[k].transient = false; attempt(s); }
      if (best.files[k].swap_at >= 0) { Scenario s = best; s.files[k].swap_at = -1; s.files[k].data2.clear(); attempt(s); }
      // fewer lines (delta debugging); keep a read fault at the same relative place
      for (size_t step = split_lines(best.files[k].data).size() / 2; step >= 1 && now_s() < end; step = step > 1 ? (step + 1) / 2 : 0) {
        size_t i = 0;
        while (i < split_lines(best.files[k].data).size() && now_s() < end) {
          strs ls = split_lines(best.files[k].data);
          Scenario s = best; SimFile &g = s.files[k];
          long cut = 0, at = 0;
          str d;
          for (size_t q = 0; q < ls.size(); q++) { if (q >= i && q < i + step) { if (at < g.fail_at) cut += ls[q].size(); } else d += ls[q]; at += ls[q].size(); }
          g.data = d;
          if (g.fail_errno && g.fail_at >= 0) g.fail_at = std::max(0L, g.fail_at - cut);
          if (g.swap_at > (long)d.size()) g.swap_at = d.size();
          if (!attempt(s)) i += step;
        }
        if (step == 1) break;
      }
    }
    for (size_t i = 0; i < best.argv.size();) {
      Scenario s = best; s.argv.erase(s.argv.begin() + i);
      if (!attempt(s)) i++;
    }
    for (size_t i = 0; i < best.argv.size(); i++)
      for (size_t n = best.argv[i].size() / 2; n >= 2; n /= 2) { if (best.argv[i].size() < n + 4) continue; Scenario s = best; s.argv[i].resize(s.argv[i].size() - n); attempt(s); }
    if (best.save() == before || now_s() > end) break;
  }
  return best;
}
