// Scenario generators: one seed decides the request, the file contents and every fault.
#include "sat.h"
#include <errno.h>
#include <ctype.h>
#include <algorithm>
#include <math.h>

namespace {
struct G {
  Rng r; Scenario sc; bool deep;
  std::set<str> used;                 // catalogue numbers given out
  std::vector<long> given;            // the same as numbers
  std::vector<Entry> placed;          // what the catalogues hold
  strs cats;                          // catalogue paths, list order
  bool vis = false, list = false;
  str dir, listname;
  G(uint64_t s, bool d) : r(s), deep(d) {}
};
str num(double v, int d) { return fmt("%.*f", d, v); }
str pad_norad(long n) {
  if (n < 100000) return fmt("%05ld", n);
  const char *al = "ABCDEFGHJKLMNPQRSTUVWXYZ";
  return fmt("%c%04ld", al[(n / 10000 - 10) % 24], n % 10000);
}
str fresh_norad(G &g) {
  for (int k = 0; ; k++) {
    long like = -1;
    if (k < 20 && !g.given.empty() && g.r.chance(0.15)) {       // easily taken for another one: same remainders, digits, ends
      long v = g.r.pick(g.given), sgn = g.r.chance(0.5) ? 1 : -1;
      switch (g.r.below(6)) {
        case 0: like = v + sgn * (g.r.chance(0.6) ? 65536 : 1L << (10 + g.r.below(9))); break;
        case 1: like = v + sgn * g.r.range(1, 9) * (g.r.chance(0.5) ? 10000 : 100000); break;
        case 2: like = v + sgn * g.r.pick(std::vector<long>{1, 10, 100, 1000, 4096, 8192, 9973, 10007, 16384, 32749, 65521, 65537}); break;
        case 3: { str d = fmt("%05ld", v); std::swap(d[g.r.below(5)], d[g.r.below(5)]); like = atol(d.c_str()); break; }
        case 4: like = v * 10 + g.r.below(10); break;
        case 5: like = v / 10; break;
      }
      if (like < 1 || like > 339999) like = -1;
    }
    long m = like > 0 ? like : 0;
    str n = m ? pad_norad(m) : pad_norad(m = g.r.chance(0.12) ? g.r.range(100000, 339999) : g.r.chance(0.2) ? g.r.range(1, 999) : g.r.range(1000, 99999));
    if (g.used.insert(n).second) { g.given.push_back(m); return n; }
  }
}
str random_name(G &g) {
  static const strs fixed = {"1KUNS-PF", "2MASS TEST", "ISS (ZARYA)", "OBJECT A", "BREEZE-M DEB (TANK)", "TBA - TO BE ASSIGNED", "0 VANGUARD 1", "X", "COSMOS 2251 DEB", "FLOCK 2E'-1",
    "SAT \"QUOTED\"", "BACK\\SLASH 7", "TAB\tNAME", "A NAME OF EXACTLY 23 CH", "A NAME OF EXACTLY 24 CHA", "A NAME LONGER THAN TWENTY-FOUR CHARACTERS", "21 OLD", "1,2 SAT", "25544", "STARLINK-1", "STARLINK-11", "STARLINK-111",
    "\xC3\xA9TOILE", "  LEADING BLANKS", "100% SAT %s %n", "}],", "2", "1", "#HASH"};
  if (g.r.chance(0.5)) return g.r.pick(fixed);
  str s; size_t n = 1 + g.r.below(24);
  while (s.size() < n) s += "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-() /."[g.r.below(42)];
  if (s[0] == ' ') s[0] = 'N';
  while (s.back() == ' ') s.pop_back();
  return s;
}
str random_desig(G &g) {
  static const strs piece = {"A  ", "B  ", "C  ", "P  ", "PN ", "PNA", "AB ", "ABC", "AA ", "ZZZ"};
  str year = g.r.chance(0.5) ? "98" : fmt("%02ld", (long)g.r.pick(std::vector<long>{57, 58, 99, 0, 1, 19, 20, 56}));
  return year + fmt("%03ld", g.r.chance(0.6) ? 67L : g.r.range(1, 6)) + g.r.pick(piece);
}
bool deep_space(const Entry &e) { return atof(e.l2.substr(52, 11).c_str()) < 6.4; }
Entry base_entry(G &g) {
  if (g.r.chance(0.06)) return hpool[g.r.below(hpool.size())];
  for (int k = 0; k < 6; k++) { const Entry &e = pool[g.r.below(pool.size())]; if (g.r.chance(0.8) || deep_space(e)) return e; }
  return pool[g.r.below(pool.size())];
}
Entry fresh_entry(G &g, double relab = 0.5) {
  Entry e = base_entry(g);
  str n = e.l1.substr(2, 5);
  bool re = g.r.chance(relab) || g.used.count(n);
  if (re) {
    n = fresh_norad(g);
    str d = g.r.chance(0.5) ? random_desig(g) : g.r.chance(0.1) ? str(8, ' ') : "";
    e.l1 = relabel(e.l1, 1, n, d); e.l2 = relabel(e.l2, 2, n);
    if (g.r.chance(0.6)) e.name = random_name(g);
    if (g.r.chance(0.15) && e.l1[62] != 'H') {           // odd but valid elements: high drag, nearly parabolic, zero mean motion
      switch (g.r.below(5)) {
        case 0: e.l1.replace(53, 8, " 99999+0"); break;
        case 1: e.l2.replace(26, 7, "9999999"); break;
        case 2: e.l2.replace(52, 11, " 0.00000000"); break;
        case 3: e.l2.replace(52, 11, "17.99999999"); break;
        default: e.l2.replace(52, 11, " 0.00900000"); break;
      }
      fix_sum(e.l1); fix_sum(e.l2);
    }
  } else g.used.insert(n);
  return e;
}
struct Shape { str eol = "\n"; double named = 1; double blank = 0; bool last_nl = true; };
Shape shape(G &g) {
  Shape s;
  if (g.r.chance(0.25)) s.eol = "\r\n";
  if (g.r.chance(0.3)) s.named = g.r.chance(0.5) ? 0 : 0.6;
  if (g.r.chance(0.15)) s.blank = 0.2;
  if (g.r.chance(0.12)) s.last_nl = false;
  return s;
}
str set_text(G &g, const Entry &e, const Shape &s) {
  str t;
  if (g.r.chance(s.blank)) t += s.eol;
  if (g.r.chance(s.named)) {
    str n = e.name;
    if (g.r.chance(0.3)) n.resize(std::max<size_t>(n.size(), 24), ' ');
    t += n + s.eol;
  }
  return t + e.l1 + s.eol + e.l2 + s.eol;
}
str catalogue(G &g, size_t n, double overlap = 0) {
  Shape s = shape(g);
  str t;
  for (size_t i = 0; i < n; i++) {
    Entry e = !g.placed.empty() && g.r.chance(overlap) ? g.r.pick(g.placed) : fresh_entry(g);
    if (g.r.chance(overlap * 0.3)) { e.name = random_name(g); }        // same number under another name
    g.placed.push_back(e);
    t += set_text(g, e, s);
    if (g.r.chance(overlap * 0.2)) t += set_text(g, e, s);
  }
  if (!s.last_nl && !t.empty()) t.resize(t.size() - s.eol.size());
  return t;
}
// ---------------------------------------------------------------- damage to stored bytes
void damage(G &g, str &d, int ops) {
  for (; ops > 0 && !d.empty(); ops--) {
    strs ls = split_lines(d);
    auto join = [&] { d.clear(); for (auto &l : ls) d += l; };
    size_t i = g.r.below(ls.size()), p = g.r.below(d.size());
    auto element_line = [&](char c) { for (int k = 0; k < 40; k++) { size_t q = g.r.below(ls.size()); if (ls[q].size() > 68 && ls[q][0] == c && ls[q][1] == ' ') return q; } return i; };
    switch (g.r.below(19)) {
      case 0: d[p] ^= 1 << g.r.below(8); break;
      case 1: d[p] = (char)g.r.below(256); break;
      case 2: d[p] = '0' + g.r.below(10); break;
      case 3: ls.erase(ls.begin() + i); join(); break;
      case 4: i = element_line('1'); ls.erase(ls.begin() + i); join(); break;
      case 5: i = element_line('2'); ls.erase(ls.begin() + i); join(); break;
      case 6: ls.insert(ls.begin() + g.r.below(ls.size() + 1), ls[i]); join(); break;
      case 7: if (ls.size() > 1) { size_t j = g.r.below(ls.size()); std::swap(ls[i], ls[j]); } join(); break;
      case 8: if (i + 1 < ls.size()) std::swap(ls[i], ls[i + 1]); join(); break;
      case 9: d.resize(p); break;                                                  // torn at the end
      case 10: d.erase(p, 1 + g.r.below(g.r.chance(0.5) ? 5 : 200)); break;        // lost range
      case 11: { size_t n = std::min(d.size() - p, (size_t)(1 + g.r.below(g.r.chance(0.5) ? 8 : 300))); for (size_t k = 0; k < n; k++) d[p + k] = 0; break; }
      case 12: { str &l = ls[i]; while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back(); join(); break; }
      case 13: { str x; size_t n = 1 + g.r.below(g.r.chance(0.7) ? 10 : 250); for (size_t k = 0; k < n; k++) x += (char)(g.r.chance(0.7) ? g.r.range(32, 126) : g.r.below(256)); d.insert(p, x); break; }
      case 14: { i = element_line(g.r.chance(0.5) ? '1' : '2'); str &l = ls[i]; if (l.size() > 68) l[68] = g.r.chance(0.8) ? '0' + (l[68] - '0' + 1 + g.r.below(9)) % 10 : l[68] + 10 * (1 + (int)g.r.below(6)) - (g.r.chance(0.3) ? 80 : 0); join(); break; }
      case 15: { i = element_line(g.r.chance(0.5) ? '1' : '2'); str &l = ls[i]; if (l.size() > 68) { size_t q = 2 + g.r.below(66); if (isdigit((unsigned char)l[q])) l[q] = '0' + (l[q] - '0' + 1 + g.r.below(9)) % 10; } join(); break; }
      case 16: {                                                                   // halves of two satellites come together
        size_t a = element_line('1'); size_t b = element_line('2');
        if (ls[b].size() > 68 && ls[b][0] == '2' && ls[a].size() > 68 && ls[a][0] == '1' && a + 1 < ls.size()) { ls.insert(ls.begin() + a + 1, ls[b]); if (g.r.chance(0.5) && a + 2 < ls.size()) ls.erase(ls.begin() + a + 2); }
        join(); break; }
      case 17: { size_t n = g.r.below(ls.size() - i) + 1; if (n > 7) n = 7; std::vector<str> blk(ls.begin() + i, ls.begin() + i + n); ls.erase(ls.begin() + i, ls.begin() + i + n); ls.insert(ls.begin() + g.r.below(ls.size() + 1), blk.begin(), blk.end()); join(); break; }
      case 18: ls.insert(ls.begin() + i, g.r.chance(0.5) ? str("\n") : random_name(g) + "\n"); join(); break;
    }
  }
}
// ---------------------------------------------------------------- requests
double epoch_mjd(G &g) {
  double x = g.r.real();
  if (x < 0.78) return g.r.uniform(58842, 58960);
  if (x < 0.88) return g.r.uniform(60676, 61040);
  if (x < 0.96) return g.r.uniform(58000, 60000);
  return g.r.uniform(45000, 75000);
}
void opt(G &g, strs &a, char c, const str &v) {
  if (g.r.chance(0.6) && !v.empty()) a.push_back(str("-") + c + v);
  else { a.push_back(str("-") + c); a.push_back(v); }
}
str iso(double mjd) {
  long day = floor(mjd); long s = (mjd - day) * 86400;
  long l = day + 2400001 + 68569, n = 4 * l / 146097; l -= (146097 * n + 3) / 4; long i = 4000 * (l + 1) / 1461001; l -= 1461 * i / 4 - 31;
  long k = 80 * l / 2447, d = l - 2447 * k / 80; l = k / 11; long m = k + 2 - 12 * l, y = 100 * (n - 49) + i + l;
  return fmt("%04ld-%02ld-%02ldT%02ld:%02ld:%02ld", y, m, d, s / 3600, s / 60 % 60, s % 60);
}
str site(G &g) {
  double lat = g.r.chance(0.05) ? (g.r.chance(0.5) ? 90 : -90) : g.r.uniform(-80, 80);
  return num(lat, 4) + "," + num(g.r.uniform(-180, 360), 4) + "," + num(g.r.uniform(0, 4000), 1);
}
struct Target { str first, second, name; };
Target pick_target(G &g) {           // a catalogue number and a designator, present or not
  if (!g.placed.empty() && g.r.chance(0.8)) {
    const Entry &e = g.r.pick(g.placed);
    str n = e.l1.substr(2, 5); long v = 0;
    if (isupper((unsigned char)n[0])) { const char *al = "ABCDEFGHJKLMNPQRSTUVWXYZ"; v = (strchr(al, n[0]) - al + 10) * 10000L + atol(n.c_str() + 1); } else v = atol(n.c_str());
    str d = e.l1.substr(9, 8); str de = d[0] == ' ' ? "2001-001ZZZ" : (atoi(d.c_str()) > 57000 ? "19" : "20") + d.substr(0, 2) + "-" + d.substr(2);
    while (!de.empty() && de.back() == ' ') de.pop_back();
    if (g.r.chance(0.1)) {
      if (de.size() > 9 && g.r.chance(0.5)) de.pop_back(); else if (de.size() < 11) de += 'A' + g.r.below(3);
      if (g.r.chance(0.5)) v = g.r.chance(0.5) ? v / 10 : v * 10 + 1;
    }
    return {g.r.chance(0.15) ? fmt(g.r.pick(std::vector<const char *>{"%05ld", "%06ld", "%08ld", "+%ld", " %ld"}), v) : fmt("%ld", v), de, e.name.substr(0, 22)};
  }
  return {fmt("%ld", g.r.range(1, 99999)), "2001-00" + fmt("%ld", g.r.range(1, 9)) + (g.r.chance(0.5) ? "A" : "AB"), ""};
}
struct Want { double single = 0.15, byname = 0.1, filters = 0.3, info = 0.12, limit = 0.3; bool wide = false; };
void request(G &g, const Want &w, const str &cat, double vis_p = 0.15) {
  g.vis = g.r.chance(vis_p);
  g.sc.prog = g.vis ? "sat_visibility" : "sat_skymap";
  strs a;
  std::vector<strs> groups;
  auto add = [&](char c, const str &v) { strs t; opt(g, t, c, v); groups.push_back(t); };
  auto sw = [&](char c) { groups.push_back({str("-") + c}); };
  add('l', site(g));
  double m = epoch_mjd(g);
  bool far = g.vis && std::any_of(g.placed.begin(), g.placed.end(), [](const Entry &e) { return e.l1.size() > 62 && e.l1[62] == 'H'; });
  if (far) m = g.r.uniform(60400, 60800);           // state vectors are integrated from their epoch at every step: keep that short, it is no hang
  if (g.vis) {
    double m2 = m + g.r.uniform(0.005, 0.08);
    if (g.r.chance(0.03)) ; else if (g.r.chance(0.5)) add('j', num(m, 5) + "," + num(m2, 5)); else add('d', iso(m) + "," + iso(m2));
    add('t', fmt("%ld", g.r.range(far ? 15 : 5, 60)));
    if (g.r.chance(0.3)) add('r', num(g.r.uniform(10, 180), 1));
    if (g.r.chance(0.2)) sw('N');
    auto t = pick_target(g);
    bool n = g.r.chance(0.55);
    bool both = g.r.chance(0.08);
    if (n || both) add('s', t.first);
    if (!n || both) add('i', t.second);
    if (g.r.chance(w.filters * 0.5)) add('a', num(g.r.uniform(0, 800), 0) + "," + num(g.r.uniform(300, 50000), 0));
  } else {
    if (g.r.chance(0.05)) ; else if (g.r.chance(0.8)) add('j', num(m, 5)); else add('d', iso(m));
    bool single = g.r.chance(w.single);
    if (g.r.chance(0.75)) add('p', num(g.r.uniform(0, 360), 3) + "," + num(g.r.uniform(-90, 90), 3));
    if (w.wide) add('r', "400"); else if (g.r.chance(0.9)) add('r', num(g.r.chance(0.6) ? g.r.uniform(90, 400) : g.r.uniform(5, 90), 1));
    if (g.r.chance(0.4)) sw('H');
    if (g.r.chance(0.25)) sw('G');
    if (g.r.chance(0.12)) sw('E');
    if (g.r.chance(w.info)) sw('I');
    if (g.r.chance(w.filters * 0.7)) sw('V');
    if (g.r.chance(0.3)) add('t', fmt("%ld", g.r.range(1, 90)));
    if (g.r.chance(w.filters * 0.6)) { double lo = g.r.uniform(0, 1500); add('a', num(lo, 0) + "," + num(lo + g.r.uniform(50, 40000), 0)); }
    if (g.r.chance(w.limit)) add('n', fmt("%ld", g.r.chance(0.85) ? g.r.range(1, 6) : g.r.pick(std::vector<long>{0, -1, 1000, 100000})));
    if (single) { auto t = pick_target(g); bool n = g.r.chance(0.55), both = g.r.chance(0.08); if (n || both) add('s', t.first); if (!n || both) add('i', t.second);
      if (g.r.chance(0.1) && t.name.size() > 1 && t.name[0] != '-' && t.name.find('\0') == str::npos) add('S', t.name.substr(0, 1 + g.r.below(t.name.size()))); }
    else if (g.r.chance(w.byname) && !g.placed.empty()) {
      str n = g.r.pick(g.placed).name.substr(0, 22);
      n = n.substr(0, 1 + g.r.below(g.r.chance(0.3) ? std::min<size_t>(n.size(), 3) : n.size()));
      if (g.r.chance(0.12) && !n.empty()) { size_t p = g.r.below(n.size()); if (isalpha((unsigned char)n[p])) n[p] ^= 32; }        // the other case is another name
      if (!n.empty() && n[0] != '-' && n.find('\0') == str::npos) add('S', n);
    }
  }
  if (!g.dir.empty()) { if (g.dir == "/usr/local/TLErepo") sw('T'); else add('D', g.dir); }
  for (size_t i = groups.size(); i > 1; i--) std::swap(groups[i - 1], groups[g.r.below(i)]);
  for (auto &t : groups) for (auto &x : t) a.push_back(x);
  str c = g.list ? "@" + cat : cat;
  if (g.r.chance(0.75)) a.insert(a.begin(), c); else a.push_back(c);
  g.sc.argv = a;
}
void pick_dir(G &g) {
  double x = g.r.real();
  g.dir = x < 0.7 ? "" : x < 0.8 ? "repo" : x < 0.9 ? "/data/tle" : x < 0.95 ? "/usr/local/TLErepo" : "a/b/../c";
}
str in_dir(G &g, const str &n) { return norm_path((g.dir.empty() ? str(".") : g.dir) + "/" + n); }
str cat_name(G &g, int i) {
  static const strs n = {"active.txt", "stations.txt", "starlink.txt", "gps-ops.txt", "special.txt", "1982-092.txt", "x", "sub/geo.txt", "long-name-of-a-catalogue-file-0123456789.txt"};
  str s = g.r.chance(0.6) ? g.r.pick(n) : fmt("cat%d.tle", i);
  if (g.sc.files.count(in_dir(g, s))) s = fmt("cat%d.tle", i);
  return s;
}
// files plus list; returns the name for the command line
str world(G &g, int ncat, int nsat, double overlap, bool force_list = false) {
  pick_dir(g);
  g.list = force_list || ncat > 1 || g.r.chance(0.2);
  strs names;
  for (int i = 0; i < ncat; i++) {
    str n = cat_name(g, i);
    if (!g.list && n.find('/') != str::npos) n = "plain.txt";
    g.sc.files[in_dir(g, n)].data = catalogue(g, nsat > 0 ? 1 + g.r.below(nsat) : 0, overlap);
    names.push_back(n);
  }
  g.cats = names;
  if (!g.list) return names[0];
  g.listname = g.r.chance(0.7) ? "all.lis" : "ALL_merged.lis";
  str eol = g.r.chance(0.3) ? "\r\n" : "\n", t;
  bool nl = !g.r.chance(0.15);
  for (size_t i = 0; i < names.size(); i++) {
    if (g.r.chance(0.15)) t += "# comment" + eol;
    if (g.r.chance(0.12)) t += eol;
    t += names[i];
    if (i + 1 < names.size() || nl) t += eol;
    if (g.r.chance(0.06)) { if (i + 1 == names.size() && !nl) t += eol; t += names[g.r.below(i + 1)] + eol; }
  }
  if (g.r.chance(0.1)) t += "#";
  g.sc.files[in_dir(g, g.listname)].data = t;
  return g.listname;
}
void read_conditions(G &g) {
  if (g.r.chance(0.4)) g.sc.chunk_seed = 1 + g.r.below(100000);
  if (g.r.chance(0.3)) g.sc.chunk = g.r.chance(0.3) ? 1 : 1 + g.r.below(300);
  if (g.r.chance(0.6)) g.sc.fill = g.r.chance(0.5) ? g.r.pick(std::vector<long>{65, 255, 1, 32, 34, 92, 10}) : 256 + g.r.below(100000);
  g.sc.align = g.r.below(16) * 16;
  if (g.r.chance(0.3)) { g.sc.out_mode = g.r.below(3); g.sc.out_buf = 1 + g.r.below(6000); if (g.r.chance(0.3)) g.sc.out_chunk = 1 + g.r.below(500); }
}
str any_file(G &g) { auto it = g.sc.files.begin(); std::advance(it, g.r.below(g.sc.files.size())); return it->first; }
void io_fault(G &g) {
  str k = any_file(g);
  SimFile &f = g.sc.files[k];
  double x = g.r.real();
  if (x < 0.2) { f.open_errno = g.r.pick(std::vector<int>{EACCES, EMFILE, EIO, ENOENT, ENFILE, EISDIR, ELOOP}); f.transient = g.r.chance(0.15); }
  else if (x < 0.3) { if (g.sc.files.size() > 1) g.sc.files.erase(k); else f.open_errno = ENOENT; }
  else {
    f.fail_at = g.r.chance(0.12) ? 0 : g.r.chance(0.2) ? (long)f.data.size() : (long)g.r.below(f.data.size() + 1);
    if (g.r.chance(0.3)) { strs ls = split_lines(f.data); long at = 0; size_t n = g.r.below(ls.size() + 1); for (size_t i = 0; i < n; i++) at += ls[i].size(); f.fail_at = at; }   // exactly between two lines
    bool intr = g.r.chance(0.25);
    f.fail_errno = intr ? EINTR : g.r.pick(std::vector<int>{EIO, EIO, EIO, ESTALE, EISDIR, ENOMEM});
    f.transient = intr || g.r.chance(0.15);
  }
}
strs weird(G &g) {
  static const strs w = {"", "-", "--", "-l", "-r", "-j", "-d", "-p", "-n", "-t", "-s", "-i", "-S", "-a", "-D", "-h", "-x", "-HV", "-IV", "-V2", "-Hx", "-l91,0,0", "-l-91,0,0", "-l", "-lx", "-l1", "-l1,2", "-lnan,0,0", "-l10,inf,0", "-l10,20,1e300",
    "-jnan", "-jinf", "-j-1e9", "-j1e12", "-j58900", "-j", "58900.5", "-j58900,58900.01", "-j58900.02,58900", "-t0", "-t-5", "-t0.5", "-t1e10", "-t99999999", "-tnan", "-r0", "-r-1", "-rnan", "-r1e400", "-p400,0", "-p0,100", "-pnan,nan", "-p", "-p1",
    "-n0", "-n-1", "-n99999999999", "-nx", "-s0", "-s-1", "-s25544", "-s99999999999999999999", "-sA0001", "-i", "-i1998-067A", "-i1998", "-i1998-067ABCDEFGHIJKLMNOP", "-SA", "-S\"", "-SAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "-a", "-a1", "-a5,1", "-anan,nan", "-a0,1e9",
    "-d2020-01-13", "-d2020-01-13T12:00:00", "-d2020-01-13T12:00:00.123456789012345678", "-d99999999-99-99T99:99:99", "-dx", "-d2020-01-13T12:00:00,2020-01-13T12:30:00", "-d-,-", "-D/nonexistent", "-Drepo", "-D.", "-D/", "-T", "-N", "-G", "-E", "-H", "-I", "-V",
    "@", "@@", "@missing.lis", "missing.tle", "a b", "quo\"te", "back\\slash", "new\nline", "tab\t", "%s%s%n", "\xff\xfe", "../x", "/", "/dev/null", ".", "-l45,10,100", "-l45,10,100", "-l45,10,100", "-l45,10,100", "-l", "45,10,100"};
  strs a; size_t n = g.r.below(9);
  for (size_t i = 0; i < n; i++) {
    str x = g.r.pick(w);
    if (g.r.chance(0.05)) { str big(1 + g.r.below(g.r.chance(0.8) ? 300 : 5000), (char)g.r.range(33, 126)); x = g.r.chance(0.5) ? x + big : big; }
    if (g.r.chance(0.05) && !x.empty()) x[g.r.below(x.size())] = (char)(1 + g.r.below(255));
    a.push_back(x);
  }
  return a;
}
void fuzz_argv(G &g, const str &cat) {
  g.vis = g.r.chance(0.35);
  double x = g.r.real();
  if (x < 0.45) {                        // a good request with something odd in it
    request(g, Want(), cat, g.vis ? 1 : 0);
    strs w = weird(g);
    for (auto &q : w) if (g.r.chance(0.4)) g.sc.argv.insert(g.sc.argv.begin() + g.r.below(g.sc.argv.size() + 1), q);
    if (g.r.chance(0.3)) g.sc.argv.erase(g.sc.argv.begin() + g.r.below(g.sc.argv.size()));
    if (g.r.chance(0.2) && !g.sc.argv.empty()) { str &s = g.sc.argv[g.r.below(g.sc.argv.size())]; if (!s.empty()) s[g.r.below(s.size())] = (char)(1 + g.r.below(126)); }
  } else {
    g.sc.prog = g.vis ? "sat_visibility" : "sat_skymap";
    g.sc.argv = weird(g);
    if (g.r.chance(0.7)) g.sc.argv.insert(g.sc.argv.begin() + (g.r.chance(0.8) ? 0 : g.r.below(g.sc.argv.size() + 1)), (g.list ? "@" : "") + cat);
    if (g.r.chance(0.7)) g.sc.argv.push_back("-l45,10,100");
    if (g.vis && g.r.chance(0.7)) { g.sc.argv.push_back("-s25544"); g.sc.argv.push_back("-j58900,58900.01"); }
  }
  if (x > 0.97) g.sc.argv.clear();
}
void garbage_file(G &g, str &d) {
  double x = g.r.real();
  if (x < 0.1) d = "";
  else if (x < 0.25) { d.clear(); size_t n = g.r.below(3000); for (size_t i = 0; i < n; i++) d += (char)g.r.below(256); }
  else if (x < 0.35) { d.clear(); size_t n = g.r.below(400); for (size_t i = 0; i < n; i++) d += g.r.chance(0.5) ? "\n" : g.r.chance(0.5) ? "1 " : "2 "; }
  else if (x < 0.5) {                    // element lines with random columns and right checksums
    strs ls = split_lines(d); d.clear();
    for (auto &l : ls) {
      if (l.size() > 69 && (l[0] == '1' || l[0] == '2')) {
        str e = l.substr(0, 69);
        int k = 1 + g.r.below(12);
        while (k--) { size_t p = g.r.chance(0.3) ? 62 : 2 + g.r.below(66); e[p] = g.r.chance(0.2) ? " -+.H9Z"[g.r.below(7)] : (char)g.r.range(32, 122); }
        if (g.r.chance(0.15)) { size_t p = 2 + g.r.below(60), n = 1 + g.r.below(40); for (size_t q = p; q < 68 && q < p + n; q++) e[q] = g.r.chance(0.5) ? '9' : g.r.chance(0.5) ? '-' : 'z'; }
        fix_sum(e); d += e + "\n";
      } else d += l;
    }
  } else if (x < 0.6) { str big(100 + g.r.below(5000), 'A' + g.r.below(26)); d.insert(g.r.below(d.size() + 1), big); }
  else damage(g, d, 1 + g.r.below(6));
}
// a satellite whose orbit decays (cannot be computed any more) in the middle of the requested window
bool decaying_window(G &g) {
  Entry e = base_entry(g);
  for (int k = 0; k < 20 && (deep_space(e) || e.l1[62] == 'H'); k++) e = g.r.pick(pool);
  if (deep_space(e) || e.l1[62] == 'H') return false;
  e.l1.replace(53, 8, fmt(" %05ld%+ld", g.r.range(10000, 99999), g.r.range(-3, 0)).substr(0, 8)); fix_sum(e.l1);
  long n = atol(e.l1.substr(2, 5).c_str());
  if (n <= 0) return false;
  int y = atoi(e.l1.substr(18, 2).c_str());
  double epoch, day = atof(e.l1.substr(20, 12).c_str());
  { long yy = y < 57 ? 2000 + y : 1900 + y, a = yy - 1; epoch = 365 * a + a / 4 - a / 100 + a / 400 - 678576 + day; }   // MJD of day number 'day'
  str at = site(g);
  auto fails = [&](double m) {
    Scenario q; q.prog = "sat_visibility"; q.clock = g.sc.clock;
    q.files["d.tle"].data = e.l1 + "\n" + e.l2 + "\n";
    q.argv = {"d.tle", "-l" + at, "-j" + num(m, 6) + "," + num(m + 1e-6, 6), "-s" + fmt("%ld", n), "-r180"};
    Outcome o; simulate(q, o);
    return o.out.find("decode") != str::npos;
  };
  double lo = epoch, hi = epoch + 0.05;
  if (fails(lo)) return false;
  for (int k = 0; !fails(hi); k++) { if (k > 12) return false; lo = hi; hi = epoch + (hi - epoch) * 2; }
  while (hi - lo > 1e-4) { double m = (lo + hi) / 2; if (fails(m)) hi = m; else lo = m; }
  Scenario &sc = g.sc;
  sc.files.clear(); g.vis = true; g.list = false; g.dir = ""; sc.prog = "sat_visibility";
  str d = g.r.chance(0.5) ? catalogue(g, 2) : "";
  if (!d.empty() && d.back() != '\n') d += "\n";
  sc.files[in_dir(g, "d.tle")].data = d + e.l1 + "\n" + e.l2 + "\n";
  sc.argv = {"d.tle", "-l" + at, "-j" + num(lo - g.r.uniform(0, g.r.chance(0.5) ? 0.02 : 0.0006), 6) + "," + num(hi + g.r.uniform(0.0001, 0.01), 6), "-s" + fmt("%ld", n), "-r180", "-t" + fmt("%ld", g.r.chance(0.5) ? g.r.range(1, 5) : g.r.range(5, 40))};
  return true;
}
long pick_alloc(G &g) { return 1 + g.r.below(g.r.chance(0.7) ? 4 : 40); }
}  // namespace

Scenario generate(const str &prop, uint64_t seed, bool thorough) {
  G g(seed, thorough);
  Rng &r = g.r;
  Scenario &sc = g.sc;
  sc.prop = prop;
  sc.clock = r.range(1500000000, 1900000000);
  auto done = [&](const char *profile) { sc.profile = profile; return sc; };
  if (prop == "S01") {
    str c = world(g, 1 + r.below(4), 6, 0.15);
    read_conditions(g);
    double x = r.real();
    if (r.chance(0.04) && decaying_window(g)) return done("orbit decaying within the window");
    if (x < 0.5) { request(g, Want(), c, 0.25); if (r.chance(0.75)) io_fault(g); if (r.chance(0.2)) io_fault(g); if (r.chance(0.25)) { sc.alloc_fail = pick_alloc(g); sc.alloc_fail_on = r.below(2); } return done("valid requests, storage and memory faults"); }
    if (x < 0.75) { fuzz_argv(g, c); if (r.chance(0.25)) io_fault(g); return done("arbitrary command lines"); }
    request(g, Want(), c, 0.25);
    for (auto &f : sc.files) if (r.chance(0.6)) garbage_file(g, f.second.data);
    if (r.chance(0.25)) io_fault(g);
    return done("arbitrary file contents");
  }
  if (prop == "S02") {
    str c = world(g, 1 + r.below(5), 6, 0.1);
    Want w; w.wide = r.chance(0.7);
    request(g, w, c, 0.25);
    read_conditions(g);
    if (r.chance(0.93)) io_fault(g);
    if (r.chance(0.1)) io_fault(g);
    if (r.chance(0.06)) sc.fd_limit = 1;
    return done("one storage fault in a scan");
  }
  if (prop == "S03") {
    double x = r.real();
    if (x < 0.12) { sc.prog = "mjdnow"; }
    else {
      str c = world(g, 1 + r.below(3), 8, 0.1);
      if (r.chance(0.85)) { Want w; w.wide = true; request(g, w, c, 0.2); }
      else fuzz_argv(g, c);
      if (r.chance(0.12)) io_fault(g);
    }
    sc.out_mode = r.below(3); sc.out_buf = r.chance(0.5) ? 4096 : 1 + r.below(9000);
    Scenario q = sc; Outcome h; simulate(q, h);
    long n = h.out.size();
    double y = r.real();
    if (y < 0.1) sc.out_closed = 1;
    else if (y < 0.2) sc.out_chunk = 1 + r.below(300);
    else {
      long p = (long)r.below(n + 1);
      if (r.chance(0.15)) p = n - 1; else if (r.chance(0.1)) p = 0; else if (r.chance(0.15)) p = std::min(n, 4096L * (1 + (long)r.below(3)));
      sc.out_fail = std::max(0L, p);
      sc.out_errno = r.pick(std::vector<int>{ENOSPC, EIO, EPIPE, EDQUOT, EFBIG, EAGAIN});
      if (r.chance(0.3)) sc.out_chunk = 1 + r.below(900);
    }
    return done("output device faults");
  }
  if (prop == "S04") {
    str c = world(g, 1 + r.below(4), 7, 0.2);
    double x = r.real();
    if (x < 0.65) request(g, Want(), c, 0.25); else fuzz_argv(g, c);
    if (r.chance(0.25)) for (auto &f : sc.files) if (r.chance(0.5)) garbage_file(g, f.second.data);
    if (r.chance(0.1)) io_fault(g);
    for (auto &f : sc.files) f.second.transient = false;
    return done("one request in several worlds");
  }
  if (prop == "S05") {
    str c = world(g, r.chance(0.7) ? 1 : 2, 7, 0.1);
    Want w; w.wide = true; w.single = 0.08; w.filters = 0.08; w.limit = 0.05; w.info = 0.03;
    request(g, w, c, 0.12);
    read_conditions(g);
    for (auto &f : sc.files) if (f.first != in_dir(g, g.listname) && r.chance(0.85)) {
      damage(g, f.second.data, 1 + r.below(r.chance(0.7) ? 3 : 8));
      if (r.chance(0.1)) garbage_file(g, f.second.data);
    }
    if (r.chance(0.12)) { SimFile &f = sc.files[any_file(g)]; if (f.data.size()) { f.swap_at = r.below(f.data.size()); f.swap_kind = 2; f.data2 = f.data; damage(g, f.data2, 2); if (r.chance(0.3)) f.data2 = catalogue(g, 4); } }
    return done("damaged catalogues");
  }
  if (prop == "S06") {
    double x = r.real();
    if (x < 0.06 || (thorough && x < 0.10)) {                 // tens of thousands of satellites
      static const std::vector<long> sizes = {11600, 11666, 11667, 11668, 11700, 12500, 13333, 13334, 13400, 15001, 20000};
      long n = r.chance(0.7) ? r.pick(sizes) : r.range(11000, 16000);
      if (thorough && r.chance(0.15)) n = r.range(20000, 40000);
      pick_dir(g); g.list = r.chance(0.6);
      int nc = g.list ? 1 + r.below(3) : 1;
      std::vector<Entry> base; for (int i = 0; i < 3; i++) base.push_back(pool[r.below(pool.size())]);
      long first = r.range(1, 40000), step = 1 + r.below(3); if (first + n * step > 339000) { first = 1; step = 1; }
      long at = 0; str lis;
      for (int k = 0; k < nc; k++) {
        str d; long upto = k + 1 == nc ? n : n * (k + 1) / nc;
        auto put = [&](long i) { const Entry &e = base[i % 3]; str nn = pad_norad(first + i * step); if (r.chance(0.02)) d += "S" + nn + "\n"; d += relabel(e.l1, 1, nn) + "\n" + relabel(e.l2, 2, nn) + "\n"; };
        for (; at < upto; at++) { put(at); if (r.chance(0.01)) put(r.below(at + 1)); }
        str nm = fmt("big%d.txt", k);
        sc.files[in_dir(g, nm)].data = d; lis += nm + "\n";
      }
      if (g.list) sc.files[in_dir(g, "all.lis")].data = lis;
      sc.meta["synthetic"] = "1";
      strs a = {g.list ? "@all.lis" : "big0.txt", "-l45,10,100", "-j58900.3", "-r400", "-n" + fmt("%ld", r.chance(0.8) ? 1000000L : r.range(1, n))};
      if (r.chance(0.5)) a.push_back("-I");
      if (!g.dir.empty()) a.push_back(g.dir == "/usr/local/TLErepo" ? "-T" : "-D" + g.dir);
      sc.argv = a; sc.prog = "sat_skymap";
      sc.fill = r.chance(0.5) ? 65 : 0;
      if (r.chance(0.35)) { sc.alloc_fail = 1 + r.below(4); sc.alloc_fail_on = r.below(2); }
      return done("very many satellites");
    }
    str c = world(g, 1 + r.below(6), 8, r.chance(0.8) ? 0.45 : 0, true);
    Want w; w.wide = r.chance(0.8); w.single = 0.1;
    request(g, w, c, 0.08);
    read_conditions(g);
    if (r.chance(0.15)) { sc.alloc_fail = pick_alloc(g); sc.alloc_fail_on = r.below(2); }
    if (r.chance(0.1)) io_fault(g);
    return done("merged lists");
  }
  if (prop == "S07") {
    str c = world(g, 1 + r.below(4), 8, 0.2);
    Want w; w.wide = r.chance(0.6); w.limit = 0.6; w.filters = 0.6; w.info = 0.25; w.single = 0.12;
    request(g, w, c, 0);
    read_conditions(g);
    if (r.chance(0.4)) io_fault(g);
    if (r.chance(0.1)) { sc.alloc_fail = pick_alloc(g); }
    if (r.chance(0.1)) for (auto &f : sc.files) if (r.chance(0.3) && f.first != in_dir(g, g.listname)) damage(g, f.second.data, 2);
    return done("limits and switches");
  }
  if (prop == "S08") {
    str c = world(g, 1 + r.below(4), 7, 0.3);
    Want w; w.single = 0.85; w.byname = 0.9; w.filters = 0.7; w.limit = 0.15;
    request(g, w, c, 0.35);
    read_conditions(g);
    if (r.chance(0.15)) io_fault(g);
    return done("requests for one satellite");
  }
  if (prop == "S09") {
    str c = world(g, 1 + r.below(3), 5, 0.2);
    if (r.chance(0.55)) fuzz_argv(g, c); else request(g, Want(), c, 0.3);
    read_conditions(g);
    for (auto &f : sc.files) if (r.chance(0.6)) garbage_file(g, f.second.data);
    if (g.list && r.chance(0.2)) { SimFile &f = sc.files[in_dir(g, g.listname)]; str big(1 + r.below(400), 'x'); f.data.insert(r.below(f.data.size() + 1), big); }
    if (r.chance(0.2)) io_fault(g);
    if (r.chance(0.2)) { sc.alloc_fail = pick_alloc(g); sc.alloc_fail_on = r.below(2); }
    if (r.chance(0.012)) {
      str d; long n = r.pick(std::vector<long>{11666, 11667, 11700, 13334, 13400});
      Entry e = pool[r.below(pool.size())];
      for (long i = 1; i <= n; i++) { str nn = pad_norad(i); d += relabel(e.l1, 1, nn) + "\n" + relabel(e.l2, 2, nn) + "\n"; }
      sc.files.clear(); sc.files["big.txt"].data = d; sc.prog = "sat_skymap"; sc.argv = {"big.txt", "-l45,10,100", "-j58900.3", "-r400", "-I", "-n1000000"};
      sc.chunk = sc.chunk_seed = 0;
    }
    return done("arbitrary bytes everywhere");
  }
  if (prop == "S10") {
    pick_dir(g); g.list = true;
    int nf = 1 + r.below(6); strs names;
    for (int i = 0; i < nf; i++) { str n = fmt("c%d.txt", i); sc.files[in_dir(g, n)].data = catalogue(g, 1 + r.below(4), 0.2); names.push_back(n); }
    int rows = r.chance(0.85) ? 5 + r.below(thorough ? 300 : 120) : 600 + r.below(1400);
    str lis;
    for (int i = 0; i < rows; i++) { if (r.chance(0.1)) lis += r.chance(0.5) ? "#c\n" : "\n"; lis += r.pick(names) + "\n"; }
    g.listname = "all.lis"; sc.files[in_dir(g, "all.lis")].data = lis;
    Want w; w.single = 0.3; w.wide = r.chance(0.5);
    if (r.chance(0.35)) g.placed.clear();
    request(g, w, "all.lis", 0.35);
    sc.fd_limit = 2 + r.below(7);
    if (r.chance(0.25)) io_fault(g);
    if (r.chance(0.12)) { sc.alloc_fail = pick_alloc(g); sc.alloc_fail_on = r.below(2); }
    if (r.chance(0.1)) for (auto &f : sc.files) if (f.first != in_dir(g, "all.lis") && r.chance(0.3)) damage(g, f.second.data, 2);
    sc.meta["distinct"] = fmt("%zu", g.used.size() + 5);
    if (r.chance(0.3)) sc.fill = 65;
    return done("long lists, few descriptors");
  }
  if (prop == "S12") {
    str c = world(g, 1 + r.below(3), 6, 0.2);
    Want w; w.filters = 0.1;
    if (r.chance(0.04) && decaying_window(g)) return done("orbit decaying within the window");
    request(g, w, c, 1);
    strs a;                                // longer windows and wider regions than the other profiles
    for (auto &x : sc.argv) a.push_back(x);
    bool wide = r.chance(0.75);
    if (wide) { strs b; for (size_t i = 0; i < a.size(); i++) { if (a[i] == "-r") { i++; continue; } if (a[i].compare(0, 2, "-r") == 0) continue; b.push_back(a[i]); }
      size_t at = b.size() && (b[0][0] != '-') ? 1 : 0; b.insert(b.begin() + at, "-r" + num(r.uniform(60, 180), 1)); a = b; }
    sc.argv = a;
    read_conditions(g);
    if (r.chance(0.3)) io_fault(g);
    if (r.chance(0.1)) { sc.alloc_fail = pick_alloc(g); sc.alloc_fail_on = r.below(2); }
    return done("visibility windows");
  }
  if (prop == "S11") {
    sc.prog = "mjdnow";
    static const std::vector<long> edge = {0, -1, 1, 86399, 86400, -86400, -86401, 2147483647L, 2147483648L, -2147483648L, -2147483649L, 4294967295L, 4294967296L, 951782400, 1709164800, 253402300799L, 1700000000, 1735689600};
    double x = r.real();
    sc.clock = x < 0.3 ? r.pick(edge) + r.range(-2, 2) : x < 0.4 ? 86400 * r.range(-20000, 40000) + r.range(-1, 1) : x < 0.9 ? r.range(0, 4500000000L) : r.range(-60000000000L, 200000000000L);
    sc.clock_ns = r.below(1000000000);
    if (r.chance(0.3)) { int n = 1 + r.below(3); for (int i = 0; i < n; i++) sc.jumps.push_back(r.chance(0.5) ? r.range(-5, 5) : r.range(-1000000, 1000000)); }
    if (r.chance(0.06)) sc.clock_fail = 1 + r.below(2);
    if (r.chance(0.6)) { static const strs tz = {"UTC", "Pacific/Auckland", "America/New_York", "EST5EDT", "<+14>-14", "Europe/Rome", "right/UTC", ":bad"}; sc.env.push_back({"TZ", r.pick(tz)}); }
    if (r.chance(0.5)) { static const strs lc = {"C", "C.UTF-8", "de_DE.UTF-8", "it_IT.UTF-8", "xx"}; sc.env.push_back({r.chance(0.5) ? "LC_ALL" : "LC_NUMERIC", r.pick(lc)}); }
    sc.fill = r.below(300); sc.out_mode = r.below(3);
    return done("system clocks");
  }
  fprintf(stderr, "no generator for %s\n", prop.c_str());
  exit(3);
}
