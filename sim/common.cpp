#include "common.h"
#include <stdarg.h>
str fmt(const char *f, ...) {
  va_list ap; va_start(ap, f);
  char *p = nullptr; int n = vasprintf(&p, f, ap); va_end(ap);
  str r(p, n > 0 ? n : 0); free(p); return r;
}
str read_all(const str &path, bool *ok) {
  FILE *f = fopen(path.c_str(), "rb");
  if (ok) *ok = f != nullptr;
  if (!f) return "";
  str r; char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
  fclose(f); return r;
}
bool write_all(const str &path, const str &d) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) return false;
  bool ok = fwrite(d.data(), 1, d.size(), f) == d.size();
  return fclose(f) == 0 && ok;
}
str esc(const str &s) {
  str r;
  for (unsigned char c : s) {
    if (c == '\\') r += "\\\\";
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) r += fmt("\\x%02X", c);
    else r += c;
  }
  return r;
}
bool unesc(const str &s, str &o) {
  o.clear();
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') { o += s[i]; continue; }
    if (++i >= s.size()) return false;
    if (s[i] == '\\') o += '\\';
    else if (s[i] == 'n') o += '\n';
    else if (s[i] == 'x' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else return false;
  }
  return true;
}
strs split_lines(const str &d) {
  strs r; size_t i = 0;
  while (i < d.size()) { size_t j = d.find('\n', i); if (j == str::npos) j = d.size() - 1; r.push_back(d.substr(i, j + 1 - i)); i = j + 1; }
  return r;
}
// text form: "key value" lines; file contents as one line per text line
#define LONGS(X) X(fill) X(chunk) X(chunk_seed) X(move) X(align) X(out_mode) X(out_buf) X(out_fail) X(out_errno) X(out_chunk) X(out_closed) \
  X(alloc_fail) X(alloc_fail_on) X(fd_limit) X(clock) X(clock_ns) X(clock_fail) X(asan)
static void put_data(str &o, const char *tag, const str &d) { for (auto &l : split_lines(d)) o += str(tag) + " " + esc(l) + "\n"; }
str Scenario::save() const {
  str o = "scenario 1\nprop " + prop + "\nprofile " + profile + "\nprog " + prog + "\n";
  Scenario def;
  for (auto &a : argv) o += "arg " + esc(a) + "\n";
  for (auto &kv : env) o += "env " + esc(kv.first) + "=" + esc(kv.second) + "\n";
#define PUT(n) if (n != def.n) o += fmt(#n " %ld\n", n);
  LONGS(PUT)
  if (!jumps.empty()) { o += "jumps"; for (long j : jumps) o += fmt(" %ld", j); o += "\n"; }
  for (auto &kv : meta) o += "meta " + kv.first + "=" + esc(kv.second) + "\n";
  for (auto &kv : files) {
    const SimFile &f = kv.second;
    o += "file " + esc(kv.first) + "\n";
    if (f.open_errno) o += fmt("open_errno %d\n", f.open_errno);
    if (f.fail_errno) o += fmt("read_fault %ld %d\n", f.fail_at, f.fail_errno);
    if (f.transient) o += "transient\n";
    if (f.swap_at >= 0) o += fmt("swap %ld %d\n", f.swap_at, f.swap_kind);
    put_data(o, "|", f.data);
    put_data(o, "+", f.data2);
    o += "endfile\n";
  }
  return o + "end\n";
}
bool Scenario::load(const str &t, str &err) {
  *this = Scenario();
  SimFile *f = nullptr; bool end = false; str x;
  for (auto &l0 : split_lines(t)) {
    str l = l0;
    if (!l.empty() && l.back() == '\n') l.pop_back();
    size_t sp = l.find(' ');
    str k = l.substr(0, sp), v = sp == str::npos ? "" : l.substr(sp + 1);
    if (k == "#" || k.empty() || end) continue;
    if (k == "scenario") continue;
    else if (k == "prop") prop = v;
    else if (k == "profile") profile = v;
    else if (k == "prog") prog = v;
    else if (k == "arg") { unesc(v, x); argv.push_back(x); }
    else if (k == "env") { str a, b; size_t e = v.find('='); unesc(v.substr(0, e), a); unesc(v.substr(e + 1), b); env.push_back({a, b}); }
    else if (k == "meta") { size_t e = v.find('='); unesc(v.substr(e + 1), x); meta[v.substr(0, e)] = x; }
    else if (k == "jumps") { char *p = (char *)v.c_str(), *q; for (;;) { long j = strtol(p, &q, 10); if (q == p) break; jumps.push_back(j); p = q; } }
    else if (k == "file") { unesc(v, x); f = &files[x]; }
    else if (k == "open_errno") f->open_errno = atoi(v.c_str());
    else if (k == "read_fault") sscanf(v.c_str(), "%ld %d", &f->fail_at, &f->fail_errno);
    else if (k == "transient") f->transient = true;
    else if (k == "swap") sscanf(v.c_str(), "%ld %d", &f->swap_at, &f->swap_kind);
    else if (k == "|" || k == "+") { if (!f || !unesc(v, x)) { err = "bad data line"; return false; } (k == "|" ? f->data : f->data2) += x; }
    else if (k == "endfile") f = nullptr;
    else if (k == "end") end = true;
#define GET(n) else if (k == #n) n = atol(v.c_str());
    LONGS(GET)
    else { err = "unknown key " + k; return false; }
  }
  if (!end) { err = "no end line"; return false; }
  return true;
}
