/* Stands in for curl in the scratch root.  What the simulated server and network do is in /.sim/plan, one line per
   answer:  URL <tab> kind <tab> code <tab> exit <tab> cut <tab> delay_ms <tab> chunk <tab> body-file
   kind: answer | none (nothing arrives) | hang | kill | redirect (to the answer's body, if followed).
   The n-th request of one URL gets its n-th line, or its last.  /.sim/net.log records requests and their ends. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
static const char *out, *fmt, *url, *oflag; static int follow, failflag, remote, fail_body; static double maxtime, conntime; static int retries, resume;
static char plan[1 << 20];
static void note(const char *a, const char *b) { char l[2048]; int n = snprintf(l, sizeof l, "%s\t%s\t%d\n", a, b, (int)getpid()); int fd = open("/.sim/net.log", O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd >= 0) { if (write(fd, l, n)) {} close(fd); } }
static void nap(double s) { if (s <= 0) return; struct timespec t = {(time_t)s, (long)((s - (time_t)s) * 1e9)}; nanosleep(&t, 0); }
static int slurp(const char *p, char *b, int n) { int fd = open(p, O_RDONLY), k, m = 0; if (fd < 0) return -1; while ((k = read(fd, b + m, n - 1 - m)) > 0) m += k; close(fd); b[m] = 0; return m; }
static int count_requests(const char *u) { static char b[1 << 20]; int n = 0; char *l, *s = 0; if (slurp("/.sim/net.log", b, sizeof b) < 0) return 0; for (l = strtok_r(b, "\n", &s); l; l = strtok_r(0, "\n", &s)) if (!strncmp(l, "GET\t", 4) && !strncmp(l + 4, u, strlen(u)) && l[4 + strlen(u)] == '\t') n++; return n; }
static void finish_fmt(int code, long size) {
  if (!fmt) return;
  char r[1024]; int n = 0;
  for (const char *p = fmt; *p && n < 900; ) {
    if (!strncmp(p, "%{http_code}", 12)) { n += sprintf(r + n, "%03d", code); p += 12; }
    else if (!strncmp(p, "%{response_code}", 16)) { n += sprintf(r + n, "%03d", code); p += 16; }
    else if (!strncmp(p, "%{size_download}", 16)) { n += sprintf(r + n, "%ld", size); p += 16; }
    else if (!strncmp(p, "%{url_effective}", 16)) { n += snprintf(r + n, 500, "%s", url); p += 16; }
    else if (!strncmp(p, "%{exitcode}", 11)) p += 11;
    else if (!strncmp(p, "\\n", 2)) { r[n++] = '\n'; p += 2; }
    else if (!strncmp(p, "%%", 2)) { r[n++] = '%'; p += 2; }
    else r[n++] = *p++;
  }
  if (write(1, r, n)) {}
}
static int transfer(int again) {
  static char body[1 << 20]; static char work[1 << 20];
  char *best = 0, *l, *s = 0; int want = count_requests(url), seen = 0;
  note(again ? "RETRY" : "GET", url);
  memcpy(work, plan, sizeof work);
  for (l = strtok_r(work, "\n", &s); l; l = strtok_r(0, "\n", &s)) { size_t k = strlen(url); if (!strncmp(l, url, k) && l[k] == '\t') { if (seen <= want) best = l + k + 1; seen++; } }
  if (!best) { note("END", "unknown"); finish_fmt(404, 0); return failflag ? 22 : 0; }
  char kind[32], file[256] = ""; int code, ex; long cut, delay, chunk;
  if (sscanf(best, "%31[^\t]\t%d\t%d\t%ld\t%ld\t%ld\t%255[^\n]", kind, &code, &ex, &cut, &delay, &chunk, file) < 6) return 99;
  double left = maxtime > 0 ? maxtime : 1e30, d = delay / 1000.;
  long size = 0, sent = 0; int fd = -1, hdr = code;
  if (!strcmp(kind, "hang")) { if (left > 1e29 && !(conntime > 0)) { note("END", "hang"); for (;;) pause(); } nap(conntime > 0 && conntime < left ? conntime : left); note("END", "timeout"); finish_fmt(0, 0); return 28; }
  if (!strcmp(kind, "none")) { nap(d < left ? d : left); note("END", "none"); finish_fmt(0, 0); return ex; }
  if (!strcmp(kind, "redirect") && !follow) { strcpy(file, "/.sim/redirect.html"); hdr = 301; cut = -1; ex = 0; }
  if (d / 2 > left) { nap(left); note("END", "timeout"); finish_fmt(0, 0); return 28; }
  nap(d / 2); left -= d / 2;
  if (failflag && hdr >= 400) { note("END", "failed"); finish_fmt(hdr, 0); return 22; }
  if (file[0]) size = slurp(file, body, sizeof body);
  if (size < 0) return 98;
  long total = cut >= 0 && cut < size ? cut : size, have = 0; int how = O_TRUNC;
  if (resume && out && (fd = open(out, O_RDONLY)) >= 0) { have = lseek(fd, 0, SEEK_END); close(fd); fd = -1; }
  if (have > 0 && hdr == 200) {                     /* the server can send the rest */
    if (have >= size) { hdr = 416; total = 0; if (ex == 0) ex = have > size ? 33 : 0; } else hdr = 206;
    sent = have < total ? have : total; how = O_APPEND;
  }
  if (!strcmp(kind, "blank")) { nap(d / 2 < left ? d / 2 : left); note("END", "blank"); finish_fmt(hdr, 0); return 0; }
  if (out && (total > 0 || (ex == 0 && hdr == 200))) { fd = open(out, O_WRONLY | O_CREAT | how, 0644); if (fd < 0) { note("END", "write"); finish_fmt(hdr, 0); return 23; } }
  if (!out) fd = 1;
  if (chunk <= 0) chunk = 16384;
  double per = total > 0 ? d / 2 / ((total + chunk - 1) / chunk) : 0;
  while (sent < total) {
    long n = total - sent < chunk ? total - sent : chunk, m = 0;
    if (per > left) { nap(left); if (fd > 1) close(fd); note("END", "timeout"); finish_fmt(hdr, sent); return 28; }
    nap(per); left -= per;
    while (m < n) { long k = write(fd, body + sent + m, n - m); if (k <= 0) { if (k < 0 && errno == EINTR) continue; if (fd > 1) close(fd); note("END", "write"); finish_fmt(hdr, sent); return 23; } m += k; }
    sent += n;
  }
  if (!strcmp(kind, "kill")) { note("END", "killed"); raise(SIGKILL); for (;;) pause(); }
  if (ex == 28 && left < 1e29) nap(left);
  if (fd > 1 && close(fd)) { note("END", "write"); finish_fmt(hdr, sent); return 23; }
  note("END", ex == 0 && hdr == 200 ? "ok" : ex == 0 ? "status" : "broken");
  finish_fmt(hdr, sent);
  return ex;
}
int main(int c, char **v) {
  for (int i = 1; i < c; i++) {
    char *a = v[i];
    if (a[0] == '-' && a[1] == '-') {
      char *e = 0;
#define ARG (e = i + 1 < c ? v[++i] : "")
      if (!strcmp(a, "--location")) follow = 1; else if (!strcmp(a, "--fail")) failflag = 1; else if (!strcmp(a, "--fail-with-body")) fail_body = 1;
      else if (!strcmp(a, "--silent") || !strcmp(a, "--show-error") || !strcmp(a, "--compressed") || !strcmp(a, "--insecure") || !strcmp(a, "--no-progress-meter") || !strcmp(a, "--progress-bar") || !strcmp(a, "--create-dirs") || !strcmp(a, "--retry-connrefused") || !strcmp(a, "--retry-all-errors") || !strcmp(a, "--remove-on-error") || !strcmp(a, "--globoff") || !strcmp(a, "--disable") || !strcmp(a, "--no-buffer") || !strcmp(a, "--remote-time") || !strcmp(a, "--ipv4") || !strcmp(a, "--ipv6") || !strcmp(a, "--http1.1") || !strcmp(a, "--http2")) ;
      else if (!strcmp(a, "--max-time")) maxtime = atof(ARG); else if (!strcmp(a, "--connect-timeout")) conntime = atof(ARG);
      else if (!strcmp(a, "--output")) out = ARG; else if (!strcmp(a, "--write-out")) fmt = ARG; else if (!strcmp(a, "--url")) url = ARG; else if (!strcmp(a, "--retry")) retries = atoi(ARG);
      else if (!strcmp(a, "--continue-at")) { ARG; resume = 1; }
      else if (!strcmp(a, "--retry-delay") || !strcmp(a, "--retry-max-time") || !strcmp(a, "--user-agent") || !strcmp(a, "--header") || !strcmp(a, "--max-redirs") || !strcmp(a, "--stderr") || !strcmp(a, "--speed-limit") || !strcmp(a, "--speed-time")) { ARG; }
      else return 2;
    } else if (a[0] == '-' && a[1]) {
      for (char *p = a + 1; *p; p++) {
        char *val = p[1] ? p + 1 : 0; int took = 1;
#define VAL (val ? val : i + 1 < c ? v[++i] : "")
        switch (*p) {
          case 'L': follow = 1; took = 0; break; case 'f': failflag = 1; took = 0; break; case 's': case 'S': case 'k': case '#': case 'g': case 'q': case 'N': case 'j': case 'R': case '4': case '6': took = 0; break; case 'O': remote = 1; took = 0; break;
          case 'o': out = VAL; break; case 'w': fmt = VAL; break; case 'm': maxtime = atof(VAL); break; case 'C': { char *x = VAL; (void)x; resume = 1; break; }
          case 'A': case 'H': case 'y': case 'Y': { char *x = VAL; (void)x; break; }
          default: return 2;
        }
        if (took) break;
      }
    } else url = a;
  }
  if (!url) return 2;
  (void)oflag; (void)fail_body;
  if (remote && !out) { out = strrchr(url, '/'); out = out ? out + 1 : url; }
  if (slurp("/.sim/plan", plan, sizeof plan) < 0) return 97;
  int r = 0;
  for (int k = 0; k <= retries; k++) { r = transfer(k); if (r != 7 && r != 28 && r != 6) break; }
  return r;
}
