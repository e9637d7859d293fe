/* V01: plot data files hold the plotted values */
#include "gen.h"
#include "wavf.h"
#define K(f) "V01:" f
/* gnuplot is not started and files below /tmp are redirected to the scratch directory */
static char real_path[400], cmd[2000]; static int opens, commands, fail_open; static char opened[400];
FILE* __real_fopen(const char* path, const char* mode); int __real_system(const char* c);
static int tracked;
FILE* __wrap_fopen(const char* path, const char* mode) {
  if (!tracked) return __real_fopen(path, mode);
  opens++; snprintf(opened, sizeof opened, "%s", path); if (fail_open) return 0;
  if (!strncmp(path, vf_scratch, strlen(vf_scratch))) { snprintf(real_path, sizeof real_path, "%s", path); } else { const char* b = strrchr(path, '/'); snprintf(real_path, sizeof real_path, "%s/%s", vf_scratch, b ? b + 1 : path); }
  return __real_fopen(real_path, mode);
}
int __wrap_system(const char* c) { if (c) { commands++; snprintf(cmd, sizeof cmd, "%s", c); } return 0; }
void vf_setup(void) { if (sp_initialize(0, 1, 960).id) vf_error("initialize"); }
/* lines of the file, each compared with the value at its index */
static void check_lines(const char* key, const char* w, const double* want, size_t n, double tol) {
  FILE* f = __real_fopen(real_path, "r"); vf_eval(n + 1); if (!f) { vf_fail(key, "%s: no file", w); return; }
  char line[400]; size_t k = 0; while (fgets(line, sizeof line, f)) { char* e; double v = strtod(line, &e); if (e == line || *e != '\n') { vf_fail(key, "%s: line %zu is not a number", w, k); fclose(f); return; } if (k < n && !(fabs(v - want[k]) <= tol * (1 + 1e-9 * fabs(want[k])) + 1e-12 * fabs(want[k]))) { vf_fail(key, "%s: line %zu of %zu is %.12g, expected %.12g", w, k, n, v, want[k]); fclose(f); return; } k++; }
  fclose(f); if (k != n) vf_fail(key, "%s: %zu lines for %zu values", w, k, n);
}
static double* spectrum(const double* a, size_t n) { double* o = vf_malloc(n * 8); for (size_t k = 0; k < n; k++) { long double re = 0, im = 0; for (size_t i = 0; i < n; i++) { long double p = 2 * M_PIl * (long double)((i * k) % n) / n; re += a[i] * cosl(p); im += a[i] * sinl(p); } o[k] = (double)(2 * (sqrtl(re * re + im * im) / n)); } return o; }
/* an event for sp_render_plot whose samples are known */
static double event_value(sp_time_t t, int ch) { return sin(t * .37) * (ch ? .25 : 3) + ch; }
static int prepared, freed; static sp_time_t late_end;
/* what fails: 0 nothing, 1 prepare, 2 generate */
static int failing; static uint8_t* failing_group = (uint8_t*)"v01";
static status_t ev_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) { status_declare; (void)e; if (failing == 2 && end >= late_end / 2) { status.id = 71; status.group = failing_group; return status; } for (sp_time_t i = 0; i < end - start; i++) for (int c = 0; c < out.channel_count; c++) out.samples[c][i] += event_value(start + i, c); status_return; }
static status_t ev_prepare(sp_event_t* e) { status_declare; prepared++; if (failing == 1) { status.id = 70; status.group = failing_group; return status; } if (!e->end) e->end = late_end; status_return; }
static void ev_free(sp_event_t* e) { (void)e; freed++; }
static void plot_case(vf_rng* r, uint64_t ix, int full) {
  int kind = (int)vf_below(r, full ? 5 : 3); size_t n = kind == 2 ? vf_size(r, 1, 90) : vf_size_big(r, ix, 500, kind >= 3, 400); double m = vf_chance(r, .5) ? 1 : 1000; double* a = gen_samples(r, n, -m, m), *ac = dup_samples(a, n); sp_time_t* t = gen_times(r, n, 0, vf_chance(r, .5) ? 50 : UINT32_MAX), *tc = dup_times(t, n); double* want = vf_malloc(n * 8 + 8), *sp = 0; failing = 0;
  char w[160], path[300]; static const char* names[] = {"samples", "times", "spectrum", "block", "event"}; snprintf(w, sizeof w, "%s of %zu values%s", names[kind], n, full ? " plotted" : ""); w_name(path, sizeof path, "plot-data"); if (vf_chance(r, .3)) { uint8_t junk[3000] = {'1'}; w_spit(path, junk, sizeof junk); }
  for (size_t i = 0; i < n; i++) want[i] = kind == 1 ? t[i] : kind == 4 ? event_value((sp_time_t)i, 0) : a[i]; if (kind == 2) { sp = spectrum(a, n); memcpy(want, sp, n * 8); vf_free(sp); }
  opens = commands = 0; fail_open = vf_chance(r, .1); cmd[0] = opened[0] = real_path[0] = 0; int fds = w_fds(); int64_t nth = vf_chance(r, .15) ? (int64_t)vf_below(r, 6) : -1; vf_ledger_begin(); tracked = 1; if (nth >= 0) vf_fault_at(nth);
  if (!full) { if (kind == 0) sp_plot_samples_to_file(a, (sp_time_t)n, (uint8_t*)path); else if (kind == 1) sp_plot_times_to_file(t, (sp_time_t)n, (uint8_t*)path); else sp_plot_spectrum_to_file(a, (sp_time_t)n, (uint8_t*)path); }
  else { if (kind == 0) sp_plot_samples(a, (sp_time_t)n); else if (kind == 1) sp_plot_times(t, (sp_time_t)n); else if (kind == 2) sp_plot_spectrum(a, (sp_time_t)n); else if (kind == 4) { sp_event_t e; sp_event_reset(e); late_end = (sp_time_t)n; prepared = freed = 0; failing = vf_chance(r, .3) ? 1 + (int)vf_below(r, 2) : 0; e.end = vf_chance(r, .5) ? 0 : (sp_time_t)n; e.generate = ev_generate; e.prepare = ev_prepare; e.free = ev_free; status_t s = sp_render_plot(e); vf_eval(2); if (prepared > 1 || freed != 1) vf_fail(K("event"), "%s: prepared %d times, freed %d times", w, prepared, freed); if (failing) { vf_count("failing events", 1); if (nth < 0 && (s.id != 69 + failing || strcmp((char*)s.group, "v01"))) vf_fail(K("event"), "%s: status %d when the event fails with %d", w, s.id, 69 + failing); if (!s.id || opens || commands) vf_fail(K("event"), "%s: plotted although the event failed", w); } else if (s.id && nth < 0) vf_fail(K("event"), "%s: status %d", w, s.id); } else { sp_block_t b; memset(&b, 0, sizeof b); b.channel_count = 1; b.size = (sp_time_t)n; b.samples[0] = a; sp_block_plot_1(b); } }
  int faulted = nth >= 0 && vf_fault_hit(); vf_fault_at(-1); tracked = 0; vf_ledger_end_empty(K("leak"), w); vf_eval(3); if (w_fds() != fds) vf_fail(K("handles"), "%s: %d files are still open", w, w_fds() - fds);
  if (!faulted && !fail_open && !failing) {
    if (opens != 1) vf_fail(K("file"), "%s: %d files opened", w, opens); else check_lines(kind == 1 ? K("times") : kind == 2 ? K("spectrum") : K("samples"), w, want, n, kind == 1 ? 0.4 : 0.00051);
    if (full) { if (commands != 1) vf_fail(K("command"), "%s: %d programs started", w, commands); else { if (!strstr(cmd, opened) || strncmp(cmd, "gnuplot", 7)) vf_fail(K("command"), "%s: the command \"%s\" does not plot the file %s", w, cmd, opened); size_t q = 0, dq = 0; for (char* c = cmd; *c; c++) { q += *c == '\''; dq += *c == '"'; } if (q % 2 || dq % 2 || cmd[strlen(cmd) - 1] != '\'') vf_fail(K("command"), "%s: the command is incomplete: %s", w, cmd); }
      static char last[400]; if (!strcmp(last, opened)) vf_fail(K("reused"), "%s: the file of the previous plot was overwritten", w); snprintf(last, sizeof last, "%s", opened); }
    else if (commands) vf_fail(K("command"), "%s: a program was started", w);
  }
  same_mem(K("input"), w, a, ac, n * 8); same_mem(K("input"), w, t, tc, n * 4); if (real_path[0]) unlink(real_path); unlink(path);
  vf_count(faulted ? "failed allocations" : fail_open ? "files that can not be opened" : names[kind], 1); vf_sig(vf_mix(vf_hash(want, n * 8, (uint64_t)kind + 9), (uint64_t)full)); if (ix < 2) vf_sample("%s", w);
  vf_guarded_free(a); vf_guarded_free(ac); vf_guarded_free(t); vf_guarded_free(tc); vf_free(want);
}
static void t_file(vf_rng* r, uint64_t ix) { plot_case(r, ix, 0); }
static void t_plot(vf_rng* r, uint64_t ix) { plot_case(r, ix, 1); }
vf_suite vf_suites[] = {{"files", t_file, 4000, 60000}, {"plots", t_plot, 2500, 40000}, {0}};
