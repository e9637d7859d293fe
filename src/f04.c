/* F04: moving average is the exact mean of the surrounding window */
#include "gen.h"
void vf_setup(void) {}
#define K(f) "F04:" f
static double at(const double* in, size_t n, const double* prev, const double* next, int64_t i) {
  if (i < 0) return prev ? prev[(int64_t)n + i] : -in[-i];
  if (i >= (int64_t)n) return next ? next[i - (int64_t)n] : -in[2 * (int64_t)n - 2 - i];
  return in[i];
}
static void t_average(vf_rng* r, uint64_t ix) {
  size_t radius = vf_chance(r, .15) ? 0 : vf_size(r, 1, ix % 10 ? 30 : 300), n = 2 * radius + 2 + (vf_chance(r, .3) ? 0 : vf_size(r, 0, 300)); if (ix % 500 == 499) { radius = vf_below(r, 20); n = vf_size_big(r, 0, 1, 0, 0); }
  double *in = gen_samples(r, n, -5, 5), *prev = vf_chance(r, .5) ? gen_samples(r, n, -5, 5) : 0, *next = vf_chance(r, .5) ? gen_samples(r, vf_chance(r, .5) ? radius : n, -5, 5) : 0, *out = out_samples(n), *c = dup_samples(in, n), *own[2] = {prev, next};
  /* arrays that are repeated are their own neighbours */
  if (vf_chance(r, .25)) { if (vf_chance(r, .6)) prev = in; if (vf_chance(r, .6)) next = in; if (vf_chance(r, .3) && prev) next = prev; vf_count("repeated arrays", 1); }
  sp_moving_average(in, (sp_time_t)n, prev, next, (sp_time_t)radius, out);
  guards_ok(K("range"), "moving_average", out); same_mem(K("input"), "moving_average", in, c, n * 8); vf_eval(n);
  for (size_t i = 0; i < n; i++) { long double s = 0; for (int64_t j = (int64_t)i - (int64_t)radius; j <= (int64_t)(i + radius); j++) s += at(in, n, prev, next, j); double w = (double)(s / (2 * radius + 1));
    if (!(fabs(out[i] - w) <= 1e-9)) { vf_fail(i < radius ? K("start") : i + radius >= n ? K("end") : K("middle"), "size %zu radius %zu prev %d next %d: index %zu is %.12g, expected %.12g", n, radius, !!prev, !!next, i, out[i], w); break; } }
  vf_sig(vf_hash(in, n * 8, radius)); vf_count(prev ? next ? "both neighbours" : "previous only" : next ? "next only" : "no neighbours", 1);
  if (ix < 2) vf_sample("size %zu radius %zu prev %d next %d", n, radius, !!prev, !!next);
  vf_guarded_free(in); vf_guarded_free(own[0]); vf_guarded_free(own[1]); vf_guarded_free(out); vf_guarded_free(c);
}
/* smoothing consecutive arrays equals smoothing their concatenation */
static void t_concat(vf_rng* r, uint64_t ix) {
  size_t radius = vf_size(r, 0, 20), n = 2 * radius + 2 + vf_size(r, 0, 60), parts = 2 + vf_below(r, 5), total = n * parts;
  double *a = gen_samples(r, total, -5, 5), *whole = out_samples(total), *out = out_samples(n);
  sp_moving_average(a, (sp_time_t)total, 0, 0, (sp_time_t)radius, whole); guards_ok(K("range"), "moving_average", whole);
  for (size_t p = 0; p < parts; p++) {
    sp_moving_average(a + p * n, (sp_time_t)n, p ? a + (p - 1) * n : 0, p + 1 < parts ? a + (p + 1) * n : 0, (sp_time_t)radius, out); guards_ok(K("range"), "moving_average", out); vf_eval(n);
    for (size_t i = 0; i < n; i++) if (!(fabs(out[i] - whole[p * n + i]) <= 1e-9)) { vf_fail(K("concatenation"), "part %zu of %zu, size %zu radius %zu: index %zu is %.12g, whole %.12g", p, parts, n, radius, i, out[i], whole[p * n + i]); p = parts; break; }
  }
  vf_sig(vf_hash(a, total * 8, radius + 1000)); vf_count("concatenations", 1); if (ix < 1) vf_sample("%zu parts of %zu, radius %zu", parts, n, radius);
  vf_guarded_free(a); vf_guarded_free(whole); vf_guarded_free(out);
}
/* radii beyond 16 bits. the mean of the whole window from exact running sums */
static void t_wide(vf_rng* r, uint64_t ix) {
  size_t radius = 32760 + vf_below(r, vf_chance(r, .5) ? 16 : 40000), n = 2 * radius + 2 + vf_below(r, 300); double *in = vf_guarded(n * 8), *prev = vf_chance(r, .5) ? vf_guarded(n * 8) : 0, *next = vf_chance(r, .5) ? vf_guarded(n * 8) : 0, *out = out_samples(n);
  double* fill[] = {in, prev, next}; for (int k = 0; k < 3; k++) for (size_t i = 0; fill[k] && i < n; i++) fill[k][i] = (double)vf_range(r, -64, 64) / 64;
  sp_moving_average(in, (sp_time_t)n, prev, next, (sp_time_t)radius, out); guards_ok(K("range"), "moving_average", out); vf_eval(n);
  double s = 0; for (int64_t j = -(int64_t)radius; j < (int64_t)radius; j++) s += at(in, n, prev, next, j);
  for (size_t i = 0; i < n; i++) { s += at(in, n, prev, next, (int64_t)(i + radius)); double w = s / (double)(2 * radius + 1); if (!(fabs(out[i] - w) <= 1e-9)) { vf_fail(i < radius ? K("start") : i + radius >= n ? K("end") : K("middle"), "size %zu radius %zu prev %d next %d: index %zu is %.12g, expected %.12g", n, radius, !!prev, !!next, i, out[i], w); break; } s -= at(in, n, prev, next, (int64_t)i - (int64_t)radius); }
  vf_sig(vf_mix(n, radius)); vf_count("radii beyond 16 bits", 1); if (ix < 1) vf_sample("size %zu radius %zu", n, radius); vf_guarded_free(in); vf_guarded_free(prev); vf_guarded_free(next); vf_guarded_free(out);
}
vf_suite vf_suites[] = {{"wide", t_wide, 8, 400}, {"average", t_average, 4000, 200000}, {"concat", t_concat, 1500, 80000}, {0}};
