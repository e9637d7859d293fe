/* A02: rescaling and selecting array operations reach their target */
#include "gen.h"
void vf_setup(void) {}
#define K(f) "A02:" f

static void t_scale_times(vf_rng* r, uint64_t ix) {
  size_t n = vf_size_big(r, ix, 1000, 1, 500); uint64_t hi = vf_chance(r, .4) ? 20 : 1000000;
  sp_time_t* in = gen_times(r, n, 0, hi); if (vf_chance(r, .8)) in[vf_below(r, n)] = (sp_time_t)(1 + vf_below(r, hi));
  uint64_t sum = 0; sp_time_t mx = 0; for (size_t i = 0; i < n; i++) { sum += in[i]; if (in[i] > mx) mx = in[i]; }
  sp_time_t* a = dup_times(in, n); sp_time_t* out = out_times(n);
  vf_sig(vf_hash(in, n * 4, n));
  if (sum && sum < UINT32_MAX) {
    sp_time_t target = (sp_time_t)vf_below(r, vf_chance(r, .5) ? 1000 : 1000000000);
    for (int inplace = 0; inplace < 2; inplace++) {
      sp_time_t* o = inplace ? a : out;
      sp_times_scale_sum(a, n, target, o); guards_ok(K("times_scale_sum"), "out", o); if (!inplace) same_mem(K("times_scale_sum"), "in", a, in, n * 4);
      vf_eval(n + 1); double osum = 0;
      for (size_t i = 0; i < n; i++) { osum += o[i]; double x = (double)in[i] * target / (double)sum; if (!is_rounded(o[i], x)) { vf_fail(K("times_scale_sum"), "value %u of sum %llu scaled to sum %u is %u, expected %g%s", in[i], (unsigned long long)sum, target, o[i], x, inplace ? ", in place" : ""); break; } }
      if (fabs(osum - target) > .5 * n + 1) vf_fail(K("times_scale_sum"), "sum is %g, expected %u", osum, target);
    }
    memcpy(a, in, n * 4);
  }
  if (mx) {
    sp_time_t target = (sp_time_t)(1 + vf_below(r, vf_chance(r, .5) ? 50 : 3000000000u));
    for (int inplace = 0; inplace < 2; inplace++) {
      sp_time_t* o = inplace ? a : out; for (size_t i = 0; !inplace && i < n; i++) out[i] = 0xeeeeeeee;
      sp_times_scale_y(a, n, target, o); guards_ok(K("times_scale_y"), "out", o); if (!inplace) same_mem(K("times_scale_y"), "in", a, in, n * 4);
      vf_eval(n);
      for (size_t i = 0; i < n; i++) { double x = (double)in[i] * target / (double)mx; if (!is_rounded(o[i], x)) { vf_fail(K("times_scale_y"), "value %u of maximum %u scaled to maximum %u is %u, expected %g%s", in[i], mx, target, o[i], x, inplace ? ", in place" : ""); break; } }
    }
    memcpy(a, in, n * 4);
  }
  { /* both dimensions */
    sp_time_t f = (sp_time_t)(1 + vf_below(r, 9)); size_t on = (n - 1) * f; if (n < 4) { sp_time_t g = 65530 + (sp_time_t)vf_below(r, 3000); if (vf_chance(r, .05) && (uint64_t)mx * g <= UINT32_MAX) { f = g; on = (n - 1) * f; } } sp_time_t* o = out_times(on);
    vf_ledger_begin(); status_t s = sp_times_scale(a, n, f, o); vf_ledger_end_empty(K("times_scale"), "scale");
    guards_ok(K("times_scale"), "out", o); same_mem(K("times_scale"), "in", a, in, n * 4); vf_eval(on + 1);
    if (s.id) vf_fail(K("times_scale"), "failed");
    else for (size_t i = 0; i < on; i++) { double p = (double)in[i / f] * f, q = (double)in[i / f + 1] * f, t = (double)(i % f) / f, x = p + (q - p) * t; if (!is_rounded(o[i], x)) { vf_fail(K("times_scale"), "index %zu factor %u is %u, expected %g", i, f, o[i], x); break; } }
    vf_guarded_free(o); }
  if (ix < 2) vf_sample("times: %zu values, sum %llu, maximum %u, scaled to other sums, maxima and factors", n, (unsigned long long)sum, mx);
  vf_guarded_free(a); vf_guarded_free(in); vf_guarded_free(out);
}
static double amax(const double* a, size_t n) { double m = 0; for (size_t i = 0; i < n; i++) if (fabs(a[i]) > m) m = fabs(a[i]); return m; }
static void t_scale_samples(vf_rng* r, uint64_t ix) {
  size_t n = vf_size_big(r, ix, 1000, 1, 500); double m = vf_chance(r, .5) ? 1 : 1000; sp_sample_t* in = gen_samples(r, n, -m, m); if (vf_chance(r, .9)) in[vf_below(r, n)] = m * (vf_chance(r, .5) ? .7 : -.7);
  sp_sample_t* a = dup_samples(in, n); sp_sample_t* out = out_samples(n); double mx = amax(in, n), sum = 0, as = 0; for (size_t i = 0; i < n; i++) { sum += in[i]; as += fabs(in[i]); }
  vf_sig(vf_hash(in, n * 8, n));
  double target = vf_chance(r, .2) ? 1 : vf_real(r, .001, 10);
  if (mx > 0) {
    sp_samples_scale_y(a, n, target); guards_ok(K("samples_scale_y"), "in", a); vf_eval(n);
    for (size_t i = 0; i < n; i++) if (!vf_near(a[i], in[i] * target / mx, 1e-9)) { vf_fail(K("samples_scale_y"), "%g of maximum %g scaled to %g is %g, count %zu", in[i], mx, target, a[i], n); break; }
    memcpy(a, in, n * 8);
  }
  { /* gain. zero gain and zero input change nothing */
    double amp = vf_chance(r, .1) ? 0 : target; double f = amp == 0 || mx == 0 ? 1 : amp / mx;
    sp_samples_set_gain(a, n, amp); guards_ok(K("samples_set_gain"), "in", a); vf_eval(n);
    for (size_t i = 0; i < n; i++) if (!vf_near(a[i], in[i] * f, 1e-9)) { vf_fail(K("samples_set_gain"), "%g of maximum %g with gain %g is %g", in[i], mx, amp, a[i]); break; }
    memcpy(a, in, n * 8);
    sp_sample_t* ref = gen_samples(r, n, -m, m); if (vf_chance(r, .1)) memset(ref, 0, n * 8); sp_sample_t* ref0 = dup_samples(ref, n); double rm = amax(ref, n); f = rm == 0 || mx == 0 ? 1 : rm / mx;
    sp_samples_set_unity_gain(a, ref, n); guards_ok(K("samples_set_unity_gain"), "in", a); same_mem(K("samples_set_unity_gain"), "reference", ref, ref0, n * 8); vf_eval(n);
    for (size_t i = 0; i < n; i++) if (!vf_near(a[i], in[i] * f, 1e-9)) { vf_fail(K("samples_set_unity_gain"), "%g of maximum %g with reference maximum %g is %g", in[i], mx, rm, a[i]); break; }
    memcpy(a, in, n * 8); vf_guarded_free(ref); vf_guarded_free(ref0); }
  if (fabs(sum) > 1e-3 * as && as > 0) {
    for (int inplace = 0; inplace < 2; inplace++) {
      sp_sample_t* o = inplace ? a : out;
      sp_samples_scale_sum(a, n, target, o); guards_ok(K("samples_scale_sum"), "out", o); if (!inplace) same_mem(K("samples_scale_sum"), "in", a, in, n * 8);
      vf_eval(n);
      for (size_t i = 0; i < n; i++) if (!vf_near(o[i], in[i] * target / sum, 1e-6)) { vf_fail(K("samples_scale_sum"), "%g of sum %g scaled to sum %g is %g, expected %g%s", in[i], sum, target, o[i], in[i] * target / sum, inplace ? ", in place" : ""); break; }
    }
  }
  if (ix < 2) vf_sample("samples: %zu values, sum %g, absolute maximum %g, target %g", n, sum, mx, target);
  vf_guarded_free(in); vf_guarded_free(a); vf_guarded_free(out);
}
static void t_select(vf_rng* r, uint64_t ix) {
  size_t n = vf_size_big(r, ix, 1000, 1, 500); uint64_t hi = vf_chance(r, .5) ? 12 : UINT32_MAX; sp_time_t* in = gen_times(r, n, 0, hi); sp_time_t* a = dup_times(in, n);
  vf_sig(vf_hash(in, n * 4, n));
  { /* remove */
    size_t index = vf_chance(r, .2) ? 0 : vf_chance(r, .25) ? n - 1 : vf_below(r, n), count = vf_chance(r, .2) ? n - index : vf_below(r, n - index + 1), on = n - count; sp_time_t* o = out_times(on);
    sp_times_remove(a, n, index, count, o); guards_ok(K("times_remove"), "out", o); same_mem(K("times_remove"), "in", a, in, n * 4); vf_eval(on);
    for (size_t i = 0; i < on; i++) if (o[i] != in[i < index ? i : i + count]) { vf_fail(K("times_remove"), "size %zu index %zu count %zu: wrong at %zu", n, index, count, i); break; }
    vf_guarded_free(o); }
  { /* insert space */
    size_t index = vf_chance(r, .2) ? 0 : vf_below(r, n + 1), count = vf_below(r, 20), on = n + count; sp_time_t* o = out_times(on);
    sp_times_insert_space(a, n, index, count, o); guards_ok(K("times_insert_space"), "out", o); same_mem(K("times_insert_space"), "in", a, in, n * 4); vf_eval(n);
    for (size_t i = 0; i < n; i++) if (o[i < index ? i : i + count] != in[i]) { vf_fail(K("times_insert_space"), "size %zu index %zu count %zu: element %zu misplaced", n, index, count, i); break; }
    vf_guarded_free(o); }
  if (n > 1) { /* subdivide: equally spaced values, the second value is greater than the first */
    size_t index = vf_below(r, n - 1), count = ix % 1000 == 777 ? 65530 + vf_below(r, 900) : vf_below(r, 12); sp_time_t lo = (sp_time_t)vf_below(r, 1000000), iv = (sp_time_t)(vf_chance(r, .5) ? (1 + vf_below(r, 1000)) * (count + 1) : 1 + vf_below(r, vf_chance(r, .5) ? 100000 : 4290000000u)); if (lo + (uint64_t)iv > UINT32_MAX) lo = 0;
    a[index] = lo; a[index + 1] = lo + iv; sp_time_t* b = dup_times(a, n); sp_time_t* o = out_times(n + count);
    sp_times_subdivide_difference(a, n, index, count, o); guards_ok(K("times_subdivide_difference"), "out", o); same_mem(K("times_subdivide_difference"), "in", a, b, n * 4); vf_eval(n + count);
    for (size_t i = 0; i < n + count; i++) { sp_time_t w = i <= index ? b[i] : i > index + count ? b[i - count] : (sp_time_t)(lo + (i - index) * (iv / (count + 1))); if (o[i] != w) { vf_fail(K("times_subdivide_difference"), "interval %u at %zu divided by %zu: index %zu is %u, expected %u", iv, index, count, i, o[i], w); break; } }
    vf_guarded_free(b); vf_guarded_free(o); memcpy(a, in, n * 4); }
  { /* extract in range, inclusive */
    sp_time_t lo = in[vf_below(r, n)], h = in[vf_below(r, n)]; if (lo > h && vf_chance(r, .9)) { sp_time_t t = lo; lo = h; h = t; } if (vf_chance(r, .2) && h < UINT32_MAX) h++;
    sp_time_t* w = vf_malloc(n * 4 + 4); size_t wn = 0; for (size_t i = 0; i < n; i++) if (in[i] >= lo && in[i] <= h) w[wn++] = in[i];
    sp_time_t* o = out_times(n); sp_time_t on = 12345; sp_times_extract_in_range(a, n, lo, h, o, &on); guards_ok(K("times_extract_in_range"), "out", o); same_mem(K("times_extract_in_range"), "in", a, in, n * 4); vf_eval(wn + 1);
    if (on != wn) vf_fail(K("times_extract_in_range"), "%u values between %u and %u, expected %zu of %zu", on, lo, h, wn, n); else eq_times(K("times_extract_in_range"), "extract", o, w, wn);
    vf_free(w); vf_guarded_free(o); }
  { /* indices of greater values, also in place */
    sp_time_t lim = in[vf_below(r, n)]; if (vf_chance(r, .2)) lim = 0; sp_time_t* w = vf_malloc(n * 4 + 4); size_t wn = 0; for (size_t i = 0; i < n; i++) if (in[i] > lim) w[wn++] = (sp_time_t)i;
    for (int inplace = 0; inplace < 2; inplace++) { sp_time_t* o = inplace ? a : out_times(n); sp_time_t on = 12345; sp_times_gt_indices(a, n, lim, o, &on); guards_ok(K("times_gt_indices"), "out", o); if (!inplace) same_mem(K("times_gt_indices"), "in", a, in, n * 4); vf_eval(1);
      if (on != wn) vf_fail(K("times_gt_indices"), "%u indices above %u, expected %zu of %zu", on, lim, wn, n); else eq_times(K("times_gt_indices"), "indices", o, w, wn);
      if (!inplace) vf_guarded_free(o); }
    memcpy(a, in, n * 4); vf_free(w); }
  { /* select by index, any indices; in place with ascending indices */
    size_t cn = vf_size_big(r, ix + 500, 1000, 1, 300); sp_time_t* idx = vf_guarded(cn * 4); for (size_t i = 0; i < cn; i++) idx[i] = (sp_time_t)vf_below(r, n); sp_time_t* idx0 = dup_times(idx, cn); sp_time_t* o = out_times(cn);
    sp_times_select(a, idx, cn, o); guards_ok(K("times_select"), "out", o); same_mem(K("times_select"), "in", a, in, n * 4); same_mem(K("times_select"), "indices", idx, idx0, cn * 4); vf_eval(cn);
    for (size_t i = 0; i < cn; i++) if (o[i] != in[idx0[i]]) { vf_fail(K("times_select"), "index %zu", i); break; }
    size_t k = 0; sp_time_t* asc = vf_guarded(n * 4); for (size_t i = 0; i < n; i++) if (vf_chance(r, .5)) asc[k++] = (sp_time_t)i;
    sp_times_select(a, asc, k, a); vf_eval(k); for (size_t i = 0; i < k; i++) if (a[i] != in[asc[i]]) { vf_fail(K("times_select"), "in place, index %zu", i); break; }
    memcpy(a, in, n * 4); vf_guarded_free(asc); vf_guarded_free(idx); vf_guarded_free(idx0); vf_guarded_free(o); }
  if (ix < 2) vf_sample("select: %zu values up to %llu removed, extracted, subdivided, selected", n, (unsigned long long)hi);
  vf_guarded_free(a); vf_guarded_free(in);
}
/* the end of one array is led progressively to the mirrored start of the next, or the start of the next to the mirrored end of the first */
static void t_seamless(vf_rng* r, uint64_t ix) {
  size_t n = vf_size_big(r, ix, 1000, 0, 60), m = ix % 2000 == 1999 ? 131100 + vf_below(r, 9000) : vf_size(r, 0, 60); if (m > 60) n += 66000; uint64_t hi = vf_chance(r, .3) ? 20 : 2000000000; sp_time_t *a = gen_times(r, n, 0, hi), *b = gen_times(r, m, 0, hi), *ac = dup_times(a, n), *bc = dup_times(b, m); char w[80]; snprintf(w, sizeof w, "%zu and %zu values", n, m);
  for (int left = 0; left < 2; left++) {
    size_t on = left ? m : n, other = left ? n : m, count = on < other / 2 ? on : other / 2; sp_time_t* out = out_times(on); const char* key = left ? K("times_make_seamless_left") : K("times_make_seamless_right");
    if (left) sp_times_make_seamless_left(a, (sp_time_t)n, b, (sp_time_t)m, out); else sp_times_make_seamless_right(a, (sp_time_t)n, b, (sp_time_t)m, out); guards_ok(key, "out", out); same_mem(key, "a", a, ac, n * 4); same_mem(key, "b", b, bc, m * 4); vf_eval(on);
    for (size_t i = 0; i < on; i++) { size_t d = left ? i : n - 1 - i; double from = left ? b[i] : a[i], to = d < count ? (left ? a[n - 1 - d] : b[d]) : from, t = d < count ? (double)(count - d) / (double)count : 0; if (!is_rounded(out[i], from + (to - from) * t)) { vf_fail(key, "%s: index %zu is %u, expected %g to %g at %g", w, i, out[i], from, to, t); break; } }
    vf_guarded_free(out);
  }
  vf_sig(vf_hash(a, n * 4, vf_hash(b, m * 4, 6))); vf_count("connected arrays", 1); if (ix < 1) vf_sample("%s connected", w); vf_guarded_free(a); vf_guarded_free(b); vf_guarded_free(ac); vf_guarded_free(bc);
}
vf_suite vf_suites[] = {{"scale-times", t_scale_times, 6000, 200000}, {"scale-samples", t_scale_samples, 6000, 200000}, {"select", t_select, 6000, 200000}, {"seamless", t_seamless, 8000, 200000}, {0}};
