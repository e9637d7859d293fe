/* Q01: statistics equal their mathematical definitions */
#include "gen.h"
#include <float.h>
void vf_setup(void) {}
#define K(f) "Q01:" f
typedef long double ld;
static int cmp_d(const void* a, const void* b) { double x = *(double*)a, y = *(double*)b; return x < y ? -1 : x > y; }
typedef struct { ld mean, dev, skew, kurt, median, center, center2, inharm, min, max, absmax; } want_t;
static want_t definition(const double* a, size_t n) {
  want_t w = {0}; ld s = 0, is = 0, m2 = 0, m3 = 0, m4 = 0;
  w.min = w.max = a[0];
  for (size_t i = 0; i < n; i++) { s += a[i]; is += (ld)i * a[i]; if (a[i] < w.min) w.min = a[i]; if (a[i] > w.max) w.max = a[i]; if (fabs(a[i]) > w.absmax) w.absmax = fabs(a[i]); }
  w.mean = s / n; w.center = is / s; w.center2 = is / (s + a[0]);
  for (size_t i = 0; i < n; i++) { ld d = a[i] - w.mean; m2 += d * d; m3 += d * d * d; m4 += d * d * d * d; }
  m2 /= n; m3 /= n; m4 /= n; w.dev = sqrtl(m2); w.skew = m3 / (m2 * sqrtl(m2)); w.kurt = m4 / (m2 * m2);
  double* t = vf_malloc(n * 8); memcpy(t, a, n * 8); qsort(t, n, 8, cmp_d); w.median = n & 1 ? t[n / 2] : ((ld)t[n / 2] + t[n / 2 - 1]) / 2; vf_free(t);
  w.inharm = (ld)n;
  for (size_t i = 0; i < n && n < 200; i++) { ld sum = 0; for (size_t j = 0; j < n; j++) { ld b = (ld)a[j] / a[i]; b -= floorl(b); sum += b <= 0.5L ? b : 1 - b; } sum /= n; if (sum < w.inharm) w.inharm = sum; }
  return w;
}
static int near(double got, ld want, ld scale) { return fabsl(got - want) <= 1e-9L * (scale + fabsl(want)) + 1e-300L; }
static void expect(const char* key, const char* what, double got, ld want, ld scale, size_t n) { vf_eval(1); if (!near(got, want, scale)) vf_fail(key, "%s of %zu values is %.17g, expected %.17Lg", what, n, got, want); }
#define CALL(f, a) ({ double o_ = -12345; uint8_t rc_ = f(a, (sp_time_t)n, &o_); vf_eval(1); if (rc_) vf_fail("Q01:status", #f " returned %d", rc_); o_; })

/* puts the largest or smallest value at the end or the beginning, which long random arrays hardly ever have there */
#define EDGE(T, a, n) if (n > 1000 || vf_chance(r, .4)) { int large = vf_chance(r, .5); size_t at = 0, other = n, to = vf_chance(r, .7) ? n - 1 : 0; \
  for (size_t i = 0; i < n; i++) if (large ? a[i] > a[at] : a[i] < a[at]) at = i; \
  T e = a[at]; for (size_t i = 0; i < n; i++) if (a[i] != e) other = i; \
  if (other < n) { T o = a[other]; for (size_t i = 0; i < n; i++) if (a[i] == e) a[i] = o; a[to] = e; vf_count("single extreme values at an end", 1); } }
static void t_samples(vf_rng* r, uint64_t ix) {
  size_t n = 1 + vf_size(r, 0, ix % 10 == 0 ? 3000 : 150); if (n > 600 && !vf_thorough && ix % 40) n = 600; if (ix % 600 == 599) n = vf_size_big(r, 0, 1, 0, 0);
  int positive = vf_chance(r, .5); double lo = positive ? 1e-3 : -100, hi = vf_chance(r, .5) ? 1 : 1000;
  double* a = gen_samples(r, n, lo, hi), *copy; if (positive) for (size_t i = 0; i < n; i++) if (a[i] < lo) a[i] = lo; if (vf_chance(r, .1)) for (size_t i = 0; i < n; i++) a[i] = 1 + (double)vf_below(r, 2);
  EDGE(double, a, n); copy = dup_samples(a, n); want_t w = definition(a, n); double spread = (double)(w.max - w.min), o3[3] = {0};
  vf_ledger_begin();
  if (sp_stat_samples_range(a, n, o3)) vf_fail(K("status"), "range");
  vf_eval(3); if (o3[0] != (double)w.min || o3[1] != (double)w.max || !near(o3[2], w.max - w.min, w.absmax)) vf_fail(K("samples_range"), "%g %g %g", o3[0], o3[1], o3[2]);
  expect(K("samples_mean"), "mean", CALL(sp_stat_samples_mean, a), w.mean, w.absmax, n);
  expect(K("samples_deviation"), "deviation", CALL(sp_stat_samples_deviation, a), w.dev, w.absmax * 1e-3, n);
  expect(K("samples_median"), "median", CALL(sp_stat_samples_median, a), w.median, w.absmax, n);
  if (w.dev > 1e-3 * w.absmax) { /* moments of nearly constant data are dominated by rounding */
    expect(K("samples_skewness"), "skewness", CALL(sp_stat_samples_skewness, a), w.skew, 1, n);
    expect(K("samples_kurtosis"), "kurtosis", CALL(sp_stat_samples_kurtosis, a), w.kurt, 1, n); vf_count("moments of samples", 1);
  }
  if (positive) { expect(K("samples_center"), "center", CALL(sp_stat_samples_center, a), w.center, (ld)n, n);
    if (n < 200) expect(K("samples_inharmonicity"), "inharmonicity", CALL(sp_stat_samples_inharmonicity, a), w.inharm, 100, n); }
  vf_ledger_end_empty(K("leak"), "statistics of samples");
  same_mem(K("input"), "statistics of samples", a, copy, n * 8);
  /* mapping to times */
  if (spread > 1e-6 || w.min > 0) {
    sp_time_t max = (sp_time_t)(vf_chance(r, .3) ? vf_below(r, 10) : vf_below(r, 1000000)), *t = out_times(n);
    sp_samples_scale_to_times(a, n, max, t); guards_ok(K("scale_to_times"), "scale_to_times", t); same_mem(K("input"), "scale_to_times", a, copy, n * 8);
    size_t imax = 0, imin = 0; for (size_t i = 0; i < n; i++) { if (a[i] > a[imax]) imax = i; if (a[i] < a[imin]) imin = i; }
    vf_eval(n + 1);
    if (t[imax] != max) vf_fail(K("scale_to_times"), "largest value of %zu (%g, smallest %g) became %u, expected %u", n, a[imax], a[imin], t[imax], max);
    else { int bad = 0; ld add = w.min < 0 ? -w.min : 0, f = max / (w.max + add); for (size_t i = 0; i < n && !bad; i++) { if (t[i] > max || t[i] < t[imin]) bad = 1; else if (!is_rounded(t[i], (double)((a[i] + add) * f)) && !near(t[i], (a[i] + add) * f, max)) bad = 1; if (i && ((a[i] < a[i - 1] && t[i] > t[i - 1]) || (a[i] > a[i - 1] && t[i] < t[i - 1]))) bad = 1; if (bad) vf_fail(K("scale_to_times"), "index %zu of %zu: %g became %u (min %Lg max %Lg target %u)", i, n, a[i], t[i], w.min, w.max, max); } }
    vf_guarded_free(t); vf_count(w.min > 0 ? "scale_to_times above zero" : "scale_to_times across zero", 1);
  }
  vf_sig(vf_hash(a, n * 8, 1)); vf_count(n & 1 ? "odd sizes" : "even sizes", 1);
  if (ix < 2) vf_sample("samples n=%zu: mean %.6Lg deviation %.6Lg median %.6Lg skewness %.6Lg", n, w.mean, w.dev, w.median, w.skew);
  vf_guarded_free(a); vf_guarded_free(copy);
}
static void t_times(vf_rng* r, uint64_t ix) {
  size_t n = vf_size_big(r, ix, 600, 1, 401); uint64_t hi = vf_chance(r, .3) ? UINT32_MAX : vf_chance(r, .5) ? 1000 : 10; int wide = hi == UINT32_MAX;
  sp_time_t* a = gen_times(r, n, vf_chance(r, .5), hi), *copy; if (!a[0]) a[0] = 1; EDGE(sp_time_t, a, n); if (!a[0]) a[0] = 1; copy = dup_times(a, n);
  double* d = vf_malloc(n * 8); uint64_t zeros = 0; for (size_t i = 0; i < n; i++) { d[i] = a[i]; zeros += !a[i]; }
  want_t w = definition(d, n); double o3[3] = {0};
  vf_ledger_begin();
  if (sp_stat_times_range(a, n, o3)) vf_fail(K("status"), "range");
  vf_eval(3); if (o3[0] != (double)w.min || o3[1] != (double)w.max || o3[2] != (double)(w.max - w.min)) vf_fail(K("times_range"), "%g %g %g", o3[0], o3[1], o3[2]);
  expect(K("times_mean"), "mean", CALL(sp_stat_times_mean, a), w.mean, 0, n);
  expect(K("times_deviation"), "deviation", CALL(sp_stat_times_deviation, a), w.dev, w.absmax * 1e-3, n);
  expect(K("times_median"), "median", CALL(sp_stat_times_median, a), w.median, 0, n);
  if (w.dev > 1e-3 * w.absmax) {
    expect(K("times_skewness"), "skewness", CALL(sp_stat_times_skewness, a), w.skew, 1, n);
    expect(K("times_kurtosis"), "kurtosis", CALL(sp_stat_times_kurtosis, a), w.kurt, 1, n); vf_count("moments of times", 1);
  }
  { double c = CALL(sp_stat_times_center, a); vf_eval(1);
    /* the recorded finding is exactly this value, anything else is another violation */
    if (!near(c, w.center, 0)) { if (near(c, w.center2, 0)) vf_fail(K("times_center:first-counted-twice"), "center of %zu values is %.17g, expected %.17Lg", n, c, w.center); else vf_fail(K("times_center"), "center of %zu values is %.17g, expected %.17Lg", n, c, w.center); } }
  if (!zeros && n < 200) expect(K("times_inharmonicity"), "inharmonicity", CALL(sp_stat_times_inharmonicity, a), w.inharm, wide ? 1000 : 1, n);
  vf_ledger_end_empty(K("leak"), "statistics of times");
  same_mem(K("input"), "statistics of times", a, copy, n * 4);
  /* independent of the order */
  double mean = CALL(sp_stat_times_mean, a), med = CALL(sp_stat_times_median, a), dev = CALL(sp_stat_times_deviation, a);
  for (size_t i = n; i > 1; i--) { size_t j = vf_below(r, i); sp_time_t t = a[i - 1]; a[i - 1] = a[j]; a[j] = t; }
  vf_eval(3); if (!near(CALL(sp_stat_times_mean, a), mean, 0) || CALL(sp_stat_times_median, a) != med || !near(CALL(sp_stat_times_deviation, a), dev, w.absmax * 1e-3)) vf_fail(K("order"), "statistics of %zu times depend on the order", n);
  vf_sig(vf_hash(a, n * 4, 2)); vf_count(n & 1 ? "odd sizes" : "even sizes", 1); if (wide) vf_count("arrays whose sum exceeds 32 bit", 1);
  if (ix < 2) vf_sample("times n=%zu: mean %.6Lg median %.6Lg center %.6Lg", n, w.mean, w.median, w.center);
  vf_guarded_free(a); vf_guarded_free(copy); vf_free(d);
}
/* values far away from zero compared to how much they differ: the spread must not drown in the rounding of large squares */
static void t_offset(vf_rng* r, uint64_t ix) {
  size_t n = 2 + vf_size(r, 0, 200); uint64_t base = vf_chance(r, .5) ? 4000000000u : 1000000 + vf_below(r, 4000000000u), range = 1 + vf_below(r, vf_chance(r, .5) ? 3 : 1000); if (base + range > UINT32_MAX) base = UINT32_MAX - range;
  sp_time_t* t = out_times(n); double* a = out_samples(n); int negative = vf_chance(r, .5); double f = pow(2, -(double)vf_below(r, 30));
  for (size_t i = 0; i < n; i++) { t[i] = (sp_time_t)(base + vf_below(r, range + 1)); } t[0] = (sp_time_t)base; t[1] = (sp_time_t)(base + range);
  double* d = vf_malloc(n * 8); for (size_t i = 0; i < n; i++) d[i] = t[i], a[i] = (negative ? -f : f) * t[i];
  for (int times = 0; times < 2; times++) {
    double* v = times ? d : a; want_t w = definition(v, n); ld e = (n + 10) * 4.0L * DBL_EPSILON * w.absmax, m = 40 * e / w.dev * (1 + w.kurt);
    double dev, skew, kurt, mean;
    if (times) { dev = CALL(sp_stat_times_deviation, t); skew = CALL(sp_stat_times_skewness, t); kurt = CALL(sp_stat_times_kurtosis, t); mean = CALL(sp_stat_times_mean, t); }
    else { dev = CALL(sp_stat_samples_deviation, a); skew = CALL(sp_stat_samples_skewness, a); kurt = CALL(sp_stat_samples_kurtosis, a); mean = CALL(sp_stat_samples_mean, a); }
    vf_eval(4); const char* what = times ? "times" : "samples";
    if (!(fabsl(mean - w.mean) <= e)) vf_fail(times ? K("times_mean") : K("samples_mean"), "mean of %zu %s between %.17Lg and %.17Lg is %.17g", n, what, w.min, w.max, mean);
    if (!(fabsl(dev - w.dev) <= e)) vf_fail(times ? K("times_deviation") : K("samples_deviation"), "deviation of %zu %s between %.17Lg and %.17Lg is %.17g, expected %.17Lg", n, what, w.min, w.max, dev, w.dev);
    if (m < .1L && !(fabsl(skew - w.skew) <= m)) vf_fail(times ? K("times_skewness") : K("samples_skewness"), "skewness of %zu %s between %.17Lg and %.17Lg is %.17g, expected %.17Lg", n, what, w.min, w.max, skew, w.skew);
    if (m < .1L && !(fabsl(kurt - w.kurt) <= m)) vf_fail(times ? K("times_kurtosis") : K("samples_kurtosis"), "kurtosis of %zu %s between %.17Lg and %.17Lg is %.17g, expected %.17Lg", n, what, w.min, w.max, kurt, w.kurt);
    if (m < .1L) vf_count("moments of values with a large offset", 1);
    if (ix < 1) vf_sample("%zu %s between %.10Lg and %.10Lg: deviation %.10Lg skewness %.6Lg (tolerance %.2Lg)", n, what, w.min, w.max, w.dev, w.skew, m);
  }
  vf_sig(vf_hash(d, n * 8, 3)); vf_guarded_free(t); vf_guarded_free(a); vf_free(d);
}
/* sorting for medians must not need a stack that grows with the array. threads have small stacks */
#include <pthread.h>
typedef struct { double* a; sp_time_t* t; sp_time_t n; double ma, mt; uint8_t failed; } deep_t;
static void* deep_run(void* p) { deep_t* d = p; d->failed = sp_stat_samples_median(d->a, d->n, &d->ma); if (d->t) d->failed |= sp_stat_times_median(d->t, d->n, &d->mt); return 0; }
static int cmp_double(const void* a, const void* b) { double x = *(const double*)a, y = *(const double*)b; return x < y ? -1 : x > y; }
/* values that are chosen while they are compared so that every pivot is extreme (mcilroy, a killer adversary for quicksort) */
__attribute__((weak)) void quicksort(uint8_t (*less)(void*, ssize_t, ssize_t), void (*swap)(void*, ssize_t, ssize_t), void* array, ssize_t left, ssize_t right);
static int *gas_value, gas_solid, gas_candidate, gas;
static uint8_t gas_less(void* p, ssize_t i, ssize_t j) { int x = ((int*)p)[i], y = ((int*)p)[j]; if (gas_value[x] == gas && gas_value[y] == gas) { if (x == gas_candidate) gas_value[x] = gas_solid++; else gas_value[y] = gas_solid++; } if (gas_value[x] == gas) gas_candidate = x; else if (gas_value[y] == gas) gas_candidate = y; return gas_value[x] < gas_value[y]; }
static void gas_swap(void* p, ssize_t i, ssize_t j) { int* a = p; int t = a[i]; a[i] = a[j]; a[j] = t; }
static void adversary(double* out, sp_time_t n) {
  int* order = vf_malloc(n * sizeof(int)); gas_value = vf_malloc(n * sizeof(int)); gas = (int)n; gas_solid = gas_candidate = 0; for (sp_time_t i = 0; i < n; i++) { order[i] = (int)i; gas_value[i] = gas; }
  if (quicksort) quicksort(gas_less, gas_swap, order, 0, (ssize_t)n - 1); for (sp_time_t i = 0; i < n; i++) out[i] = gas_value[i]; vf_free(order); vf_free(gas_value);
}
static void t_deep(vf_rng* r, uint64_t ix) {
  int kind = (int)(ix % 10); sp_time_t n = (kind > 7 ? 12000 : kind == 0 ? 20000 : 30000) + (sp_time_t)vf_below(r, 200); deep_t d = {.n = n}; d.a = out_samples(n); d.t = out_times(n); static const char* kinds[] = {"triangle", "ascending", "descending", "constant", "valley", "repeated ramp", "random", "swapped ends", "adverse", "reversed adverse"};
  double* adverse = 0; if (kind > 7) { adverse = vf_malloc(n * 8); adversary(adverse, n); }
  for (sp_time_t i = 0; i < n; i++) { double x = kind == 8 ? adverse[i] : kind == 9 ? n - adverse[i] : kind == 0 ? (i < n / 2 ? i : n - i) : kind == 1 ? i : kind == 2 ? n - i : kind == 3 ? 7 : kind == 4 ? (i < n / 2 ? n - i : i) : kind == 5 ? i % 100 : kind == 6 ? vf_below(r, 100000) : i == 0 ? n : i == n - 1 ? 0 : i; d.t[i] = (sp_time_t)x; d.a[i] = x - n / 3.; }
  double* s = vf_malloc(n * 8); memcpy(s, d.a, n * 8); qsort(s, n, 8, cmp_double); double w = n & 1 ? s[n / 2] : (s[n / 2] + s[n / 2 - 1]) / 2, wt = w + n / 3.;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, kind > 7 && !strcmp(vf_build, "rel") ? 160 << 10 : 512 << 10); pthread_t th; if (pthread_create(&th, &at, deep_run, &d)) vf_error("thread"); pthread_join(th, 0); pthread_attr_destroy(&at);
  vf_eval(3); if (d.failed) vf_fail(K("status"), "median of %u %s values failed", n, kinds[kind]); else { if (!(fabs(d.ma - w) <= 1e-6)) vf_fail(K("samples_median"), "median of %u %s samples is %.17g, expected %.17g", n, kinds[kind], d.ma, w); if (!(fabs(d.mt - wt) <= 1e-6)) vf_fail(K("times_median"), "median of %u %s times is %.17g, expected %.17g", n, kinds[kind], d.mt, wt); }
  vf_sig(vf_mix(n, (uint64_t)kind)); vf_count("long medians", 1); if (ix < 1) vf_sample("median of %u %s values with a stack of 512 kB", n, kinds[kind]); vf_free(s); if (adverse) vf_free(adverse); vf_guarded_free(d.a); vf_guarded_free(d.t);
}
vf_suite vf_suites[] = {{"deep", t_deep, 20, 200}, {"offset", t_offset, 1500, 30000}, {"samples", t_samples, 2400, 60000}, {"times", t_times, 2400, 60000}, {0}};
