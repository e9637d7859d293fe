/* A04: random array operations only rearrange or select, without bias */
#include "gen.h"
#include "chi.h"
void vf_setup(void) {}
#define K(f) "A04:" f
static void seed_global(vf_rng* r) { sp_random_state = sp_random_state_new((sp_time_t)vf_u64(r)); }
static int cmp_d(const void* a, const void* b) { double x = *(const double*)a, y = *(const double*)b; return x < y ? -1 : x > y; }
static int cmp_t(const void* a, const void* b) { sp_time_t x = *(const sp_time_t*)a, y = *(const sp_time_t*)b; return x < y ? -1 : x > y; }
static void swap_pairs(void* a, sp_size_t i, sp_size_t j) { uint64_t t[2]; memcpy(t, (uint64_t*)a + 2 * i, 16); memcpy((uint64_t*)a + 2 * i, (uint64_t*)a + 2 * j, 16); memcpy((uint64_t*)a + 2 * j, t, 16); }

static void t_shuffle(vf_rng* r, uint64_t ix) {
  size_t n = vf_size_big(r, ix, 500, 1, 2000); seed_global(r); sp_random_state_t st = sp_random_state;
  sp_time_t* t = gen_times(r, n, 0, UINT32_MAX); sp_time_t* t0 = dup_times(t, n); sp_time_t* t1 = dup_times(t, n);
  sp_times_shuffle(t, n); guards_ok(K("times_shuffle"), "array", t); sp_random_state = st; sp_times_shuffle(t1, n); vf_eval(2);
  if (memcmp(t, t1, n * 4)) vf_fail(K("times_shuffle"), "different results with the same random state");
  qsort(t, n, 4, cmp_t); qsort(t0, n, 4, cmp_t); if (memcmp(t, t0, n * 4)) vf_fail(K("times_shuffle"), "values of %zu elements changed", n);
  sp_sample_t* d = gen_samples(r, n, -1, 1); sp_sample_t* d0 = dup_samples(d, n); sp_sample_t* d1 = dup_samples(d, n); st = sp_random_state;
  sp_samples_shuffle(d, n); guards_ok(K("samples_shuffle"), "array", d); sp_random_state = st; sp_samples_shuffle(d1, n); vf_eval(2);
  if (memcmp(d, d1, n * 8)) vf_fail(K("samples_shuffle"), "different results with the same random state");
  qsort(d, n, 8, cmp_d); qsort(d0, n, 8, cmp_d); if (memcmp(d, d0, n * 8)) vf_fail(K("samples_shuffle"), "values of %zu elements changed", n);
  { /* any element type through the generic function */
    uint64_t* p = vf_guarded(n * 16); for (size_t i = 0; i < n; i++) { p[2 * i] = i; p[2 * i + 1] = ~i; } sp_shuffle(swap_pairs, p, n); guards_ok(K("shuffle"), "array", p);
    uint8_t* seen = vf_calloc(n); vf_eval(n); for (size_t i = 0; i < n; i++) if (p[2 * i] >= n || p[2 * i + 1] != ~p[2 * i] || seen[p[2 * i]]++) { vf_fail(K("shuffle"), "element %zu is lost or torn", i); break; } vf_free(seen);
    sp_time_t** q = vf_guarded(n * sizeof *q); for (size_t i = 0; i < n; i++) q[i] = (sp_time_t*)(uintptr_t)(i + 1); sp_shuffle(sp_times_shuffle_swap, q, n); guards_ok(K("shuffle"), "array", q); uint64_t x = 0, y = 0; for (size_t i = 0; i < n; i++) { x += (uintptr_t)q[i]; y += ((uintptr_t)q[i]) * (uintptr_t)q[i]; }
    uint64_t m = n; if (x != m * (m + 1) / 2 || y != m * (m + 1) * (2 * m + 1) / 6) vf_fail(K("times_shuffle_swap"), "arrays lost in %zu", n);
    vf_guarded_free(p); vf_guarded_free(q); }
  vf_sig(vf_hash(t0, n * 4, n)); if (ix < 1) vf_sample("shuffled %zu elements of four types", n);
  vf_guarded_free(t); vf_guarded_free(t0); vf_guarded_free(t1); vf_guarded_free(d); vf_guarded_free(d0); vf_guarded_free(d1);
}
static size_t perm_rank(const int* p, int n) { size_t k = 0; for (int i = 0; i < n; i++) { int c = 0; for (int j = i + 1; j < n; j++) c += p[j] < p[i]; k = k * (size_t)(n - i) + (size_t)c; } return k; }
static void t_shuffle_uniform(vf_rng* r, uint64_t ix) {
  int n = 2 + (int)(ix % 4); size_t all = 1; for (int i = 2; i <= n; i++) all *= (size_t)i; uint64_t* c = vf_calloc(all * 8); seed_global(r); size_t runs = 24000; double z; int kind = (int)(ix / 4 % 2);
  for (size_t k = 0; k < runs; k++) { int p[8]; if (kind) { double a[8]; for (int i = 0; i < n; i++) a[i] = i + .25; sp_samples_shuffle(a, n); for (int i = 0; i < n; i++) p[i] = (int)a[i]; } else { sp_time_t a[8]; for (int i = 0; i < n; i++) a[i] = (sp_time_t)i; sp_times_shuffle(a, n); for (int i = 0; i < n; i++) p[i] = (int)a[i]; }
    size_t id = perm_rank(p, n); if (id >= all) { vf_fail(K("shuffle"), "not a permutation"); break; } c[id]++; }
  vf_eval(1); if (!chi_fits(c, 0, all, &z)) vf_fail(K("shuffle-uniform"), "orders of %d elements are not equally frequent, z %g", n, z);
  vf_sig(vf_mix(vf_mix(9, ix), vf_u64(r))); vf_count("shuffles counted", runs); if (ix < 2) vf_sample("%zu shuffles of %d elements over %zu orders, z %.2f", runs, n, all, z);
  vf_free(c);
}
static void t_select(vf_rng* r, uint64_t ix) {
  size_t n = vf_size_big(r, ix, 500, 1, 600); seed_global(r); sp_random_state_t st = sp_random_state; sp_time_t* a = vf_guarded(n * 4); uint64_t v = 0; for (size_t i = 0; i < n; i++) a[i] = (sp_time_t)(v += 1 + vf_below(r, 1000)); for (size_t i = n; i > 1; i--) { size_t j = vf_below(r, i); sp_time_t t = a[i - 1]; a[i - 1] = a[j]; a[j] = t; }
  sp_time_t* a0 = dup_times(a, n); sp_time_t* o = out_times(n); sp_time_t on = 999999;
  vf_ledger_begin(); sp_times_select_random(a, n, o, &on); vf_ledger_end_empty(K("select_random-memory"), "select_random");
  guards_ok(K("select_random"), "out", o); same_mem(K("select_random"), "in", a, a0, n * 4); vf_eval(2);
  if (on > n) vf_fail(K("select_random"), "%u of %zu selected", on, n);
  else { size_t j = 0; for (size_t i = 0; i < n && j < on; i++) if (o[j] == a[i]) j++; if (j != on) vf_fail(K("select_random"), "result is not a subsequence of %zu elements", n);
    sp_time_t* o2 = out_times(n); sp_time_t on2 = 0; sp_random_state = st; sp_times_select_random(a, n, o2, &on2); if (on != on2 || memcmp(o, o2, on * 4)) vf_fail(K("select_random"), "different results with the same random state"); vf_guarded_free(o2); }
  if (ix % 8 == 0) { sp_time_t* b = out_times(1); sp_time_t none = 7; b[0] = 77; vf_ledger_begin(); sp_times_random_binary(0, b); sp_times_select_random(a, 0, b, &none); vf_ledger_end_empty(K("select_random-memory"), "selecting from nothing"); guards_ok(K("select_random"), "out", b); vf_eval(2); if (none || b[0] != 77) vf_fail(K("select_random"), "%u selected of nothing", none); vf_guarded_free(b); vf_count("selections of nothing", 1); }
  { sp_time_t* b = out_times(n); vf_ledger_begin(); status_t s = sp_times_random_binary(n, b); vf_ledger_end_empty(K("random_binary-memory"), "random_binary"); guards_ok(K("random_binary"), "out", b); vf_eval(n); if (s.id) vf_fail(K("random_binary"), "failed"); for (size_t i = 0; i < n; i++) if (b[i] > 1) { vf_fail(K("random_binary"), "value %u at %zu", b[i], i); break; } vf_guarded_free(b); }
  vf_sig(vf_hash(a, n * 4, n)); if (ix < 1) vf_sample("selected %u of %zu elements", on, n);
  vf_guarded_free(a); vf_guarded_free(a0); vf_guarded_free(o);
}
static void t_select_uniform(vf_rng* r, uint64_t ix) {
  /* all subsets of some positions of a longer array are equally frequent */
  size_t n = ix % 2 ? 5 : 6 + vf_below(r, 90), k = 5, pos[5], runs = 16000; for (size_t i = 0; i < k; i++) pos[i] = n == 5 ? i : i * (n / k) + vf_below(r, n / k); seed_global(r);
  uint64_t c[32] = {0}, cb[32] = {0}; double z; sp_time_t* a = vf_guarded(n * 4); for (size_t i = 0; i < n; i++) a[i] = (sp_time_t)i; sp_time_t* o = out_times(n); sp_time_t* b = out_times(n);
  for (size_t m = 0; m < runs; m++) { sp_time_t on = 0; sp_times_select_random(a, n, o, &on); size_t id = 0; for (size_t i = 0; i < on && i < n; i++) for (size_t q = 0; q < k; q++) if (o[i] == pos[q]) id |= 1u << q; c[id]++;
    sp_times_random_binary(n, b); id = 0; for (size_t q = 0; q < k; q++) if (b[pos[q]]) id |= 1u << q; cb[id]++; }
  vf_eval(2); if (!chi_fits(c, 0, 32, &z)) vf_fail(K("select_random-uniform"), "selections of positions in %zu are not equally frequent, z %g", n, z); if (!chi_fits(cb, 0, 32, &z)) vf_fail(K("random_binary-uniform"), "combinations of positions in %zu are not equally frequent, z %g", n, z);
  vf_sig(vf_mix(vf_mix(10, n), vf_u64(r))); vf_count("selections counted", runs); if (ix < 2) vf_sample("%zu selections of %zu positions, z %.2f", runs, n, z);
  vf_guarded_free(a); vf_guarded_free(o); vf_guarded_free(b);
}
static void t_discrete(vf_rng* r, uint64_t ix) {
  size_t n = 1 + vf_below(r, 20); double w[20]; sp_time_t* cu = vf_guarded(n * 4); sp_time_t sum = 0; size_t nz = 0; int big = vf_chance(r, .3);
  for (size_t i = 0; i < n; i++) { sp_time_t x = vf_chance(r, .25) ? 0 : (sp_time_t)(1 + vf_below(r, big ? 100000000 : 10)); if (i == n - 1 && !nz && !x) x = 1; if (x) nz++; w[i] = x; cu[i] = sum += x; }
  sp_time_t* cu0 = dup_times(cu, n); seed_global(r); sp_random_state_t st = sp_random_state; size_t runs = 6000; double z;
  sp_time_t* o = out_times(runs); sp_times_random_discrete(cu, n, runs, o); guards_ok(K("random_discrete"), "out", o); same_mem(K("random_discrete"), "cudist", cu, cu0, n * 4);
  uint64_t c[20] = {0}; int ok = 1; vf_eval(runs); for (size_t i = 0; i < runs; i++) { if (o[i] >= n || w[o[i]] == 0) { vf_fail(K("random_discrete"), "%u of %zu possible values, weight zero or out of range", o[i], n); ok = 0; break; } c[o[i]]++; }
  if (ok && !chi_fits(c, w, n, &z)) vf_fail(K("random_discrete-distribution"), "does not follow the distribution of %zu values, z %g", n, z);
  { sp_time_t* o2 = out_times(runs); sp_random_state = st; sp_times_random_discrete(cu, n, runs, o2); vf_eval(1); if (memcmp(o, o2, runs * 4)) vf_fail(K("random_discrete"), "different results with the same random state"); vf_guarded_free(o2); }
  memset(c, 0, sizeof c); uint64_t cb[20] = {0}, cs[20] = {0}; sp_time_t range = (sp_time_t)(n > 1 ? (n - 1) * (1 + vf_below(r, 5000)) : 10); double srange = vf_real(r, .1, 100);
  for (size_t i = 0; i < runs; i++) {
    sp_time_t x = sp_time_random_discrete(cu, n); if (x >= n) { vf_fail(K("time_random_discrete"), "%u of %zu", x, n); break; } c[x]++;
    if (n > 1) { sp_time_t b = sp_time_random_discrete_bounded(cu, n, range); size_t step = range / (n - 1), bi = (b + step / 2) / step; if (b > range || bi >= n || fabs((double)b - (double)range * bi / (n - 1)) > .5001) { vf_fail(K("time_random_discrete_bounded"), "%u of range %u with %zu values", b, range, n); break; } cb[bi]++; }
    double s = sp_sample_random_discrete_bounded(cu, n, srange); size_t si = (size_t)(s / srange * n + .5); if (!(s >= 0 && s < srange) || si >= n || !vf_near(s, srange * si / n, 1e-9)) { vf_fail(K("sample_random_discrete_bounded"), "%g of range %g with %zu values", s, srange, n); break; } cs[si]++; }
  vf_eval(3 * runs);
  if (!chi_fits(c, w, n, &z)) vf_fail(K("time_random_discrete-distribution"), "does not follow the distribution, z %g", z);
  if (n > 1 && !chi_fits(cb, w, n, &z)) vf_fail(K("time_random_discrete_bounded-distribution"), "does not follow the distribution, z %g", z);
  if (!chi_fits(cs, w, n, &z)) vf_fail(K("sample_random_discrete_bounded-distribution"), "does not follow the distribution, z %g", z);
  { /* unique draws. values without weight can not be drawn */
    double first[20] = {0}; uint64_t cf[20] = {0}; (void)first; size_t size = 1 + vf_below(r, nz);
    if (!big) for (size_t k = 0; k < 1500; k++) { sp_time_t* u = out_times(size); sp_times_random_discrete_unique(cu, n, size, u); int bad = !vf_guard_check(u); for (size_t i = 0; i < size; i++) { if (u[i] >= n || w[u[i]] == 0) bad = 1; for (size_t j = 0; j < i; j++) if (u[i] == u[j]) bad = 1; } vf_eval(1); if (!bad) cf[u[0]]++; vf_guarded_free(u); if (bad) { vf_fail(K("random_discrete_unique"), "%zu of %zu values: repeated or out of range", size, n); break; } }
    if (!big && !chi_fits(cf, w, n, &z)) vf_fail(K("random_discrete_unique-distribution"), "first values do not follow the distribution, z %g", z); }
  vf_sig(vf_hash(cu, n * 4, n)); vf_count("discrete draws", runs * 4); if (ix < 2) vf_sample("discrete distribution over %zu values with sum %u, z %.2f", n, sum, z);
  vf_guarded_free(cu); vf_guarded_free(cu0); vf_guarded_free(o);
}
/* many possible values and many draws */
static void t_discrete_large(vf_rng* r, uint64_t ix) {
  size_t n = ix % 2 ? 66000 + vf_below(r, 5000) : 2 + vf_below(r, 3), runs = ix % 2 ? 3000 : 65600 + vf_below(r, 3000); sp_time_t* cu = vf_guarded(n * 4); for (size_t i = 0; i < n; i++) cu[i] = (sp_time_t)(i + 1) * 3; seed_global(r);
  sp_time_t* o = out_times(runs); for (size_t i = 0; i < runs; i++) o[i] = 0xdddddddd; sp_times_random_discrete(cu, n, runs, o); guards_ok(K("random_discrete"), "out", o); double sum = 0, one = 0; size_t high = 0; vf_eval(runs + 2);
  for (size_t i = 0; i < runs; i++) { if (o[i] >= n) { vf_fail(K("random_discrete"), "draw %zu of %zu is %u of %zu possible values", i, runs, o[i], n); break; } sum += o[i]; if (o[i] >= n - n / 20) high++; }
  double m = sum / (double)runs, sd = (double)n / sqrt(12.0 * (double)runs); if (fabs(m - (double)(n - 1) / 2) > 7 * sd) vf_fail(K("random_discrete-distribution"), "%zu draws of %zu equally likely values have the mean %g", runs, n, m);
  if (n > 1000 && !high) vf_fail(K("random_discrete-distribution"), "none of %zu draws of %zu values is one of the highest", runs, n);
  size_t draws = 400; high = 0; for (size_t i = 0; i < draws; i++) { sp_time_t x = sp_time_random_discrete(cu, n); if (x >= n) { vf_fail(K("time_random_discrete"), "%u of %zu", x, n); break; } one += x; }
  if (fabs(one / (double)draws - (double)(n - 1) / 2) > 7 * (double)n / sqrt(12.0 * (double)draws)) vf_fail(K("time_random_discrete-distribution"), "%zu draws of %zu equally likely values have the mean %g", draws, n, one / (double)draws);
  vf_count("large discrete distributions", 1); vf_sig(vf_hash(o, runs * 4, 7)); vf_guarded_free(cu); vf_guarded_free(o);
}
/* beyond 16 bits: shuffled elements reach all regions equally often, and so do random bits */
static void t_shuffle_large(vf_rng* r, uint64_t ix) {
  size_t n = 66000 + vf_below(r, ix % 2 ? 5000 : 100000), moved[4][4] = {{0}}; seed_global(r); sp_time_t* a = vf_guarded(n * 4); for (size_t i = 0; i < n; i++) a[i] = (sp_time_t)i; sp_time_t cut[5] = {0, (sp_time_t)(n - 65536) / 2, (sp_time_t)(n - 65536), 65536, (sp_time_t)n}; if (n > 131072) cut[2] = (sp_time_t)n - 65536 + 1, cut[1] = 65536 / 2, cut[3] = 65536 > cut[2] ? 65536 : cut[2] + 1;
  sp_times_shuffle(a, n); guards_ok(K("times_shuffle"), "array", a); vf_eval(17);
  for (size_t i = 0; i < n; i++) { if (a[i] >= n) { vf_fail(K("times_shuffle"), "another value"); break; } int x = 0, y = 0; while (x < 3 && i >= cut[x + 1]) x++; while (y < 3 && a[i] >= cut[y + 1]) y++; moved[y][x]++; }
  for (int y = 0; y < 4; y++) for (int x = 0; x < 4; x++) { double p = (cut[y + 1] - cut[y]) / (double)n, q = (cut[x + 1] - cut[x]) / (double)n, want = n * p * q, dev = sqrt(n * p * q * (1 - p) * (1 - q)) + 1; if (fabs(moved[y][x] - want) > 8 * dev) { vf_fail(K("shuffle-uniform"), "%zu of %zu elements moved from region %d to %d, expected about %g", moved[y][x], n, y, x, want); x = y = 4; } }
  vf_guarded_free(a); if (ix % 8 == 0) { size_t k = 2100000 + vf_below(r, 100000), ones[8] = {0}; sp_time_t* b = out_times(k); vf_ledger_begin(); status_t s = sp_times_random_binary(k, b); vf_ledger_end_empty(K("random_binary-memory"), "random_binary"); guards_ok(K("random_binary"), "out", b); vf_eval(k); if (s.id) vf_fail(K("random_binary"), "failed"); else for (size_t i = 0; i < k; i++) { if (b[i] > 1) { vf_fail(K("random_binary"), "value %u at %zu", b[i], i); break; } ones[i * 8 / k] += b[i]; }
    for (int i = 0; i < 8; i++) if (!s.id && fabs(ones[i] - k / 16.) > 8 * sqrt(k / 32.)) { vf_fail(K("random_binary-uniform"), "%zu ones in an eighth of %zu", ones[i], k); break; } vf_guarded_free(b); vf_count("long random bit arrays", 1); }
  vf_count("long shuffles", 1); vf_sig(vf_mix(n, ix)); if (ix < 1) vf_sample("%zu elements shuffled, %zu from the last to the first region", n, moved[3][0]);
}
vf_suite vf_suites[] = {{"shuffle-large", t_shuffle_large, 8, 200}, {"discrete-large", t_discrete_large, 4, 60}, {"shuffle", t_shuffle, 1500, 60000}, {"shuffle-uniform", t_shuffle_uniform, 24, 600}, {"select", t_select, 2000, 60000}, {"select-uniform", t_select_uniform, 16, 400}, {"discrete", t_discrete, 150, 6000}, {0}};
