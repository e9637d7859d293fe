/* A03: enumerations are complete, duplicate free and match their counts */
#include "gen.h"
void vf_setup(void) { vf_ledger_large(); }
#define K(f) "A03:" f
static int cmp_rows_n;
static int cmp_rows(const void* a, const void* b) {
  const sp_time_t* x = *(sp_time_t* const*)a; const sp_time_t* y = *(sp_time_t* const*)b;
  for (int i = 0; i < cmp_rows_n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
static int cmp_t(const void* a, const void* b) { sp_time_t x = *(const sp_time_t*)a, y = *(const sp_time_t*)b; return x < y ? -1 : x > y; }
static uint64_t fact(uint64_t n) { uint64_t a = 1; while (n > 1) a *= n--; return a; }
static uint64_t ipow(uint64_t b, uint64_t e) { uint64_t a = 1; while (e--) a *= b; return a; }

static void t_permutations(vf_rng* r, uint64_t ix) {
  size_t n = 1 + (vf_thorough ? ix % 9 : ix == 25 && !strcmp(vf_build, "rel") ? 8 : ix % 7); sp_time_t* set = vf_guarded(n * 4); uint64_t base = vf_below(r, 100);
  for (size_t i = 0; i < n; i++) set[i] = (sp_time_t)(base += 1 + vf_below(r, 1000));
  for (size_t i = n; i > 1; i--) { size_t j = vf_below(r, i); sp_time_t t = set[i - 1]; set[i - 1] = set[j]; set[j] = t; }
  sp_time_t* set0 = dup_times(set, n); sp_time_t** out = 0; sp_time_t out_size = 0;
  vf_ledger_begin();
  status_t s = sp_times_permutations(n, set, n, &out, &out_size);
  same_mem(K("permutations-input"), "set", set, set0, n * 4); vf_eval(3);
  if (s.id) vf_fail(K("permutations"), "failed with %d", s.id);
  else {
    if (out_size != fact(n)) vf_fail(K("permutations-count"), "%u permutations of %zu elements", out_size, n);
    if (out_size != sp_permutations_max(n, n)) vf_fail(K("permutations_max"), "sp_permutations_max(%zu, %zu) is %u, %u were generated", n, n, sp_permutations_max(n, n), out_size);
    qsort(set0, n, 4, cmp_t); sp_time_t* t = vf_malloc(n * 4);
    for (size_t i = 0; i < out_size; i++) {
      if (!vf_ledger_owns(out[i])) { vf_fail(K("permutations-memory"), "element %zu is not an allocation of its own", i); goto done; }
      memcpy(t, out[i], n * 4); qsort(t, n, 4, cmp_t);
      if (memcmp(t, set0, n * 4)) { vf_fail(K("permutations"), "element %zu of size %zu is not a permutation of the set", i, n); break; }
    }
    cmp_rows_n = (int)n; qsort(out, out_size, sizeof *out, cmp_rows);
    for (size_t i = 1; i < out_size; i++) if (!cmp_rows(&out[i - 1], &out[i])) { vf_fail(K("permutations"), "a permutation of size %zu is repeated", n); break; }
    vf_eval(2 * out_size); vf_count("permutations", out_size);
    sp_times_array_free(out, out_size);
    done: vf_free(t);
  }
  vf_ledger_end_empty(K("permutations-memory"), "permutations and array_free");
  vf_sig(vf_hash(set, n * 4, 4));
  if (ix == 4) vf_sample("%u permutations of %zu elements starting with %u", out_size, n, set[0]);
  vf_guarded_free(set); vf_guarded_free(set0);
}
static void t_compositions(vf_rng* r, uint64_t ix) {
  sp_time_t sum = ix == 25 && !strcmp(vf_build, "rel") ? 18 : 1 + (sp_time_t)(ix % (vf_thorough ? 19 : 15)); sp_time_t** out = 0; sp_time_t out_size = 0; sp_time_t* sizes = 0; (void)r;
  vf_ledger_begin();
  status_t s = sp_times_compositions(sum, &out, &out_size, &sizes); vf_eval(3);
  if (s.id) vf_fail(K("compositions"), "failed with %d", s.id);
  else {
    uint64_t want = 1ULL << (sum - 1);
    if (out_size != want) vf_fail(K("compositions-count"), "%u compositions of %u", out_size, sum);
    if (sp_compositions_max(sum) != want) vf_fail(K("compositions_max"), "sp_compositions_max(%u) is %u", sum, sp_compositions_max(sum));
    uint8_t* seen = vf_calloc(want); /* a composition is identified by its set of partial sums */
    for (size_t i = 0; i < out_size; i++) {
      if (!vf_ledger_owns_range(out[i], sizes[i] * 4)) { vf_fail(K("compositions-memory"), "element %zu does not have the stated size", i); break; }
      if (i > 300) break; /* owns_range is slow */
    }
    for (size_t i = 0; i < out_size; i++) {
      uint64_t acc = 0, id = 0; int bad = sizes[i] == 0;
      for (size_t j = 0; j < sizes[i]; j++) { if (!out[i][j]) bad = 1; acc += out[i][j]; if (acc > sum) { bad = 1; break; } if (acc < sum) id |= 1ULL << (acc - 1); }
      if (bad || acc != sum) { vf_fail(K("compositions"), "element %zu of the compositions of %u sums to %llu", i, sum, (unsigned long long)acc); break; }
      if (seen[id]++) { vf_fail(K("compositions"), "a composition of %u is repeated", sum); break; }
    }
    vf_eval(out_size); vf_count("compositions", out_size); vf_free(seen);
    sp_times_array_free(out, out_size); free(sizes);
  }
  vf_ledger_end_empty(K("compositions-memory"), "compositions and array_free");
  vf_sig(vf_mix(5, sum)); if (ix == 7) vf_sample("%u compositions of %u", out_size, sum);
}
static void t_sequences(vf_rng* r, uint64_t ix) {
  sp_time_t base = 1 + (sp_time_t)vf_below(r, 7), digits = 1 + (sp_time_t)vf_below(r, base < 3 ? 9 : 5); uint64_t all = ipow(base, digits);
  uint64_t count = vf_chance(r, .5) ? all : 1 + vf_below(r, all < 3000 ? 2 * all : 3000); if (count > 20000) count = 20000;
  sp_time_t* out = out_times(count * digits); sp_time_t first[16]; uint64_t v = 0;
  for (sp_time_t i = 0; i < digits; i++) out[i] = first[i] = (sp_time_t)(vf_chance(r, .4) ? 0 : vf_below(r, base));
  for (int i = (int)digits - 1; i >= 0; i--) v = v * base + first[i];
  sp_times_sequences(base, digits, (sp_time_t)count, out); guards_ok(K("sequences"), "out", out);
  vf_eval(count);
  for (uint64_t i = 0; i < count; i++) { uint64_t x = (v + i) % all; for (sp_time_t j = 0; j < digits; j++, x /= base) if (out[i * digits + j] != x % base) { vf_fail(K("sequences"), "sequence %llu of base %u, %u digits: digit %u is %u", (unsigned long long)i, base, digits, j, out[i * digits + j]); goto end; } }
  end:
  { sp_time_t* a = dup_times(first, digits); sp_times_sequence_increment(a, digits, base); guards_ok(K("sequence_increment"), "in", a); uint64_t x = (v + 1) % all; vf_eval(1);
    for (sp_time_t j = 0; j < digits; j++, x /= base) if (a[j] != x % base) { vf_fail(K("sequence_increment"), "digit %u", j); break; } vf_guarded_free(a); }
  vf_eval(1); if (all < UINT32_MAX && sp_set_sequence_max(base, digits) != all) vf_fail(K("set_sequence_max"), "(%u, %u) is %u", base, digits, sp_set_sequence_max(base, digits));
  vf_sig(vf_mix(vf_mix(base, digits), vf_mix(v, count))); vf_count("sequences", count);
  if (ix < 2) vf_sample("%llu sequences of base %u with %u digits from number %llu", (unsigned long long)count, base, digits, (unsigned long long)v);
  vf_guarded_free(out);
}
static void t_counts(vf_rng* r, uint64_t ix) {
  sp_time_t n = (sp_time_t)(ix % 13); vf_eval(1);
  if (sp_time_factorial(n) != fact(n)) vf_fail(K("factorial"), "factorial of %u is %u", n, sp_time_factorial(n));
  { /* selections: counted by enumeration for small sets, by the product otherwise */
    uint64_t set = vf_below(r, 13), sel = vf_below(r, set + 1); if (vf_chance(r, .4)) { int wide = vf_chance(r, .3); sel = vf_below(r, 3); set = 1 + vf_below(r, !wide ? 2000 : sel < 2 ? UINT32_MAX - 1 : 65536); if (sel > set) sel = set; }
    uint64_t want = 1; for (uint64_t i = 0; i < sel; i++) want *= set - i;
    if (want < UINT32_MAX) { vf_eval(1); sp_time_t g = sp_permutations_max(set, sel); if (g != want) vf_fail(K("permutations_max"), "selections of %llu from %llu: %u, expected %llu", (unsigned long long)sel, (unsigned long long)set, g, (unsigned long long)want); vf_sig(vf_mix(vf_mix(6, set), sel)); }
    if (ix < 2) vf_sample("selections of %llu from %llu: %llu", (unsigned long long)sel, (unsigned long long)set, (unsigned long long)want); }
  { uint64_t b = vf_below(r, vf_chance(r, .5) ? 10 : 65536), e = vf_below(r, b < 3 ? 32 : 11); if (vf_chance(r, .1)) { b = vf_below(r, UINT32_MAX); e = vf_below(r, 2); } __uint128_t w = 1; for (uint64_t i = 0; i < e; i++) { w *= b; if (w >> 64) break; }
    if (w <= UINT32_MAX) { vf_eval(2); if (sp_time_expt(b, e) != (sp_time_t)w) vf_fail(K("expt"), "%llu ** %llu is %u", (unsigned long long)b, (unsigned long long)e, sp_time_expt(b, e));
      sp_time_t sm = sp_set_sequence_max(b, e); if (b == 0 ? sm != 0 : sm != (sp_time_t)w) vf_fail(K("set_sequence_max"), "(%llu, %llu) is %u", (unsigned long long)b, (unsigned long long)e, sm); vf_sig(vf_mix(vf_mix(7, b), e)); } }
  { sp_time_t sum = 1 + (sp_time_t)vf_below(r, 32); vf_eval(1); if (sp_compositions_max(sum) != (sp_time_t)(1ULL << (sum - 1))) vf_fail(K("compositions_max"), "(%u) is %u", sum, sp_compositions_max(sum)); }
  { /* windows of an array of distinct elements, counted one by one */
    sp_time_t size = 1 + (sp_time_t)(ix % 1000 == 999 ? 65500 + vf_below(r, 26000) : vf_below(r, vf_chance(r, .5) ? 12 : 2000)), width = 1 + (sp_time_t)vf_below(r, size); uint64_t c = 0, all = 0;
    for (sp_time_t i = 0; i + width <= size; i++) c++;
    for (sp_time_t w = 1; w <= size; w++) all += size - w + 1;
    vf_eval(4);
    if (sp_stat_unique_max(size, width) != c) vf_fail(K("stat_unique_max"), "(%u, %u) is %u", size, width, sp_stat_unique_max(size, width));
    if (sp_stat_unique_all_max(size) != all) vf_fail(K("stat_unique_all_max"), "(%u) is %u", size, sp_stat_unique_all_max(size));
    /* in an array of one repeated element all but one window of each width are repetitions */
    if (sp_stat_repetition_max(size, width) != c - 1) vf_fail(K("stat_repetition_max"), "(%u, %u) is %u", size, width, sp_stat_repetition_max(size, width));
    if (sp_stat_repetition_all_max(size) != all - size) vf_fail(K("stat_repetition_all_max"), "(%u) is %u", size, sp_stat_repetition_all_max(size));
    vf_sig(vf_mix(vf_mix(8, size), width)); }
}
vf_suite vf_suites[] = {{"permutations", t_permutations, 28, 90}, {"compositions", t_compositions, 30, 38}, {"sequences", t_sequences, 2000, 40000}, {"counts", t_counts, 20000, 400000}, {0}};
