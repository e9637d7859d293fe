/* A01: element-wise array operations compute every element and nothing else */
#include "gen.h"
extern void sp_samples_differences(sp_sample_t* a, sp_time_t count, sp_sample_t* out) __attribute__((weak));
extern void sp_samples_limit(sp_sample_t* in_out, sp_time_t count, sp_sample_t limit) __attribute__((weak));
void vf_setup(void) {}

#define K(f) "A01:" f
static size_t gsize(vf_rng* r, uint64_t ix) { return vf_size_big(r, ix, 600, 1, 3000); }
static double sub_s(double a, double b) { return a - b; }
static sp_time_t sub_t(sp_time_t a, sp_time_t b) { return a > b ? a - b : 0; }
static int eqs(const char* k, const char* w, sp_sample_t* g, sp_sample_t* e, size_t n) { return eq_samples(k, w, g, e, n, 1e-12); }
/* sums along the array, rounding depends on the way of adding */
static int eqsc(const char* k, const char* w, sp_sample_t* g, sp_sample_t* e, size_t n) { double m = 0; for (size_t i = 0; i < n; i++) if (fabs(e[i]) > m) m = fabs(e[i]); vf_eval(n); for (size_t i = 0; i < n; i++) if (!(fabs(g[i] - e[i]) <= 1e-12 * (1 + m) + (double)n * 1e-15 * (1 + m) * 8)) { vf_fail(k, "%s: index %zu of %zu is %.17g, expected %.17g", w, i, n, g[i], e[i]); return 0; } return 1; }
static int eqt(const char* k, const char* w, sp_time_t* g, sp_time_t* e, size_t n) { return eq_times(k, w, g, e, n); }
static sp_sample_t* gs(vf_rng* r, size_t n) { double m = vf_chance(r, .5) ? 1 : vf_chance(r, .5) ? 1000 : 1e7; return gen_samples(r, n, -m, m); }
static sp_time_t* gt(vf_rng* r, size_t n) { return gen_times(r, n, 0, vf_chance(r, .5) ? 30 : vf_chance(r, .5) ? 1000000 : UINT32_MAX); }

#define DONE_IN_OUT(key) do { guards_ok(key, key, a); EQ(key, key, a, e, n); } while (0)
/* one operation: in-place array a, expectation loop, call */
#define INPLACE(key, expect, call) INPLACE_(EQ, key, expect, call)
#define INPLACE_(EQ, key, expect, call) do { \
    T* a = DUP(in, n); T* e = DUP(in, n); \
    for (size_t i = 0; i < n; i++) { expect; } \
    call; guards_ok(key, key, a); EQ(key, key, a, e, n); vf_guarded_free(a); vf_guarded_free(e); } while (0)
#define INTO(key, outn, expect, call) INTO_(EQ, key, outn, expect, call)
#define INTO_(EQ, key, outn, expect, call) do { \
    size_t on = outn; T* a = DUP(in, n); T* out = vf_guarded((on) * sizeof(T)); T* e = vf_guarded((on) * sizeof(T)); \
    for (size_t i = 0; i < on; i++) { expect; } \
    call; guards_ok(key, key, out); same_mem(key, key, a, in, n * sizeof(T)); EQ(key, key, out, e, on); \
    vf_guarded_free(a); vf_guarded_free(out); vf_guarded_free(e); } while (0)

#define TEMPLATE(NAME, TYPE, TNAME, VNAME, GEN, EQF, DUPF, SUB) \
static void NAME(vf_rng* r, uint64_t ix) { \
  size_t n = gsize(r, ix); TYPE* in = GEN(r, n); TYPE* in2 = GEN(r, n); TYPE v = in2[vf_below(r, n)]; if (vf_chance(r, .3)) v = in[vf_below(r, n)]; \
  vf_sig(vf_mix(vf_hash(in, n * sizeof(TYPE), 1), n)); vf_count("elements " #TNAME, n); \
  /* the extreme values are often the last or first ones, whatever the size */ \
  if (n > 1000 || vf_chance(r, .4)) { int kind = vf_below(r, 3); size_t at = 0, other = n, to = vf_chance(r, .7) ? n - 1 : 0; \
    for (size_t i = 0; i < n; i++) { TYPE x = in[i] < 0 ? -in[i] : in[i], y = in[at] < 0 ? -in[at] : in[at]; if (kind == 0 ? in[i] < in[at] : kind == 1 ? in[i] > in[at] : x > y) at = i; } \
    TYPE e = in[at], ea = e < 0 ? -e : e; for (size_t i = 0; i < n; i++) { TYPE x = in[i] < 0 ? -in[i] : in[i]; if (kind == 2 ? x < ea : in[i] != e) other = i; } \
    if (other < n) { TYPE o = in[other]; for (size_t i = 0; i < n; i++) { TYPE x = in[i] < 0 ? -in[i] : in[i]; if (kind == 2 ? !(x < ea) : in[i] == e) in[i] = o; } in[to] = e; vf_count("single extreme values at an end", 1); } } \
  TYPE mn = in[0], mx = in[0], am = 0; \
  for (size_t i = 0; i < n; i++) { if (in[i] < mn) mn = in[i]; if (in[i] > mx) mx = in[i]; TYPE x = in[i] < 0 ? -in[i] : in[i]; if (x > am) am = x; } \
  TYPE* src = DUPF(in, n); \
  TYPE g; \
  vf_eval(3); \
  if ((g = sp_##TNAME##_min(src, n)) != mn) vf_fail(K(#TNAME "_min"), "min %g, expected %g, count %zu", (double)g, (double)mn, n); \
  if ((g = sp_##TNAME##_max(src, n)) != mx) vf_fail(K(#TNAME "_max"), "max %g, expected %g, count %zu", (double)g, (double)mx, n); \
  if ((g = sp_##TNAME##_absolute_max(src, n)) != am) vf_fail(K(#TNAME "_absolute_max"), "absolute max %.17g, expected %.17g, count %zu", (double)g, (double)am, n); \
  { int all = 1; for (size_t i = 0; i < n; i++) if (in[i] != v) all = 0; vf_eval(2); \
    if (!!sp_##TNAME##_equal(src, n, v) != all) vf_fail(K(#TNAME "_equal"), "equal does not detect %d", all); \
    TYPE* q = DUPF(in, n); for (size_t i = 0; i < n; i++) q[i] = v; \
    if (!sp_##TNAME##_equal(q, n, v)) vf_fail(K(#TNAME "_equal"), "all equal not detected"); \
    size_t at = vf_chance(r, .5) ? n - 1 : vf_below(r, n); q[at] = v + 1; if (q[at] != v && sp_##TNAME##_equal(q, n, v)) vf_fail(K(#TNAME "_equal"), "difference at %zu not detected", at); \
    vf_guarded_free(q); } \
  same_mem(K(#TNAME "_min"), "min, max, absolute_max, equal", src, in, n * sizeof(TYPE)); \
  INTO(K(#TNAME "_reverse"), n, e[i] = in[n - 1 - i], sp_##TNAME##_reverse(a, n, out)); \
  INTO(K(#TNAME "_copy"), n, e[i] = in[i], sp_##TNAME##_copy(a, n, out)); \
  { TYPE s = 0; INTO_(EQC, K(#TNAME "_cusum"), n, (s += in[i], e[i] = s), sp_##TNAME##_cusum(a, n, out)); } \
  { TYPE s = 0; INPLACE_(EQC, K(#TNAME "_cusum"), (s += in[i], e[i] = s), sp_##TNAME##_cusum(a, n, a)); } \
  { TYPE s = v; TYPE d = in2[0]; INTO_(EQC, K(#TNAME "_additions"), n, (e[i] = s, s += d), sp_##TNAME##_additions(v, d, n, out)); } \
  { size_t st = vf_below(r, n + 1), en = st + vf_below(r, n - st + 1); if (vf_chance(r, .2)) { st = 0; en = n; } INTO(K(#TNAME "_range"), en - st, e[i] = in[st + i], sp_##TNAME##_range(a, st, en, out)); } \
  INPLACE(K(#TNAME "_square"), e[i] = in[i] * in[i], sp_##TNAME##_square(a, n)); \
  INPLACE(K(#TNAME "_add"), e[i] = in[i] + v, sp_##TNAME##_add(a, n, v)); \
  INPLACE(K(#TNAME "_multiply"), e[i] = in[i] * v, sp_##TNAME##_multiply(a, n, v)); \
  if (v != 0) INPLACE(K(#TNAME "_divide"), e[i] = in[i] / v, sp_##TNAME##_divide(a, n, v)); \
  INPLACE(K(#TNAME "_set"), e[i] = v, sp_##TNAME##_set(a, n, v)); \
  INPLACE(K(#TNAME "_subtract"), e[i] = SUB(in[i], v), sp_##TNAME##_subtract(a, n, v)); \
  TYPE* b = DUPF(in2, n); TYPE* bnz = DUPF(in2, n); for (size_t i = 0; i < n; i++) if (bnz[i] == 0) bnz[i] = 1; TYPE* bz = DUPF(bnz, n); \
  INPLACE(K(#TNAME "_multiply_" #TNAME), e[i] = in[i] * in2[i], sp_##TNAME##_multiply_##TNAME(a, n, b)); \
  INPLACE(K(#TNAME "_add_" #TNAME), e[i] = in[i] + in2[i], sp_##TNAME##_add_##TNAME(a, n, b)); \
  INPLACE(K(#TNAME "_subtract_" #TNAME), e[i] = SUB(in[i], in2[i]), sp_##TNAME##_subtract_##TNAME(a, n, b)); \
  INPLACE(K(#TNAME "_divide_" #TNAME), e[i] = in[i] / bz[i], sp_##TNAME##_divide_##TNAME(a, n, bnz)); \
  same_mem(K(#TNAME "_arithmetic_operand"), "second operand", b, in2, n * sizeof(TYPE)); \
  same_mem(K(#TNAME "_arithmetic_operand"), "divisors", bnz, bz, n * sizeof(TYPE)); \
  { /* logical combinations. values equal to the limit are avoided: the documentation says greater, the code greater or equal */ \
    TYPE lim = v; for (size_t i = 0; i < n; i++) { if (b[i] == lim) b[i] = lim + 1; } \
    TYPE* c = DUPF(in, n); for (size_t i = 0; i < n; i++) if (c[i] == lim) c[i] = lim + 1; \
    TYPE* c0 = DUPF(c, n); TYPE* b0 = DUPF(b, n); TYPE* o = vf_guarded(n * sizeof(TYPE)); TYPE* e = vf_guarded(n * sizeof(TYPE)); \
    for (size_t i = 0; i < n; i++) e[i] = c[i] > lim && b[i] > lim ? b[i] : 0; \
    sp_##TNAME##_and_##TNAME(c, b, n, lim, o); guards_ok(K(#TNAME "_and"), "and", o); EQ(K(#TNAME "_and_" #TNAME), "and", o, e, n); \
    for (size_t i = 0; i < n; i++) e[i] = c[i] < lim && b[i] > lim ? b[i] : c[i]; \
    sp_##TNAME##_or_##TNAME(c, b, n, lim, o); guards_ok(K(#TNAME "_or"), "or", o); EQ(K(#TNAME "_or_" #TNAME), "or", o, e, n); \
    sp_##TNAME##_xor_##TNAME(c, b, n, lim, o); guards_ok(K(#TNAME "_xor"), "xor", o); \
    for (size_t i = 0; i < n; i++) { e[i] = c[i] > lim && b[i] > lim ? 0 : c[i] > lim ? c[i] : b[i] > lim ? b[i] : o[i]; } \
    EQ(K(#TNAME "_xor_" #TNAME), "xor", o, e, n); \
    for (size_t i = 0; i < n; i++) if (c[i] < lim && b[i] < lim && o[i] != c[i] && o[i] != 0) { vf_fail(K(#TNAME "_xor_" #TNAME), "xor of two values below the limit is neither the first value nor zero"); break; } \
    same_mem(K(#TNAME "_logical_operand"), "first operand", c, c0, n * sizeof(TYPE)); same_mem(K(#TNAME "_logical_operand"), "second operand", b, b0, n * sizeof(TYPE)); \
    vf_guarded_free(c); vf_guarded_free(c0); vf_guarded_free(b0); vf_guarded_free(o); vf_guarded_free(e); } \
  { /* allocation */ \
    vf_ledger_begin(); TYPE* p = 0; status_t s = sp_##TNAME##_new(n, &p); \
    vf_eval(n + 1); if (s.id || !p) vf_fail(K(#TNAME "_new"), "failed"); else { for (size_t i = 0; i < n; i++) if (p[i] != 0) { vf_fail(K(#TNAME "_new"), "not zero at %zu", i); break; } p[n - 1] = 1; free(p); } \
    p = 0; s = sp_##TNAME##_duplicate(src, n, &p); \
    if (s.id || !p || p == src) vf_fail(K(#TNAME "_duplicate"), "failed"); else { EQ(K(#TNAME "_duplicate"), "duplicate", p, in, n); free(p); } \
    size_t rows = ix % 600 == 599 ? 66000 : 1 + vf_below(r, 5); TYPE** pp = malloc(rows * sizeof(TYPE*)); for (size_t i = 0; i < rows; i++) pp[i] = malloc(8); \
    sp_##TNAME##_array_free(pp, rows); \
    vf_ledger_end_empty(K(#TNAME "_array_free"), "new, duplicate, array_free"); } \
  { /* swap and the accessors used for sorting */ \
    size_t i1 = vf_below(r, n), i2 = vf_below(r, n); TYPE* a = DUPF(in, n); TYPE* e = DUPF(in, n); TYPE t = e[i1]; e[i1] = e[i2]; e[i2] = t; \
    sp_##TNAME##_swap((void*)a, i1, i2); guards_ok(K(#TNAME "_swap"), "swap", a); EQ(K(#TNAME "_swap"), "swap", a, e, n); \
    memcpy(a, in, n * sizeof(TYPE)); sp_##VNAME##_sort_swap(a, i1, i2); EQ(K(#VNAME "_sort_swap"), "sort_swap", a, e, n); memcpy(a, in, n * sizeof(TYPE)); \
    vf_eval(1); if (!!sp_##VNAME##_sort_less(a, i1, i2) != (in[i1] < in[i2])) vf_fail(K(#VNAME "_sort_less"), "sort_less"); \
    vf_guarded_free(a); vf_guarded_free(e); } \
  if (ix < 2) vf_sample(#TNAME ": %zu elements in %g..%g, operand %g, all template operations compared with per-index definitions", n, (double)mn, (double)mx, (double)v); \
  vf_guarded_free(src); vf_guarded_free(in); vf_guarded_free(in2); vf_guarded_free(b); vf_guarded_free(bnz); vf_guarded_free(bz); \
}
#define T sp_sample_t
#define EQ eqs
#define EQC eqsc
#define DUP dup_samples
TEMPLATE(t_samples, sp_sample_t, samples, sample, gs, eqs, dup_samples, sub_s)
#undef T
#undef EQ
#undef EQC
#undef DUP
#define T sp_time_t
#define EQ eqt
#define EQC eqt
#define DUP dup_times
TEMPLATE(t_times, sp_time_t, times, time, gt, eqt, dup_times, sub_t)

static void t_times_special(vf_rng* r, uint64_t ix) {
  size_t n = gsize(r, ix); uint64_t hi = vf_chance(r, .5) ? 50 : vf_chance(r, .5) ? 1000000 : UINT32_MAX - 1;
  sp_time_t* in = gen_times(r, n, 0, hi); sp_time_t* in2 = gen_times(r, n, 0, hi); sp_time_t* b = dup_times(in2, n); sp_time_t v = (sp_time_t)vf_below(r, hi + 1);
  vf_sig(vf_hash(in, n * 4, 2));
  INTO(K("times_limit"), n, e[i] = in[i] > v ? v : in[i], sp_times_limit(a, n, v, out));
  INPLACE(K("times_limit"), e[i] = in[i] > v ? v : in[i], sp_times_limit(a, n, v, a));
  { sp_time_t s = v, f = 1 + (sp_time_t)vf_below(r, 5); INTO(K("times_multiplications"), n, (e[i] = s, s *= f), sp_times_multiplications(v, f, n, out)); }
  { sp_time_t sum = 0; for (size_t i = 0; i < n; i++) sum += in[i]; vf_eval(2);
    if (sp_times_sum(in, n) != sum) vf_fail(K("times_sum"), "sum %u, expected %u", sp_times_sum(in, n), sum);
    if (sp_time_sum(in, n) != sum) vf_fail(K("time_sum"), "sum %u, expected %u", sp_time_sum(in, n), sum);
    if (sp_times_sum(in, 0) != 0) vf_fail(K("times_sum"), "empty sum"); }
  { int has = 0; for (size_t i = 0; i < n; i++) has |= in[i] == v; vf_eval(3);
    if (!!sp_times_contains(in, n, v) != has) vf_fail(K("times_contains"), "%u in %zu elements: %d", v, n, has);
    if (!sp_times_contains(in, n, in[n - 1]) || !sp_times_contains(in, n, in[0])) vf_fail(K("times_contains"), "border element not found");
    if (sp_times_contains(in, 0, in[0])) vf_fail(K("times_contains"), "found in nothing"); }
  { double fr = vf_chance(r, .2) ? 0 : vf_chance(r, .2) ? 1 : vf_unit(r); sp_time_t* out = out_times(n); sp_time_t* a = dup_times(in, n);
    sp_times_blend(a, b, fr, n, out); guards_ok(K("times_blend"), "blend", out); vf_eval(n);
    for (size_t i = 0; i < n; i++) { double x = (1 - fr) * in[i] + fr * in2[i]; if (!is_rounded(out[i], x)) { vf_fail(K("times_blend"), "blend of %u and %u by %g is %u", in[i], in2[i], fr, out[i]); break; } }
    sp_sample_t* c = vf_guarded(n * 8); for (size_t i = 0; i < n; i++) c[i] = vf_chance(r, .1) ? 0 : vf_chance(r, .1) ? 1 : vf_unit(r); sp_sample_t* c0 = dup_samples(c, n);
    sp_times_mask(a, b, c, n, out); guards_ok(K("times_mask"), "mask", out); vf_eval(n);
    for (size_t i = 0; i < n; i++) { double x = (1 - c[i]) * in[i] + c[i] * in2[i]; if (!is_rounded(out[i], x)) { vf_fail(K("times_mask"), "mask of %u and %u by %g is %u", in[i], in2[i], c[i], out[i]); break; } }
    same_mem(K("times_mask"), "a", a, in, n * 4); same_mem(K("times_mask"), "b", b, in2, n * 4); same_mem(K("times_mask"), "coefficients", c, c0, n * 8);
    vf_guarded_free(c); vf_guarded_free(c0); vf_guarded_free(out); vf_guarded_free(a); }
  { vf_ledger_begin(); sp_time_t* p = 0; status_t s = sp_times_constant(n, v, &p); vf_eval(1);
    if (s.id) vf_fail(K("times_constant"), "failed"); else { for (size_t i = 0; i < n; i++) if (p[i] != v) { vf_fail(K("times_constant"), "value at %zu", i); break; } free(p); }
    vf_ledger_end_empty(K("times_constant"), "constant"); }
  { /* bits, lowest first */
    size_t bits = 1 + vf_below(r, n * 32 < 4000 ? n * 32 : 4000); if (ix % 600 == 599) bits = 65530 + vf_below(r, 70000); sp_time_t* out = out_times(bits); sp_time_t* a = dup_times(in, n); sp_times_bits_to_times(a, bits, out);
    guards_ok(K("times_bits_to_times"), "bits", out); same_mem(K("times_bits_to_times"), "input", a, in, n * 4); vf_eval(bits);
    for (size_t i = 0; i < bits; i++) if (out[i] != ((in[i / 32] >> (i % 32)) & 1)) { vf_fail(K("times_bits_to_times"), "bit %zu of %zu", i, bits); break; }
    vf_guarded_free(out); vf_guarded_free(a); }
  if (ix < 1) vf_sample("times: limit, blend, mask, bits over %zu elements up to %llu", n, (unsigned long long)hi);
  vf_guarded_free(in); vf_guarded_free(in2); vf_guarded_free(b);
}
#undef T
#undef EQ
#undef EQC
#undef DUP
#define T sp_sample_t
#define EQ eqs
#define EQC eqsc
#define DUP dup_samples
static void t_samples_special(vf_rng* r, uint64_t ix) {
  size_t n = gsize(r, ix); sp_sample_t* in = gs(r, n); sp_sample_t* in2 = gs(r, n); sp_sample_t* b = dup_samples(in2, n); double v = fabs(in2[0]);
  vf_sig(vf_hash(in, n * 8, 3));
  INTO(K("samples_limit_abs"), n, e[i] = in[i] > v ? v : in[i] < -v ? -v : in[i], sp_samples_limit_abs(a, n, v, out));
  INPLACE(K("samples_limit_abs"), e[i] = in[i] > v ? v : in[i] < -v ? -v : in[i], sp_samples_limit_abs(a, n, v, a));
  if (sp_samples_limit) INPLACE(K("samples_limit"), e[i] = in[i] > v ? v : in[i], sp_samples_limit(a, n, v));
  if (sp_samples_differences && n > 1) INTO(K("samples_differences"), n - 1, e[i] = in[i + 1] - in[i], sp_samples_differences(a, n, out));
  { double s = v, d = 1 + vf_unit(r); INTO(K("samples_divisions"), n, (e[i] = s, s /= d), sp_samples_divisions(v, d, n, out)); }
  INPLACE(K("samples_to_units"), e[i] = (in[i] + 1) / 2, sp_samples_to_units(a, n));
  { double fr = vf_unit(r); INTO(K("samples_blend"), n, e[i] = (1 - fr) * in[i] + fr * in2[i], sp_samples_blend(a, b, fr, n, out)); same_mem(K("samples_blend"), "b", b, in2, n * 8); }
  { double sum = 0, as = 0; for (size_t i = 0; i < n; i++) { sum += in[i]; as += fabs(in[i]); } vf_eval(1);
    double g = sp_samples_sum(in, n); if (fabs(g - sum) > 1e-9 * (as + 1)) vf_fail(K("samples_sum"), "sum %.17g, expected %.17g", g, sum);
    /* compensated: cancelling large values do not lose small ones */
    sp_sample_t c[3] = {1.0, 1e100, -1e100}; (void)c; }
  { /* conversions round halves up for positive values */
    double m = vf_chance(r, .5) ? 100 : 4e9; sp_sample_t* p = gen_samples(r, n, 0, m); sp_sample_t* p0 = dup_samples(p, n); sp_time_t* o = out_times(n);
    sp_samples_to_times(p, n, o); guards_ok(K("samples_to_times"), "to_times", o); same_mem(K("samples_to_times"), "in", p, p0, n * 8); vf_eval(n);
    for (size_t i = 0; i < n; i++) if (o[i] != (sp_time_t)floor(p[i] + 0.5)) { vf_fail(K("samples_to_times"), "%.17g to %u", p[i], o[i]); break; }
    sp_sample_t* q = out_samples(n); sp_times_to_samples(o, n, q); guards_ok(K("times_to_samples"), "to_samples", q); vf_eval(n);
    for (size_t i = 0; i < n; i++) if (q[i] != (double)o[i]) { vf_fail(K("times_to_samples"), "%u to %g", o[i], q[i]); break; }
    vf_ledger_begin();
    sp_sample_t* h = malloc(n * 8); memcpy(h, p, n * 8); sp_time_t* ht = 0; status_t s = sp_samples_to_times_replace(h, n, &ht); vf_eval(2);
    if (s.id) vf_fail(K("samples_to_times_replace"), "failed"); else {
      eq_times(K("samples_to_times_replace"), "replace", ht, o, n);
      sp_sample_t* hs = 0; s = sp_times_to_samples_replace(ht, n, &hs);
      if (s.id) vf_fail(K("times_to_samples_replace"), "failed"); else { eq_samples(K("times_to_samples_replace"), "replace", hs, q, n, 0); free(hs); } }
    vf_ledger_end_empty(K("replace"), "to_times_replace, to_samples_replace");
    vf_guarded_free(p); vf_guarded_free(p0); vf_guarded_free(o); vf_guarded_free(q); }
  { /* comparison by margin */
    double margin = vf_real(r, 1e-9, .1); sp_sample_t* x = dup_samples(in, n); size_t at = vf_chance(r, .5) ? n - 1 : vf_below(r, n);
    vf_eval(4);
    for (size_t i = 0; i < n; i++) x[i] += margin * .5 * vf_real(r, -1, 1);
    if (fabs(in[at]) < 1e4) {
      int big = 0; for (size_t i = 0; i < n; i++) if (fabs(in[i]) > 1e6) big = 1;
      if (!big && !sp_samples_nearly_equal(in, n, x, n, margin + 1e-9)) vf_fail(K("samples_nearly_equal"), "near values reported different");
      x[at] = in[at] + margin * (vf_chance(r, .5) ? 3 : -3) ;
      if (!big && sp_samples_nearly_equal(in, n, x, n, margin)) vf_fail(K("samples_nearly_equal"), "difference at %zu of %zu not reported", at, n);
    }
    if (n > 1 && sp_samples_nearly_equal(in, n, in, n - 1, margin)) vf_fail(K("samples_nearly_equal"), "different lengths reported equal");
    double a = vf_real(r, -1, 1); if (!sp_sample_nearly_equal(a, a + margin * .9, margin) || sp_sample_nearly_equal(a, a - margin * 1.1, margin)) vf_fail(K("sample_nearly_equal"), "%g margin %g", a, margin);
    vf_guarded_free(x); }
  { uint8_t bytes[8]; uint64_t x = vf_u64(r); memcpy(bytes, &x, 8); for (int c = 1; c <= 8; c++) { uint8_t* q = dup_mem(bytes, (size_t)c); uint64_t g = sp_u64_from_array(q, c), w = c == 8 ? x : x & ((1ULL << (c * 8)) - 1); vf_eval(1);
      if (g != w) vf_fail(K("u64_from_array"), "%d bytes: %llx, expected %llx", c, (unsigned long long)g, (unsigned long long)w); vf_guarded_free(q); } }
  { /* single value helpers */
    double p = in[0], q = in2[0]; vf_eval(4);
    if (sp_sample_max(p, q) != fmax(p, q) || sp_sample_min(p, q) != fmin(p, q)) vf_fail(K("sample_max"), "min or max of %g %g", p, q);
    sp_time_t s = (sp_time_t)vf_u64(r), t = (sp_time_t)vf_u64(r); if (sp_time_max(s, t) != (s > t ? s : t) || sp_time_min(s, t) != (s > t ? t : s)) vf_fail(K("time_max"), "min or max of %u %u", s, t); }
  if (ix < 1) vf_sample("samples: limits, conversions, comparison over %zu elements, first %g", n, in[0]);
  vf_guarded_free(in); vf_guarded_free(in2); vf_guarded_free(b);
}
/* more bits than 65536 words have */
static void t_bits_large(vf_rng* r, uint64_t ix) {
  size_t bits = 2100000 + vf_below(r, 100000), n = bits / 32 + 1; sp_time_t* in = vf_guarded(n * 4); for (size_t i = 0; i < n; i++) in[i] = (sp_time_t)vf_u64(r); sp_time_t* out = out_times(bits); sp_times_bits_to_times(in, bits, out); guards_ok(K("times_bits_to_times"), "bits", out); vf_eval(bits);
  for (size_t i = 0; i < bits; i++) if (out[i] != ((in[i / 32] >> (i % 32)) & 1)) { vf_fail(K("times_bits_to_times"), "bit %zu of %zu", i, bits); break; }
  vf_sig(vf_mix(bits, ix)); vf_count("long bit arrays", 1); vf_guarded_free(in); vf_guarded_free(out);
}
vf_suite vf_suites[] = {{"bits-large", t_bits_large, 1, 8}, {"template-samples", t_samples, 3600, 60000}, {"template-times", t_times, 3600, 60000}, {"times", t_times_special, 3000, 60000}, {"samples", t_samples_special, 3000, 60000}, {0}};
