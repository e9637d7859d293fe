/* T01: fourier transforms match the definition for every length */
#include "gen.h"
#include <stdbool.h>
__attribute__((weak)) bool Fft_convolveReal(const double*, const double*, double*, size_t);
__attribute__((weak)) bool Fft_convolveComplex(const double*, const double*, const double*, const double*, double*, double*, size_t);
__attribute__((weak)) bool Fft_transformBluestein(double*, double*, size_t);
__attribute__((weak)) bool Fft_transformRadix2(double*, double*, size_t);
void vf_setup(void) {}
#define K(f) "T01:" f
static void bin(const double* re, const double* im, size_t n, size_t k, int sign, double* ore, double* oim) {
  long double sr = 0, si = 0; static long double *ct, *st; static size_t tn;
  if (tn != n) { vf_free(ct); vf_free(st); ct = vf_malloc(n * sizeof *ct); st = vf_malloc(n * sizeof *st); for (size_t i = 0; i < n; i++) { ct[i] = cosl(2 * M_PIl * i / n); st[i] = sinl(2 * M_PIl * i / n); } tn = n; }
  for (size_t i = 0; i < n; i++) { size_t j = (size_t)(((uint64_t)i * k) % n); long double c = ct[j], s = sign * st[j]; sr += re[i] * c - im[i] * s; si += re[i] * s + im[i] * c; }
  *ore = (double)sr; *oim = (double)si;
}
static void t_length(vf_rng* r, uint64_t ix) {
  size_t n = ix < 130 ? ix + 1 : ix % 25 == 0 ? 1000 + vf_below(r, 130000) : 1 + vf_size(r, 0, 2000); int is_real = vf_chance(r, .4);
  double *re = gen_samples(r, n, -1, 1), *im = gen_samples(r, n, -1, 1); if (is_real) memset(im, 0, n * 8); if (vf_chance(r, .1)) { memset(re, 0, n * 8); re[vf_below(r, n)] = 1; }
  double *fr = dup_samples(re, n), *fi = dup_samples(im, n), *gr, *gi, sum = 0; for (size_t i = 0; i < n; i++) sum += fabs(re[i]) + fabs(im[i]);
  double tol = 1e-10 * (sum + 1); size_t bins = n <= 300 ? n : 12;
  vf_ledger_begin(); int rc = sp_fft((sp_time_t)n, fr, fi); vf_eval(1); if (rc) vf_fail(K("status"), "fft of %zu returned %d", n, rc);
  guards_ok(K("range"), "fft real", fr); guards_ok(K("range"), "fft imaginary", fi);
  for (size_t b = 0; b < bins; b++) { size_t k = n <= 300 ? b : vf_below(r, n); double wr, wi; bin(re, im, n, k, -1, &wr, &wi); vf_eval(2); if (!(fabs(fr[k] - wr) <= tol) || !(fabs(fi[k] - wi) <= tol)) { vf_fail(K("forward"), "length %zu bin %zu is %.12g %.12gi, expected %.12g %.12gi", n, k, fr[k], fi[k], wr, wi); break; } }
  gr = dup_samples(re, n); gi = dup_samples(im, n); rc = sp_ffti((sp_time_t)n, gr, gi); vf_eval(1); if (rc) vf_fail(K("status"), "ffti of %zu returned %d", n, rc);
  for (size_t b = 0; b < bins; b++) { size_t k = n <= 300 ? b : vf_below(r, n); double wr, wi; bin(re, im, n, k, 1, &wr, &wi); vf_eval(2); if (!(fabs(gr[k] - wr) <= tol) || !(fabs(gi[k] - wi) <= tol)) { vf_fail(K("inverse"), "length %zu bin %zu is %.12g %.12gi, expected %.12g %.12gi", n, k, gr[k], gi[k], wr, wi); break; } }
  rc = sp_ffti((sp_time_t)n, fr, fi); vf_eval(2 * n + 1); guards_ok(K("range"), "ffti real", fr); guards_ok(K("range"), "ffti imaginary", fi);
  for (size_t i = 0; i < n; i++) if (!(fabs(fr[i] / n - re[i]) <= 1e-10 * (1 + sum / n)) || !(fabs(fi[i] / n - im[i]) <= 1e-10 * (1 + sum / n))) { vf_fail(K("roundtrip"), "length %zu index %zu: %.12g, expected %.12g", n, i, fr[i] / n, re[i]); break; }
  vf_ledger_end_empty(K("leak"), "transforms");
  vf_sig(n); vf_count(n & (n - 1) ? "lengths that are not powers of two" : "powers of two", 1); { char c[20]; (void)c; } if (ix == 6 || ix == 150) vf_sample("length %zu: %zu bins forward and inverse, complete round trip", n, bins);
  vf_guarded_free(re); vf_guarded_free(im); vf_guarded_free(fr); vf_guarded_free(fi); vf_guarded_free(gr); vf_guarded_free(gi);
}
/* circular convolutions and the transforms behind the general one */
static void t_convolve(vf_rng* r, uint64_t ix) {
  if (!Fft_convolveReal || !Fft_convolveComplex || !Fft_transformBluestein || !Fft_transformRadix2) return;
  size_t n = ix < 100 ? ix : vf_chance(r, .3) ? (size_t)1 << vf_below(r, 9) : vf_size(r, 0, 300), power = n && !(n & (n - 1)); double *a = gen_samples(r, n, -1, 1), *ai = gen_samples(r, n, -1, 1), *b = gen_samples(r, n, -1, 1), *bi = gen_samples(r, n, -1, 1), *o = vf_guarded(n * 8), *oi = vf_guarded(n * 8);
  double *a0 = dup_samples(a, n), *b0 = dup_samples(b, n), tol = 1e-11 * (1 + (double)n); vf_ledger_begin(); vf_eval(4 + 4 * n);
  int64_t fail = vf_chance(r, .2) ? (int64_t)vf_below(r, 12) : -1; vf_fault_at(fail); int ok = Fft_convolveReal(a, b, o, n); int hit = vf_fault_hit(); vf_fault_at(-1); if (!ok != hit) vf_fail(K("status"), "convolution of %zu returned %d, failed allocations: %d", n, ok, hit); if (hit) { vf_count("failed allocations", 1); Fft_convolveReal(a, b, o, n); }
  for (size_t i = 0; i < n; i++) { long double s = 0; for (size_t j = 0; j < n; j++) s += (long double)a[j] * b[(i + n - j) % n]; if (!(fabsl(o[i] - s) <= tol)) { vf_fail(K("convolve"), "real convolution of %zu at %zu is %.12g, expected %.12Lg", n, i, o[i], s); break; } }
  if (!Fft_convolveComplex(a, ai, b, bi, o, oi, n)) vf_fail(K("status"), "complex convolution of %zu failed", n);
  for (size_t i = 0; i < n; i++) { long double s = 0, t = 0; for (size_t j = 0; j < n; j++) { size_t k = (i + n - j) % n; s += (long double)a[j] * b[k] - (long double)ai[j] * bi[k]; t += (long double)a[j] * bi[k] + (long double)ai[j] * b[k]; } if (!(fabsl(o[i] - s) <= tol) || !(fabsl(oi[i] - t) <= tol)) { vf_fail(K("convolve"), "complex convolution of %zu at %zu is %.12g %.12gi, expected %.12Lg %.12Lgi", n, i, o[i], oi[i], s, t); break; } }
  if (n && (memcmp(a, a0, n * 8) || memcmp(b, b0, n * 8))) vf_fail(K("input"), "convolution of %zu changed its input", n);
  /* the transform for any length gives the same as the one for powers of two, which refuses other lengths */
  if (n) {
    memcpy(o, a, n * 8); memcpy(oi, ai, n * 8); if (!Fft_transformBluestein(o, oi, n)) vf_fail(K("status"), "transform of %zu failed", n);
    for (size_t q = 0; q < 6; q++) { size_t k = vf_below(r, n); double wr, wi; bin(a, ai, n, k, -1, &wr, &wi); if (!(fabs(o[k] - wr) <= tol) || !(fabs(oi[k] - wi) <= tol)) { vf_fail(K("forward"), "length %zu bin %zu is %.12g %.12gi, expected %.12g %.12gi", n, k, o[k], oi[k], wr, wi); break; } }
    memcpy(o, a, n * 8); memcpy(oi, ai, n * 8); ok = Fft_transformRadix2(o, oi, n); if (!ok != !power) vf_fail(K("status"), "radix two transform of %zu returned %d", n, ok); if (!power && (memcmp(o, a, n * 8) || memcmp(oi, ai, n * 8))) vf_fail(K("input"), "refused transform of %zu changed its input", n);
  }
  guards_ok(K("range"), "convolution", o); guards_ok(K("range"), "convolution", oi); vf_ledger_end_empty(K("leak"), "convolutions");
  vf_sig(vf_mix(n, 77)); vf_count("circular convolutions", 2); if (ix == 60) vf_sample("circular convolution of %zu", n);
  vf_guarded_free(a); vf_guarded_free(ai); vf_guarded_free(b); vf_guarded_free(bi); vf_guarded_free(o); vf_guarded_free(oi); vf_guarded_free(a0); vf_guarded_free(b0);
}
vf_suite vf_suites[] = {{"length", t_length, 900, 20000}, {"convolve", t_convolve, 600, 10000}, {0}};
