/* B01: basic waveforms, windows and block operations follow their formulas */
#include "gen.h"
extern void sp_interleave(sp_sample_t** a, sp_sample_t* b, sp_time_t a_size, sp_channel_count_t channel_count) __attribute__((weak));
extern void sp_deinterleave(sp_sample_t** a, sp_sample_t* b, sp_time_t a_size, sp_channel_count_t channel_count) __attribute__((weak));
void vf_setup(void) {}
#define K(f) "B01:" f
static void expect(const char* key, double got, double want, const char* fmt, ...) {
  vf_eval(1); if (vf_near(got, want, 1e-9)) return;
  char b[200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  vf_fail(key, "%s is %.17g, expected %.17g", b, got, want);
}
static void t_sine(vf_rng* r, uint64_t ix) {
  sp_time_t n = (sp_time_t)(ix < 40 ? ix + 1 : 1 + vf_size(r, 0, ix % 20 ? 3000 : 100000)); double* o = out_samples(n);
  sp_sine_period(n, o); vf_eval(n);
  for (sp_time_t i = 0; i < n; i++) { double w = (double)sinl(2 * M_PIl * i / n); if (!(fabs(o[i] - w) <= 1e-9)) { vf_fail(K("sine_period"), "period of %u: index %u is %.12g, expected %.12g", n, i, o[i], w); break; } }
  guards_ok(K("sine_period"), "sine_period", o); vf_guarded_free(o); vf_sig(vf_mix(1, n)); vf_count(n & 1 ? "odd periods" : "even periods", 1);
  if (ix == 2) vf_sample("sine period of %u samples equals sin(2 pi i / n)", n);
}
static void t_functions(vf_rng* r, uint64_t ix) {
  for (int k = 0; k < 40; k++) {
    { uint64_t top = vf_chance(r, .2) ? 2000000000 : 5000; sp_time_t a = (sp_time_t)vf_size(r, 0, top), b = (sp_time_t)vf_size(r, a ? 0 : 1, top), t = (sp_time_t)(vf_chance(r, .5) ? vf_below(r, 3 * ((uint64_t)a + b)) : vf_u64(r)); double m = t % ((uint64_t)a + b);
      expect(K("triangle"), sp_triangle(t, a, b), m < a ? m / a : (b - (m - a)) / b, "triangle(%u, %u, %u)", t, a, b); vf_count("triangle", 1); }
    { sp_time_t n = 1 + (sp_time_t)vf_size(r, 0, vf_chance(r, .2) ? 500000000 : 5000), t = (sp_time_t)(vf_chance(r, .5) ? vf_below(r, 3 * (uint64_t)n) : vf_below(r, 1u << 31));
      expect(K("square"), sp_square(t, n), 2 * (uint64_t)(t % n) < n ? -1 : 1, "square(%u, %u)", t, n); }
    { double x = vf_chance(r, .1) ? 0 : vf_chance(r, .3) ? floor(vf_real(r, -20, 20)) : vf_real(r, -50, 50), w = x == 0 ? 1 : (double)(sinl(M_PIl * (long double)x) / (M_PIl * (long double)x));
      expect(K("sinc"), sp_sinc(x), w, "sinc(%.17g)", x); }
    { sp_time_t wd = 2 + (sp_time_t)vf_size(r, 0, vf_chance(r, .2) ? 2000000 : 5000); double x = vf_chance(r, .5) ? (double)vf_below(r, wd) : vf_real(r, 0, wd - 1), w = 0.42 - 0.5 * cos(2 * M_PI * x / (wd - 1)) + 0.08 * cos(4 * M_PI * x / (wd - 1));
      expect(K("blackman"), sp_window_blackman(x, wd), w, "blackman(%g, %u)", x, wd); }
    { sp_time_t cyc = 1 + (sp_time_t)vf_size(r, 0, 100000), cur = (sp_time_t)(vf_chance(r, .7) ? vf_below(r, cyc) : vf_below(r, 1u << 31)), ch = (sp_time_t)(vf_chance(r, .5) ? vf_below(r, 2 * (uint64_t)cyc) : vf_chance(r, .2) ? cyc - cur % cyc : vf_below(r, 1u << 31));
      sp_time_t got = sp_phase(cur, ch, cyc), want = (sp_time_t)(((uint64_t)cur + ch) % cyc); vf_eval(1); if (got != want) vf_fail(K("phase"), "phase(%u, %u, %u) is %u, expected %u", cur, ch, cyc, got, want);
      double fc = vf_chance(r, .3) ? floor(vf_real(r, 0, cyc)) : vf_real(r, 0, vf_chance(r, .5) ? 3 : 2.0 * cyc); want = (sp_time_t)(((uint64_t)cur + (uint64_t)ceil(fc)) % cyc); got = sp_phase_float(cur, fc, cyc); vf_eval(1); if (got != want) vf_fail(K("phase_float"), "phase_float(%u, %.17g, %u) is %u, expected %u", cur, fc, cyc, got, want); }
    { unsigned c = (unsigned)vf_below(r, vf_chance(r, .5) ? 2 : 12), pair = c & ~1u; double v = vf_chance(r, .3) ? 0.25 * (double)vf_below(r, 4 * (pair + 4)) : vf_real(r, 0, pair + 4), x = v - pair, w = c & 1 ? (x < 0 ? 0 : x > .5 ? 1 : 2 * x) : (x < .5 ? 1 : x > 1 ? 0 : 2 - 2 * x);
      expect(K("pan"), sp_pan_to_amp(v, (sp_channel_count_t)c), w, "pan_to_amp(%g, %u)", v, c); vf_count(c < 2 ? "pan first pair" : "pan higher channels", 1); }
    { double a = gen_value(r, -5, 5), b = gen_value(r, -5, 5); vf_eval(2); if (sp_sample_max(a, b) != fmax(a, b) || sp_sample_min(a, b) != fmin(a, b)) vf_fail(K("sample_max"), "%g %g", a, b);
      sp_time_t x = (sp_time_t)vf_u64(r), y = (sp_time_t)vf_u64(r); vf_eval(2); if (sp_time_max(x, y) != (x > y ? x : y) || sp_time_min(x, y) != (x > y ? y : x)) vf_fail(K("time_max"), "%u %u", x, y); }
  }
  vf_sig(vf_mix(2, vf_u64(r))); if (ix == 0) vf_sample("40 random arguments each for triangle, square, sinc, blackman, phase and pan");
}
static void t_kernels(vf_rng* r, uint64_t ix) {
  sp_time_t n = 1 + 2 * (sp_time_t)(ix % 400 == 399 ? 32700 + vf_below(r, 40000) : vf_size(r, 0, 200)); double *a = gen_samples(r, n, -2, 2); for (sp_time_t i = 0; i < n / 2; i++) a[n - 1 - i] = a[i];
  double *inv = dup_samples(a, n), *rev = dup_samples(a, n);
  sp_spectral_inversion_ir(inv, n); sp_spectral_reversal_ir(rev, n);
  vf_eval(2 * n); guards_ok(K("inversion"), "inversion", inv); guards_ok(K("reversal"), "reversal", rev);
  for (sp_time_t i = 0; i < n; i++) { if (!vf_near(inv[i], -a[i] + (i == n / 2), 1e-12)) { vf_fail(K("inversion"), "index %u of %u", i, n); break; } if (rev[i] != (i & 1 ? -a[i] : a[i])) { vf_fail(K("reversal"), "index %u of %u", i, n); break; } }
  /* observed in the frequency domain around the center: H_inv = 1 - H, |H_rev(w)| = |H(pi - w)| */
  for (int k = 0; k < 5; k++) { double w = vf_real(r, 0, M_PI), h = 0, hi = 0, hm = 0, hr = 0; for (sp_time_t i = 0; i < n; i++) { double d = (double)i - (n - 1) / 2; h += a[i] * cos(w * d); hi += inv[i] * cos(w * d); hm += a[i] * cos((M_PI - w) * d); hr += rev[i] * cos(w * d); }
    vf_eval(2); double tol = 1e-7 * (1 + n * 1e-3); if (fabs(hi - (1 - h)) > tol) vf_fail(K("inversion"), "response at %g: %g, expected %g", w, hi, 1 - h); if (fabs(fabs(hr) - fabs(hm)) > tol) vf_fail(K("reversal"), "response at %g: %g, mirrored %g", w, hr, hm); }
  /* even lengths: only the sign rule */
  sp_time_t m = 2 * (sp_time_t)vf_size(r, 0, 20); (void)m;
  vf_sig(vf_hash(a, n * 8, 3)); if (ix == 0) vf_sample("kernel of %u values inverted and reversed", n);
  vf_guarded_free(a); vf_guarded_free(inv); vf_guarded_free(rev);
}
static void t_interleave(vf_rng* r, uint64_t ix) {
  if (!sp_interleave || !sp_deinterleave) { vf_count("interleave not available", 1); return; }
  unsigned cc = 1 + (unsigned)vf_below(r, 9); sp_time_t n = (sp_time_t)vf_size_big(r, ix, 40, 0, 300); double *ch[9], *cp[9], *back[9], *b = out_samples((size_t)n * cc);
  for (unsigned c = 0; c < cc; c++) { ch[c] = gen_samples(r, n, -1, 1); cp[c] = dup_samples(ch[c], n); back[c] = out_samples(n); }
  sp_interleave(ch, b, n, cc); guards_ok(K("interleave"), "interleave", b); vf_eval((size_t)n * cc);
  for (unsigned c = 0; c < cc; c++) for (sp_time_t i = 0; i < n; i++) if (b[(size_t)i * cc + c] != cp[c][i]) { vf_fail(K("interleave"), "channel %u of %u index %u of %u", c, cc, i, n); c = 100; break; }
  sp_deinterleave(back, b, n, cc); for (unsigned c = 0; c < cc; c++) { same_mem(K("interleave"), "interleave input", ch[c], cp[c], n * 8); same_mem(K("deinterleave"), "deinterleaved", back[c], cp[c], n * 8); }
  vf_sig(vf_mix(vf_mix(4, cc), n)); if (ix == 0) vf_sample("interleaved %u channels of %u", cc, n);
  for (unsigned c = 0; c < cc; c++) { vf_guarded_free(ch[c]); vf_guarded_free(cp[c]); vf_guarded_free(back[c]); } vf_guarded_free(b);
}
static void t_blocks(vf_rng* r, uint64_t ix) {
  unsigned cc = 1 + (unsigned)vf_below(r, sp_channel_count_limit), cb = cc + (unsigned)vf_below(r, sp_channel_count_limit - cc + 1); sp_time_t n = ix % 200 == 199 ? 60000 + (sp_time_t)vf_below(r, 80000) : 1 + (sp_time_t)vf_size(r, 0, 1500), nb = n + (sp_time_t)vf_size(r, 0, 50);
  vf_ledger_begin(); sp_declare_block(a); sp_declare_block(b); vf_eval(1); if (a.size || a.channel_count || a.samples[0]) vf_fail(K("declare"), "a declared block is not empty");
  status_t s = sp_block_new(cc, n, &a); vf_eval(4); if (s.id) { vf_fail(K("block_new"), "status %d", s.id); return; }
  if (a.size != n || a.channel_count != cc) vf_fail(K("block_new"), "size %u channels %u, requested %u %u", a.size, a.channel_count, n, cc);
  for (unsigned c = 0; c < cc; c++) { vf_eval(n); for (sp_time_t i = 0; i < n; i++) if (a.samples[c][i] != 0) { vf_fail(K("block_new"), "not cleared"); break; } for (unsigned d = 0; d < c; d++) if (a.samples[c] == a.samples[d]) vf_fail(K("block_new"), "channels share memory"); }
  s = sp_block_new(cb, nb, &b);
  for (unsigned c = 0; c < cc; c++) for (sp_time_t i = 0; i < n; i++) a.samples[c][i] = 1 + c + i * 8;
  for (unsigned c = 0; c < cb; c++) for (sp_time_t i = 0; i < nb; i++) b.samples[c][i] = -(double)(1 + c + i * 8);
  sp_block_copy(a, b); vf_eval((size_t)cb * nb);
  for (unsigned c = 0; c < cb; c++) for (sp_time_t i = 0; i < nb; i++) { double w = c < cc && i < n ? 1 + c + i * 8.0 : -(double)(1 + c + i * 8); if (b.samples[c][i] != w) { vf_fail(K("block_copy"), "channel %u index %u: %g, expected %g", c, i, b.samples[c][i], w); c = 100; break; } }
  sp_time_t off = (sp_time_t)vf_below(r, n + 1); sp_block_t o = sp_block_with_offset(a, off); vf_eval(cc);
  for (unsigned c = 0; c < cc; c++) if (o.samples[c] != a.samples[c] + off) vf_fail(K("block_with_offset"), "channel %u", c);
  if (o.channel_count != cc) vf_fail(K("block_with_offset"), "channel count");
  { sp_block_t part = a; part.size = (sp_time_t)vf_below(r, n + 1); sp_block_zero(part); vf_eval((size_t)cc * n); for (unsigned c = 0; c < cc; c++) for (sp_time_t i = 0; i < n; i++) { double w = i < part.size ? 0 : 1 + c + i * 8.0; if (a.samples[c][i] != w) { vf_fail(K("block_zero"), "channel %u index %u: %g, expected %g", c, i, a.samples[c][i], w); c = 100; break; } } }
  sp_block_free(&a); sp_block_free(&b); { sp_block_declare(never); never.channel_count = 7; sp_block_free(&never); }
  vf_ledger_end_empty(K("leak"), "blocks");
  vf_sig(vf_mix(vf_mix(5, n), nb * 8 + cc)); vf_count("blocks", 2); if (ix == 0) vf_sample("blocks %ux%u and %ux%u, offset %u", cc, n, cb, nb, off);
}
vf_suite vf_suites[] = {{"sine", t_sine, 300, 5000}, {"functions", t_functions, 800, 50000}, {"kernels", t_kernels, 800, 40000}, {"interleave", t_interleave, 400, 20000}, {"blocks", t_blocks, 800, 40000}, {0}};
