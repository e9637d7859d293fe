/* F01: streaming convolution equals one linear convolution */
#include "gen.h"
void vf_setup(void) {}
#define K(f) "F01:" f
static void conv_def(const double* a, size_t n, const double* b, size_t m, double* out) { /* n + m - 1 */
  for (size_t k = 0; k + 1 < n + m; k++) { long double s = 0; size_t lo = k + 1 > m ? k + 1 - m : 0, hi = k < n ? k : n - 1; for (size_t i = lo; i <= hi && i < n; i++) s += (long double)a[i] * b[k - i]; out[k] = (double)s; }
}
static void t_stream(vf_rng* r, uint64_t ix) {
  size_t m = vf_size(r, 1, ix % 16 ? 60 : 700), n = vf_size(r, 1, ix % 16 ? 400 : 3000), big = ix % 300 == 299 ? 1 + ix / 300 % 3 : 0; if (big) { m = vf_size(r, 1, 9); n = vf_size_big(r, 0, 1, 0, 0); if (big == 2) { size_t x = m; m = n; n = x; } } size_t clen = m - 1 + (vf_chance(r, .2) ? vf_below(r, 4) : 0);
  double *a = gen_samples(r, n, -10, 10), *b = gen_samples(r, m, -3, 3), *ac = dup_samples(a, n), *bc = dup_samples(b, m), *want = vf_malloc((n + m) * 8), *carry = out_samples(clen);
  if (vf_chance(r, .1)) { memset(b, 0, m * 8); b[vf_below(r, m)] = 1; memcpy(bc, b, m * 8); }
  conv_def(a, n, b, m, want); memset(carry, 0, clen * 8); double scale = 0; for (size_t i = 0; i < m; i++) scale += fabs(b[i]); scale = scale * 10 + 1;
  size_t pos = 0, segs = 0, tiny = 0; int mode = (int)vf_below(r, 5), ok = 1; if (big & 1) mode = big == 1 ? 1 : 5;
  while (pos < n && ok) {
    size_t left = n - pos, len;
    switch (mode) { case 0: len = 1; break; case 1: len = left; break; case 2: len = 1 + vf_below(r, m + 2); break; case 3: len = vf_chance(r, .5) ? 1 + vf_below(r, 3) : 1 + vf_below(r, 2 * m + 2); break; case 5: len = 1 + vf_below(r, 70000); break; default: len = vf_size(r, 1, left); }
    if (vf_chance(r, .03)) len = 0; if (len > left) len = left;
    double *out = out_samples(len), *seg = dup_samples(a + pos, len), *segc = dup_samples(seg, len);
    /* zero is allowed for the first call, the carryover content is zero then */
    sp_convolve(seg, len, b, m, !segs && vf_chance(r, .5) ? 0 : clen, carry, out);
    guards_ok(K("range"), "convolve out", out); same_mem(K("input"), "convolve segment", seg, segc, len * 8); guards_ok(K("range"), "convolve carryover", carry);
    vf_eval(len); for (size_t i = 0; i < len; i++) if (!(fabs(out[i] - want[pos + i]) <= 1e-9 * scale)) { vf_fail(K("stream"), "kernel %zu, signal %zu, segment %zu at %zu of length %zu: index %zu is %.12g, expected %.12g", m, n, segs, pos, len, i, out[i], want[pos + i]); ok = 0; break; }
    if (len < m) tiny++; segs++; pos += len; vf_guarded_free(out); vf_guarded_free(seg); vf_guarded_free(segc);
  }
  /* the carryover is the tail and nothing else */
  vf_eval(clen); for (size_t i = 0; i < clen && ok; i++) { double w = i < m - 1 ? want[n + i] : 0; if (!(fabs(carry[i] - w) <= 1e-9 * scale)) { vf_fail(K("tail"), "kernel %zu, signal %zu in %zu segments: carryover index %zu is %.12g, expected %.12g", m, n, segs, i, carry[i], w); ok = 0; } }
  same_mem(K("input"), "convolve kernel", b, bc, m * 8);
  { double* one = out_samples(n + m - 1); memset(one, 0, (n + m - 1) * 8); sp_convolve_one(a, n, b, m, one); guards_ok(K("range"), "convolve_one", one); same_mem(K("input"), "convolve_one", a, ac, n * 8); vf_eval(n + m - 1); for (size_t i = 0; i < n + m - 1; i++) if (!(fabs(one[i] - want[i]) <= 1e-9 * scale)) { vf_fail(K("one"), "convolve_one %zu x %zu: index %zu is %.12g, expected %.12g", n, m, i, one[i], want[i]); break; } vf_guarded_free(one); }
  vf_count("segments", segs); vf_count("segments shorter than the kernel", tiny); vf_sig(vf_hash(a, n * 8, vf_mix(m, segs)));
  if (ix < 2) vf_sample("signal of %zu in %zu segments (%zu shorter than the kernel of %zu) equal to the definition", n, segs, tiny, m);
  vf_guarded_free(a); vf_guarded_free(b); vf_guarded_free(ac); vf_guarded_free(bc); vf_guarded_free(carry); vf_free(want);
}
vf_suite vf_suites[] = {{"stream", t_stream, 3000, 150000}, {0}};
