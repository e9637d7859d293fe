/* F03: windowed sinc kernels have the promised shape and frequency response */
#include "gen.h"
#define K(f) "F03:" f
void vf_setup(void) {}
#define TOL_RESPONSE 0.004
typedef long double ld;
#define PIL 3.14159265358979323846264338327950288L
/* odd length for a transition width */
static int length_ok(sp_time_t len, double t) { double x = 4 / t; return len % 2 == 1 && len + 1e-9 * x >= x && (double)len <= x * (1 + 1e-12) + 2; }
/* the definition in extended precision */
static void define(ld* out, sp_time_t n, double c, int hp) {
  ld sum = 0, mid = (n - 1) / 2; for (sp_time_t i = 0; i < n; i++) { ld x = 2 * (ld)c * ((ld)i - mid), s = x == 0 ? 1 : sinl(PIL * x) / (PIL * x), w = 0.42L - 0.5L * cosl(2 * PIL * i / (n - 1)) + 0.08L * cosl(4 * PIL * i / (n - 1)); out[i] = s * w; sum += out[i]; }
  for (sp_time_t i = 0; i < n; i++) { out[i] /= sum; if (hp) out[i] = -out[i]; } if (hp) out[(n - 1) / 2] += 1;
}
/* zero phase response of a symmetric kernel */
static double response(const double* k, sp_time_t n, double f) { double mid = (double)(n - 1) / 2, a = 0; for (sp_time_t i = 0; i < n; i++) a += k[i] * cos(2 * M_PI * f * ((double)i - mid)); return a; }

static void shape(const double* k, sp_time_t n, const char* w) {
  vf_eval(n); for (sp_time_t i = 0; i < n; i++) { if (!isfinite(k[i])) { vf_fail(K("finite"), "%s: coefficient %u is %g", w, i, k[i]); return; } if (!vf_near(k[i], k[n - 1 - i], 1e-9)) { vf_fail(K("symmetric"), "%s: coefficients %u and %u are %.12g and %.12g", w, i, n - 1 - i, k[i], k[n - 1 - i]); return; } }
}
static void gain(const double* k, sp_time_t n, double f, int pass, const char* w) { double g = response(k, n, f), e = fabs(pass ? g - 1 : g); vf_eval(1); if (!(e <= TOL_RESPONSE)) vf_fail(pass ? K("pass") : K("stop"), "%s: gain at %.6f is %.6f", w, f, g); }
/* expected gain at f: 1 pass, 0 stop, -1 transition */
static int region(double f, double lo, double tl, double hi, double th, int reject) {
  int above = lo <= 0 ? 1 : f >= lo + tl ? 1 : f <= lo - tl ? 0 : -1, below = hi >= 0.5 ? 1 : f <= hi - th ? 1 : f >= hi + th ? 0 : -1;
  if (!reject) return above == 0 || below == 0 ? 0 : above == 1 && below == 1 ? 1 : -1;
  /* the sum of a low-pass below lo and a high-pass above hi, both have to be out of their transitions */
  if (lo <= 0 || hi >= 0.5) return above == 0 || below == 0 ? 1 : above == 1 && below == 1 ? 0 : -1;
  return above < 0 || below < 0 ? -1 : above == 0 || below == 0 ? 1 : 0;
}
static int long_kernels; /* transitions so narrow that kernels are longer than small counters can hold */
static double pick_transition(vf_rng* r) { if (long_kernels) return long_kernels++ == 2 ? vf_real(r, .05, .4) : 4 / (double)(65500 + vf_below(r, 9000)); return vf_chance(r, .15) ? 0.5 : vf_chance(r, .2) ? 4 / (double)(8 + vf_below(r, 200)) : vf_chance(r, .1) ? vf_real(r, .004, .01) : vf_real(r, .01, .5); }
static void probe(vf_rng* r, const double* k, sp_time_t n, double lo, double tl, double hi, double th, int reject, const char* w) {
  double at[] = {0, 0.5, lo - tl, lo + tl, hi - th, hi + th, (lo + hi) / 2, lo / 2, (hi + .5) / 2}; for (int i = 0; i < 30; i++) { double f = i < 9 ? at[i] : vf_unit(r) / 2; if (!(f >= 0 && f <= .5)) continue; int g = region(f, lo, tl, hi, th, reject); if (g >= 0) gain(k, n, f, g, w); vf_count(g < 0 ? "frequencies in transitions" : g ? "frequencies in pass bands" : "frequencies in stop bands", 1); }
}
static void same(const double* k, const ld* want, sp_time_t n, const char* w) { vf_eval(n); for (sp_time_t i = 0; i < n; i++) if (!(fabsl(k[i] - want[i]) <= 1e-9)) { vf_fail(K("definition"), "%s: coefficient %u of %u is %.12g, a windowed sinc has %.12Lg", w, i, n, k[i], want[i]); return; } }
static void owned(double* k, sp_time_t n, const char* w) { vf_eval(1); if (!vf_ledger_owns_range(k, n * sizeof(double))) vf_fail(K("memory"), "%s: the kernel is shorter than %u", w, n); }
static void t_lp_hp(vf_rng* r, uint64_t ix) {
  double t = pick_transition(r), c = vf_chance(r, .1) ? 0.5 : vf_chance(r, .1) ? 0.25 : vf_real(r, 0.001, 0.499); int hp = vf_chance(r, .5); char w[120]; snprintf(w, sizeof w, "%s-pass, cutoff %.6f, transition %.6f", hp ? "high" : "low", c, t); vf_ledger_begin(); sp_sample_t* k = 0; sp_time_t n = 0, ln = sp_windowed_sinc_lp_hp_ir_length(t); status_t s;
  if (vf_chance(r, .3)) { unsigned char a[24]; memset(a, 0x5a, sizeof a); memcpy(a, &c, 8); memcpy(a + 8, &t, 8); sp_bool_t b = (sp_bool_t)hp; memcpy(a + 16, &b, sizeof b); s = sp_windowed_sinc_lp_hp_ir_f(a, &k, &n); } else s = sp_windowed_sinc_lp_hp_ir(c, t, (sp_bool_t)hp, &k, &n);
  vf_eval(3); if (s.id) { vf_fail(K("status"), "%s: status %d", w, s.id); vf_ledger_end(); return; } if (!length_ok(n, t) || n != ln) { vf_fail(K("length"), "%s: length %u (%u)", w, n, ln); }
  owned(k, n, w); shape(k, n, w); if (!vf_failed_in_case()) { ld* d = vf_malloc(n * sizeof(ld)); define(d, n, c, hp); same(k, d, n, w); vf_free(d); }
  if (hp) probe(r, k, n, c, t, 1, .1, 0, w); else probe(r, k, n, 0, .1, c >= .5 ? 1 : c, t, 0, w);
  vf_eval(1); if (!vf_near(response(k, n, 0), hp ? 0 : 1, 1e-9)) vf_fail(K("unity"), "%s: gain at zero is %.12g", w, response(k, n, 0));
  vf_sig(vf_hash(k, n * sizeof(double), 1)); free(k); vf_ledger_end_empty(K("leak"), w); if (ix < 3) vf_sample("%s: length %u", w, n); vf_count(hp ? "high-pass kernels" : "low-pass kernels", 1);
}
static void t_bp_br(vf_rng* r, uint64_t ix) {
  double tl = pick_transition(r), th = !long_kernels && vf_chance(r, .3) ? tl : pick_transition(r), lo = vf_real(r, .001, .499), hi = vf_real(r, .001, .499); if (lo > hi) { double x = lo; lo = hi; hi = x; } int reject = vf_chance(r, .5), edge = vf_chance(r, .3) ? 1 + (int)vf_below(r, 3) : 0; if (edge & 1) lo = vf_chance(r, .5) ? 0 : -vf_unit(r); if (edge & 2) hi = vf_chance(r, .5) ? 0.5 : 0.5 + vf_unit(r);
  if (!long_kernels && vf_chance(r, .3)) { tl *= .2; th *= .2; if (tl < .004) tl = .004; if (th < .004) th = .004; }
  char w[160]; snprintf(w, sizeof w, "band-%s %.6f to %.6f, transitions %.6f and %.6f", reject ? "reject" : "pass", lo, hi, tl, th); vf_ledger_begin(); sp_sample_t* k = 0; sp_time_t n = 0; status_t s;
  if (vf_chance(r, .3)) { unsigned char a[40]; memset(a, 0x5a, sizeof a); memcpy(a, &lo, 8); memcpy(a + 8, &hi, 8); memcpy(a + 16, &tl, 8); memcpy(a + 24, &th, 8); sp_bool_t b = (sp_bool_t)reject; memcpy(a + 32, &b, sizeof b); s = sp_windowed_sinc_bp_br_ir_f(a, &k, &n); } else s = sp_windowed_sinc_bp_br_ir(lo, hi, tl, th, (sp_bool_t)reject, &k, &n);
  vf_eval(2); if (s.id) { vf_fail(K("status"), "%s: status %d", w, s.id); vf_ledger_end(); return; }
  owned(k, n, w); shape(k, n, w); sp_time_t nl = sp_windowed_sinc_lp_hp_ir_length(tl), nh = sp_windowed_sinc_lp_hp_ir_length(th), want; const char* kind;
  int low = lo <= 0, high = hi >= .5; ld* d = 0;
  if (low && high) { want = 1; d = vf_calloc(sizeof(ld)); d[0] = reject ? 0 : 1; kind = reject ? "null" : "pass-through"; }
  else if (low || high) { want = low ? nh : nl; d = vf_calloc(want * sizeof(ld)); define(d, want, low ? hi : lo, low ? reject : !reject); kind = (low ? reject : !reject) ? "reduced to high-pass" : "reduced to low-pass"; }
  else { ld *a = vf_calloc(nl * sizeof(ld)), *b = vf_calloc(nh * sizeof(ld)); define(a, nl, lo, !reject); define(b, nh, hi, reject);
    if (reject) { want = nl > nh ? nl : nh; d = vf_calloc(want * sizeof(ld)); for (sp_time_t i = 0; i < nl; i++) d[i + (want - nl) / 2] += a[i]; for (sp_time_t i = 0; i < nh; i++) d[i + (want - nh) / 2] += b[i]; }
    else { want = nl + nh - 1; d = vf_calloc(want * sizeof(ld)); for (sp_time_t i = 0; i < nl; i++) for (sp_time_t j = 0; j < nh; j++) d[i + j] += a[i] * b[j]; }
    vf_free(a); vf_free(b); kind = reject ? "band-reject kernels" : "band-pass kernels"; }
  vf_eval(1); if (n != want || n % 2 == 0) vf_fail(K("length"), "%s: length %u, expected %u", w, n, want); else if (!vf_failed_in_case()) same(k, d, n, w);
  vf_free(d); probe(r, k, n, lo, tl, hi, th, reject, w); vf_count(kind, 1); vf_sig(vf_hash(k, n * sizeof(double), 2)); free(k); vf_ledger_end_empty(K("leak"), w); if (ix < 3) vf_sample("%s: length %u", w, n);
}
/* lengths for transitions at and around every odd and even length */
static void t_length(vf_rng* r, uint64_t ix) {
  (void)r; for (int k = 0; k < 5; k++) { double m = (double)(ix + 8) + (k == 0 ? 0 : k == 1 ? .5 : k == 2 ? .999 : k == 3 ? .001 : .25), t = 4 / m; sp_time_t n = sp_windowed_sinc_lp_hp_ir_length(t); vf_eval(1); if (!length_ok(n, t)) vf_fail(K("length"), "transition %.12f: length %u", t, n); vf_sig(vf_mix(n, 3)); } if (ix < 2) vf_sample("lengths near %lu", (unsigned long)ix + 8);
}
static void t_simple(vf_rng* r, uint64_t ix) {
  (void)r; (void)ix; vf_ledger_begin(); sp_sample_t* k = 0; sp_time_t n = 0; status_t s = sp_null_ir(&k, &n); vf_eval(2); if (s.id || n != 1 || k[0] != 0) vf_fail(K("null"), "null kernel of length %u", n); free(k); k = 0; n = 0; s = sp_passthrough_ir(&k, &n); if (s.id || n != 1 || k[0] != 1) vf_fail(K("pass-through"), "pass-through kernel of length %u", n); free(k); vf_ledger_end_empty(K("leak"), "simple kernels"); vf_sig(77);
}
static void t_long(vf_rng* r, uint64_t ix) { long_kernels = 1; if (ix & 1) { long_kernels = 1; t_bp_br(r, ix); } else t_lp_hp(r, ix); long_kernels = 0; vf_count("long kernels", 1); }
vf_suite vf_suites[] = {{"long", t_long, 12, 400}, {"lp_hp", t_lp_hp, 5000, 150000}, {"bp_br", t_bp_br, 5000, 150000}, {"length", t_length, 2000, 20000}, {"simple", t_simple, 2, 4}, {0}};
