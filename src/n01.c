/* N01: noise events are bounded, band limited, reproducible and split invariant */
#include "gen.h"
#define K(f) "N01:" f
#define CH sp_channel_count_limit
#define RATE 4000
void vf_setup(void) { status_t s = sp_initialize(0, 2, RATE); if (s.id) vf_error("init"); }
/* everything that defines a noise event */
typedef struct { sp_time_t n, resolution; int reject, channels; struct { int use, out; double amp, *amod; sp_frq_t frq, wdt, trnl, trnh; sp_time_t *fmod, *wmod; } c[CH]; sp_time_t seed; sp_time_t disturb; int defaults, manual; sp_time_t configs, config; } conf;
static double* constant(sp_time_t n, double x) { double* a = vf_guarded(n * sizeof(double)); for (sp_time_t i = 0; i < n; i++) a[i] = x; return a; }
static sp_frq_t trn(vf_rng* r) { return (sp_frq_t)(RATE / 100 + vf_below(r, RATE / 3)); }
static conf conf_random(vf_rng* r, sp_time_t n, int modulated) {
  conf k; memset(&k, 0, sizeof k); k.n = n; k.resolution = vf_chance(r, .3) ? 96 : 1 + (sp_time_t)vf_size(r, 0, n + 200); if (vf_chance(r, .05)) k.resolution = vf_chance(r, .5) ? (sp_time_t)1 << (8 + vf_below(r, 24)) : UINT32_MAX - (sp_time_t)vf_below(r, 3); k.reject = vf_chance(r, .3); k.channels = 1 + (int)vf_below(r, CH); k.seed = (sp_time_t)vf_u64(r);
  for (int i = 0; i < k.channels; i++) { k.c[i].use = i == 0 || vf_chance(r, .6); k.c[i].out = vf_chance(r, .8) ? i : (int)vf_below(r, CH); k.c[i].amp = vf_chance(r, .2) ? 1 : vf_real(r, .1, 2); if (i == 0 || vf_chance(r, .6)) { k.c[i].amod = vf_guarded(n * sizeof(double)); for (sp_time_t t = 0; t < n; t++) k.c[i].amod[t] = vf_real(r, -1, 1); }
    if (i == 0 || vf_chance(r, .5)) { k.c[i].frq = (sp_frq_t)(i ? 1 + vf_below(r, RATE / 2) : vf_below(r, RATE / 2)); k.c[i].wdt = (sp_frq_t)(1 + vf_below(r, RATE / 2)); k.c[i].trnl = trn(r); k.c[i].trnh = trn(r);
      if (modulated) { if (vf_chance(r, .7)) { k.c[i].fmod = vf_guarded(n * sizeof(sp_time_t)); for (sp_time_t t = 0; t < n; t++) k.c[i].fmod[t] = (sp_time_t)vf_below(r, RATE / 2); } if (vf_chance(r, .7)) { k.c[i].wmod = vf_guarded(n * sizeof(sp_time_t)); for (sp_time_t t = 0; t < n; t++) k.c[i].wmod[t] = 1 + (sp_time_t)vf_below(r, RATE / 2); } } } }
  return k;
}
static void conf_free(conf* k) { for (int i = 0; i < CH; i++) { vf_guarded_free(k->c[i].amod); vf_guarded_free(k->c[i].fmod); vf_guarded_free(k->c[i].wmod); } }
static int conf_guards(conf* k, const char* w) { int ok = 1; for (int i = 0; i < CH; i++) { if (k->c[i].amod) ok &= guards_ok(K("outside"), w, k->c[i].amod); if (k->c[i].fmod) ok &= guards_ok(K("outside"), w, k->c[i].fmod); if (k->c[i].wmod) ok &= guards_ok(K("outside"), w, k->c[i].wmod); } return ok; }
static uint64_t conf_hash(conf* k) { uint64_t h = vf_mix(vf_mix(k->n, k->seed), (uint64_t)(k->reject * 10 + k->channels)); for (int i = 0; i < k->channels; i++) h = vf_mix(vf_mix(h, k->c[i].frq), vf_mix(k->c[i].wdt, k->c[i].trnl)); return h; }
/* renders in blocks of the given sizes into out, which may have content. 1 on success */
static int render(conf* k, const sp_time_t* cut, int cuts, double** out, const char* w) {
  sp_random_state = sp_random_state_new(k->seed); vf_ledger_begin(); sp_noise_event_config_t* c; if (k->configs > 1 ? sp_noise_event_config_new_n(k->configs, &c).id : sp_noise_event_config_new(&c).id) vf_error("config"); sp_declare_event(e); e.end = k->n; sp_event_t* p = &e; if (sp_event_memory_add(p, c).id) vf_error("memory"); c += k->config;
  if (!k->defaults) { c->is_reject = (sp_bool_t)k->reject; c->resolution = k->resolution; c->channel_count = (sp_channel_count_t)k->channels; }
  if (k->defaults) { c->channel_config[0].amod = k->c[0].amod; if (k->c[0].frq) c->channel_config[0].frq = k->c[0].frq; } else for (int i = 0; i < k->channels; i++) { c->channel_config[i].use = (sp_bool_t)k->c[i].use; c->channel_config[i].amp = k->c[i].amp; c->channel_config[i].amod = k->c[i].amod; c->channel_config[i].channel = (sp_channel_count_t)k->c[i].out; c->channel_config[i].frq = k->c[i].frq; c->channel_config[i].wdt = k->c[i].wdt; c->channel_config[i].trnl = k->c[i].trnl; c->channel_config[i].trnh = k->c[i].trnh; c->channel_config[i].fmod = k->c[i].fmod; c->channel_config[i].wmod = k->c[i].wmod; }
  /* set up by hand, the random state is chosen when the event is prepared */
  if (k->manual) { p->prepare = sp_noise_event_prepare; p->generate = sp_noise_event_generate; p->config = c; } else { sp_noise_event(p, c); for (sp_time_t i = 0; i < k->disturb; i++) sp_time_random(); }
  sp_declare_event_list(l); if (sp_event_list_add(&l, e).id) vf_error("list"); status_t s = {0};
  for (int b = 0; b < cuts && !s.id; b++) { sp_block_t block; block.channel_count = CH; block.size = cut[b + 1] - cut[b]; for (int ch = 0; ch < CH; ch++) block.samples[ch] = out[ch] + cut[b]; s = sp_seq(cut[b], cut[b + 1], block, &l); for (sp_time_t i = 0; i < k->disturb % 3; i++) sp_time_random(); }
  vf_eval(1); if (s.id) vf_fail(K("status"), "%s: status %d", w, s.id); sp_event_list_free(&l); vf_ledger_end_empty(K("leak"), w); return !s.id;
}
static int cut_random(vf_rng* r, sp_time_t n, sp_time_t* cut, int max) { int k = 0, how = (int)vf_below(r, 3); sp_time_t fixed = 1 + (sp_time_t)vf_size(r, 0, n); cut[0] = 0; while (cut[k] < n && k < max - 2) { sp_time_t q = cut[k] + (how == 0 ? fixed : how == 1 ? 1 + (sp_time_t)vf_below(r, 9) : 1 + (sp_time_t)vf_below(r, n - cut[k])); cut[++k] = q > n ? n : q; } if (cut[k] < n) cut[++k] = n; return k; }
static void outs_new(double** o, sp_time_t n) { for (int c = 0; c < CH; c++) { o[c] = vf_guarded(n * sizeof(double)); memset(o[c], 0, n * sizeof(double)); } }
static void outs_free(double** o) { for (int c = 0; c < CH; c++) vf_guarded_free(o[c]); }
static void outs_guards(double** o, const char* w) { for (int c = 0; c < CH; c++) guards_ok(K("outside"), w, o[c]); }
static sp_time_t pick_length(vf_rng* r) { return vf_chance(r, .03) ? 4 * RATE + (sp_time_t)vf_below(r, 6000) : vf_chance(r, .15) ? (sp_time_t)vf_size(r, 1, 4000) : (sp_time_t)vf_size(r, 1, 600); }
/* same seed and configuration, other division into blocks and other use of the random state */
static void t_split(vf_rng* r, uint64_t ix) {
  sp_time_t n = pick_length(r), cut[3000], one[2] = {0, n}; conf k = conf_random(r, n, 0); k.manual = vf_chance(r, .15); double *a[CH], *b[CH]; char w[160]; snprintf(w, sizeof w, "%u samples, %d channels%s%s, resolution %u", n, k.channels, k.reject ? ", reject" : "", k.manual ? ", set up by hand" : "", k.resolution); outs_new(a, n); int ok = render(&k, one, 1, a, w);
  for (int i = 0; i < 2 && ok && !vf_failed_in_case(); i++) { outs_new(b, n); int cuts = cut_random(r, n, cut, 3000); k.disturb = (sp_time_t)vf_below(r, 5); sp_time_t res = k.resolution; if (vf_chance(r, .5)) k.resolution = 1 + (sp_time_t)vf_below(r, n + 100); ok = render(&k, cut, cuts, b, w); k.resolution = res; for (int c = 0; c < CH && ok; c++) eq_samples(K("split"), w, b[c], a[c], n, 1e-9); outs_guards(b, w); outs_free(b); vf_count("blocks", (uint64_t)cuts); }
  /* another seed */
  if (ok && n > 8) { outs_new(b, n); k.seed += 1 + (sp_time_t)vf_below(r, 1000); k.disturb = 0; ok = render(&k, one, 1, b, w); vf_eval(1); int sum = 0; for (int c = 0; c < CH; c++) for (sp_time_t t = 0; t < n; t++) { if (a[c][t] != b[c][t]) sum |= 1; if (a[c][t] != 0) sum |= 2; } if (ok && sum == 2) vf_fail(K("seed"), "%s: the same samples for another seed", w); outs_free(b); }
  conf_guards(&k, w); vf_sig(conf_hash(&k)); vf_count("constant filters", 1); if (n > 4 * RATE) vf_count("long events", 1); if (ix < 3) vf_sample("%s", w); outs_free(a); conf_free(&k);
}
/* repeated renderings are equal also with modulation, the result is added, bounded, and written where it belongs */
static void t_modulated(vf_rng* r, uint64_t ix) {
  sp_time_t n = vf_chance(r, .05) ? 4 * RATE + (sp_time_t)vf_below(r, 2000) : (sp_time_t)vf_size(r, 1, 900), cut[3000]; conf k = conf_random(r, n, 1); if (k.resolution < n / 40) k.resolution = n / 40 + 1; int cuts = cut_random(r, n, cut, 40); double *a[CH], *b[CH]; char w[160]; int loud = vf_chance(r, .5); if (loud) for (int i = 0; i < k.channels; i++) k.c[i].amp *= 40; snprintf(w, sizeof w, "modulated, %u samples, %d channels, resolution %u, %d blocks%s", n, k.channels, k.resolution, cuts, loud ? ", loud" : "");
  outs_new(a, n); outs_new(b, n); double* prior[CH]; int dest[CH] = {0}; for (int i = 0; i < k.channels; i++) dest[k.c[i].out]++; for (int c = 0; c < CH; c++) { prior[c] = vf_guarded(n * sizeof(double)); for (sp_time_t t = 0; t < n; t++) { prior[c][t] = (double)vf_range(r, -50, 50); b[c][t] = prior[c][t]; } }
  int ok = render(&k, cut, cuts, a, w); k.disturb = (sp_time_t)vf_below(r, 4); if (ok) ok = render(&k, cut, cuts, b, w); uint64_t limited = 0;
  for (int c = 0; c < CH && ok && !vf_failed_in_case(); c++) { vf_eval(3 * (uint64_t)n); for (sp_time_t t = 0; t < n; t++) { if (!isfinite(a[c][t]) || fabs(a[c][t]) > dest[c] + 1e-9) { vf_fail(dest[c] ? K("bounds") : K("channel"), "%s: channel %d sample %u is %.9g with %d sources", w, c, t, a[c][t], dest[c]); break; } if (fabs(a[c][t]) == 1) limited++; if (!vf_near(b[c][t], prior[c][t] + a[c][t], 1e-9)) { vf_fail(K("reproducible"), "%s: channel %d sample %u is %.9g in addition to %.9g, and %.9g alone", w, c, t, b[c][t], prior[c][t], a[c][t]); break; } } vf_guarded_free(prior[c]); prior[c] = 0; }
  for (int c = 0; c < CH; c++) vf_guarded_free(prior[c]);
  outs_guards(a, w); conf_guards(&k, w); vf_sig(conf_hash(&k)); vf_count("modulated filters", 1); vf_count("limited samples", limited); if (ix < 3) vf_sample("%s", w); outs_free(a); outs_free(b); conf_free(&k);
}
/* amplitude and its modulation scale the same noise, also for a second channel that repeats or shares the first */
static void t_scale(vf_rng* r, uint64_t ix) {
  sp_time_t n = pick_length(r), cut[300]; conf k = conf_random(r, n, 0), u; int cuts = cut_random(r, n, cut, 300); k.channels = CH; if (CH < 2) vf_error("channels"); int copy = vf_chance(r, .5); k.c[0].out = 0; int other = CH > 2 && vf_chance(r, .5) ? 1 + (int)vf_below(r, CH - 1) : -1; for (int i = 1; i < CH; i++) { k.c[i].out = i; if (i == other) { k.c[i].use = 1; k.c[i].frq = 1 + (sp_frq_t)vf_below(r, RATE / 2); continue; } k.c[i].use = !copy; k.c[i].frq = k.c[i].wdt = k.c[i].trnl = k.c[i].trnh = 0; if (!copy && k.c[i].amp == 0) k.c[i].amp = 1; } char w[160]; snprintf(w, sizeof w, "%u samples, amplitudes %.3f and %.3f%s, %d blocks", n, k.c[0].amp, k.c[1].amp, copy ? ", channel repeated" : ", noise shared", cuts);
  if (vf_chance(r, .3)) k.c[0].amp *= 30;
  u = k; u.c[0].amp = 0.125; for (int i = 1; i < CH; i++) if (i != other) { u.c[i].use = 0; u.c[i].amod = 0; } u.c[0].amod = constant(n, 1); double *x[CH], *y[CH]; outs_new(x, n); outs_new(y, n); int ok = render(&u, cut, cuts, x, w) && render(&k, cut, cuts, y, w);
  for (int c = 0; c < CH && ok; c++) { if (c == other) continue; int own = c && !copy; double amp = own ? k.c[c].amp : k.c[0].amp, *am = own && k.c[c].amod ? k.c[c].amod : k.c[0].amod; vf_eval(n); for (sp_time_t t = 0; t < n; t++) { double z = amp * am[t] * x[0][t] * 8, want = z > 1 ? 1 : z < -1 ? -1 : z; if (!vf_near(y[c][t], want, 1e-9)) { vf_fail(K("scale"), "%s: channel %d sample %u is %.9g, expected %.9g", w, c, t, y[c][t], want); break; } } }
  for (int c = 1; c < CH; c++) if (c != other) for (sp_time_t t = 0; t < n && ok; t++) { vf_eval(1); if (!vf_near(x[c][t], x[0][t], 1e-12)) { vf_fail(K("repeat"), "%s: channel %d without settings differs at %u", w, c, t); break; } }
  vf_sig(conf_hash(&k)); vf_count(copy ? "repeated channels" : "shared noise", 1); if (ix < 3) vf_sample("%s", w); vf_guarded_free(u.c[0].amod); outs_free(x); outs_free(y); conf_free(&k);
}
/* ---- power density by bins of a windowed transform */
#define NF 4096
static double wre[NF], wim[NF];
static void fft(double* re, double* im) { for (int i = 1, j = 0; i < NF; i++) { int bit = NF >> 1; for (; j & bit; bit >>= 1) j ^= bit; j ^= bit; if (i < j) { double t = re[i]; re[i] = re[j]; re[j] = t; t = im[i]; im[i] = im[j]; im[j] = t; } } for (int len = 2; len <= NF; len <<= 1) { double a = -2 * M_PI / len; for (int i = 0; i < NF; i += len) for (int k = 0; k < len / 2; k++) { double c = cos(a * k), s = sin(a * k), xr = re[i + k + len / 2] * c - im[i + k + len / 2] * s, xi = re[i + k + len / 2] * s + im[i + k + len / 2] * c; re[i + k + len / 2] = re[i + k] - xr; im[i + k + len / 2] = im[i + k] - xi; re[i + k] += xr; im[i + k] += xi; } } }
/* density relative to white noise in -1..1, of n <= NF samples */
static void density(const double* x, sp_time_t n, double* out) { double sum = 0; memset(wim, 0, sizeof wim); memset(wre, 0, sizeof wre); for (sp_time_t i = 0; i < n; i++) { double p = 2 * M_PI * (i + .5) / n, h = .42 - .5 * cos(p) + .08 * cos(2 * p); wre[i] = x[i] * h; sum += h * h; } fft(wre, wim); for (int i = 0; i <= NF / 2; i++) out[i] = (wre[i] * wre[i] + wim[i] * wim[i]) / sum * 3; }
/* mean density in the band of hertz, with the number of independent bins */
static double band(const double* d, double a, double b, double* bins, sp_time_t n) { int i0 = (int)ceil(a * NF / RATE), i1 = (int)floor(b * NF / RATE); if (i0 < 0) i0 = 0; if (i1 > NF / 2) i1 = NF / 2; double s = 0; int k = 0; for (int i = i0; i <= i1; i++, k++) s += d[i]; *bins = (double)k * n / NF / 2; return k ? s / k : 0; }
static void check_bands(const double* d, sp_time_t n, double lo, double tl, double hi, double th, int reject, const char* w, int c) {
  /* edges that are not filtered */
  double res = 6.0 * RATE / n, in_a, in_b, bins, v; int low = lo <= 0, high = hi >= RATE / 2.0;
  if (reject) {
    if (!low && !high) { double g = lo + (tl > th ? tl : th) + res, h = hi - (tl > th ? tl : th) - res; if (h > g) { v = band(d, g, h, &bins, n); if (bins >= 2) { vf_eval(1); vf_count("stop bands", 1); if (v > 2e-3) vf_fail(K("reject"), "%s: channel %d: density %.6f inside of %.0f to %.0f", w, c, v, g, h); } } }
    if (!low && !high) { double both = tl > th ? tl : th, g = lo - both - res; if (g > 0) { v = band(d, 0, g, &bins, n); if (bins >= 12) { vf_eval(1); vf_count("pass bands", 1); if (v < .3 || v > 2.5) vf_fail(K("pass"), "%s: channel %d: density %.6f below %.0f", w, c, v, g); } } g = hi + both + res; if (g < RATE / 2.0 && lo + tl < hi + th) { v = band(d, g, RATE / 2.0, &bins, n); if (bins >= 12) { vf_eval(1); vf_count("pass bands", 1); if (v < .3 || v > 2.5) vf_fail(K("pass"), "%s: channel %d: density %.6f above %.0f", w, c, v, g); } } }
    return;
  }
  if (!low && lo - tl - res > 0) { v = band(d, 0, lo - tl - res, &bins, n); if (bins >= 2) { vf_eval(1); vf_count("stop bands", 1); if (v > 2e-3) vf_fail(K("stop"), "%s: channel %d: density %.6f below %.0f", w, c, v, lo - tl); } }
  if (!high && hi + th + res < RATE / 2.0) { v = band(d, hi + th + res, RATE / 2.0, &bins, n); if (bins >= 2) { vf_eval(1); vf_count("stop bands", 1); if (v > 2e-3) vf_fail(K("stop"), "%s: channel %d: density %.6f above %.0f", w, c, v, hi + th); } }
  in_a = low ? 0 : lo + tl + res; in_b = high ? RATE / 2.0 : hi - th - res; if (in_b > in_a) { v = band(d, in_a, in_b, &bins, n); if (bins >= 12) { vf_eval(1); vf_count("pass bands", 1); if (v < .3 || v > 2.5) vf_fail(K("pass"), "%s: channel %d: density %.6f in %.0f to %.0f", w, c, v, in_a, in_b); } }
}
/* the noise is there from the first samples on, the delay of the filter is skipped */
static void check_begin(const double* x, double lo, double tl, double hi, double th, int reject, const char* w, int c) {
  double width, v = 0, t = tl < th ? tl : th, top = hi < RATE / 2.0 ? hi : RATE / 2.0; width = top > lo ? top - lo : 0; if (reject) width = RATE / 2.0 - width; if (t > RATE / 20 || width < 1000) return;
  for (int i = 0; i < 40; i++) v += x[i] * x[i]; v = v / 40 * 3 / (width / (RATE / 2.0)); vf_eval(1); vf_count("beginnings", 1); if (v < .02) vf_fail(K("delay"), "%s: channel %d: power of the first samples is %.6f", w, c, v);
}
/* also the first samples already have the spectrum of the filter. the window begins at full height, so that some energy of the pass band leaks near its edges */
static void check_first(const double* x, double lo, double tl, double hi, double th, int reject, const char* w, int c) {
  static double d[NF / 2 + 1]; int m = 600; double sum = 0, near = .06 * RATE, t = tl > th ? tl : th, bins, v; memset(wim, 0, sizeof wim); memset(wre, 0, sizeof wre);
  for (int i = 0; i < m; i++) { double h = .5 + .5 * cos(M_PI * i / m); wre[i] = x[i] * h; sum += h * h; } fft(wre, wim); for (int i = 0; i <= NF / 2; i++) d[i] = (wre[i] * wre[i] + wim[i] * wim[i]) / sum * 3;
  if (reject) { if (lo <= 0 || hi >= RATE / 2.0 || hi - lo < 2 * (t + near) + .04 * RATE) return; v = band(d, lo + t + near, hi - t - near, &bins, m); vf_eval(1); vf_count("first spectra", 1); if (v > .06) vf_fail(K("first"), "%s: channel %d: density %.4f inside of the rejected band in the first samples", w, c, v); return; }
  if (lo > 0 && lo - tl - near > .05 * RATE) { v = band(d, 0, lo - tl - near, &bins, m); vf_eval(1); vf_count("first spectra", 1); if (v > .06) vf_fail(K("first"), "%s: channel %d: density %.4f below the band in the first samples", w, c, v); }
  if (hi < RATE / 2.0 && hi + th + near < .45 * RATE) { v = band(d, hi + th + near, RATE / 2.0, &bins, m); vf_eval(1); vf_count("first spectra", 1); if (v > .06) vf_fail(K("first"), "%s: channel %d: density %.4f above the band in the first samples", w, c, v); }
}
static void t_bands(vf_rng* r, uint64_t ix) {
  sp_time_t n = NF, cut[200]; conf k; memset(&k, 0, sizeof k); k.n = n; k.resolution = 96; k.reject = vf_chance(r, .35); k.channels = vf_chance(r, .5) ? 1 : CH; k.seed = (sp_time_t)vf_u64(r); char w[200]; int cuts = vf_chance(r, .5) ? (cut[0] = 0, cut[1] = n, 1) : cut_random(r, n, cut, 200);
  for (int i = 0; i < k.channels; i++) { k.c[i].use = 1; k.c[i].out = i; k.c[i].amp = .25; k.c[i].amod = constant(n, 1); k.c[i].frq = (sp_frq_t)(vf_chance(r, .15) ? 0 : 1 + vf_below(r, RATE / 2 - 200)); k.c[i].wdt = (sp_frq_t)(k.reject ? 300 + vf_below(r, RATE / 2) : vf_chance(r, .15) ? RATE / 2 : 50 + vf_below(r, RATE / 2)); k.c[i].trnl = (sp_frq_t)(RATE / 50 + vf_below(r, vf_chance(r, .5) ? RATE / 20 : RATE / 5)); k.c[i].trnh = (sp_frq_t)(RATE / 50 + vf_below(r, vf_chance(r, .5) ? RATE / 20 : RATE / 5)); }
  snprintf(w, sizeof w, "band %u to %u%s, transitions %u and %u, %d blocks", k.c[0].frq, k.c[0].frq + k.c[0].wdt, k.reject ? " rejected" : "", k.c[0].trnl, k.c[0].trnh, cuts); double *a[CH], d[NF]; outs_new(a, n);
  if (render(&k, cut, cuts, a, w)) for (int i = 0; i < k.channels; i++) { for (sp_time_t t = 0; t < n; t++) a[i][t] *= 4; check_first(a[i], k.c[i].frq, k.c[i].trnl, (double)k.c[i].frq + k.c[i].wdt, k.c[i].trnh, k.reject, w, i); check_begin(a[i], k.c[i].frq, k.c[i].trnl, (double)k.c[i].frq + k.c[i].wdt, k.c[i].trnh, k.reject, w, i); density(a[i], n, d); check_bands(d, n, k.c[i].frq, k.c[i].trnl, (double)k.c[i].frq + k.c[i].wdt, k.c[i].trnh, k.reject, w, i); }
  vf_sig(conf_hash(&k)); vf_count("spectra", (uint64_t)k.channels); if (ix < 3) vf_sample("%s", w); outs_free(a); conf_free(&k);
}
/* the band is somewhere else in the second half of the event */
static void t_moving(vf_rng* r, uint64_t ix) {
  sp_time_t half = 2048, n = 2 * half, cut[200]; conf k; memset(&k, 0, sizeof k); k.n = n; k.resolution = 16 + (sp_time_t)vf_below(r, 200); int who = (int)vf_below(r, CH); k.channels = who + 1; k.seed = (sp_time_t)vf_u64(r); k.reject = vf_chance(r, .25); int how = 1 + (int)vf_below(r, 3); int cuts = cut_random(r, n, cut, 60); char w[200];
  unsigned f[2], b[2]; for (int i = 0; i < 2; i++) { f[i] = 1 + (unsigned)vf_below(r, RATE / 2 - 400); b[i] = k.reject ? 500 + (unsigned)vf_below(r, 900) : 200 + (unsigned)vf_below(r, 900); } if (!(how & 1)) f[1] = f[0]; if (!(how & 2)) b[1] = b[0];
  for (int i = 0; i <= who; i++) { k.c[i].use = 1; k.c[i].amp = .25; k.c[i].out = i; if (i < who) { k.c[i].frq = 300; k.c[i].wdt = 500; k.c[i].trnl = k.c[i].trnh = 200; } } k.c[0].amod = constant(n, 1);  k.c[who].frq = (sp_frq_t)f[0]; k.c[who].wdt = (sp_frq_t)b[0]; k.c[who].trnl = k.c[who].trnh = (sp_frq_t)(100 + vf_below(r, 150)); if (how & 1) { k.c[who].frq = (sp_frq_t)vf_below(r, 1000); k.c[who].fmod = vf_guarded(n * sizeof(sp_time_t)); } if (how & 2) { k.c[who].wdt = (sp_frq_t)(1 + vf_below(r, 1000)); k.c[who].wmod = vf_guarded(n * sizeof(sp_time_t)); } for (sp_time_t t = 0; t < n; t++) { if (how & 1) k.c[who].fmod[t] = f[t >= half]; if (how & 2) k.c[who].wmod[t] = b[t >= half]; }
  snprintf(w, sizeof w, "channel %d, band %u to %u, later %u to %u%s, resolution %u, %d blocks", who, f[0], f[0] + b[0], f[1], f[1] + b[1], k.reject ? ", rejected" : "", k.resolution, cuts); double *a[CH], d[NF]; outs_new(a, n); sp_time_t len = sp_windowed_sinc_lp_hp_ir_length((double)k.c[who].trnl / RATE) * 2;
  /* the change takes effect with the following update, at most one resolution later, and the tail of the previous kernel follows */
  if (render(&k, cut, cuts, a, w)) for (int i = 0; i < 2; i++) { sp_time_t from = i ? half + k.resolution + len : 0, m = (i ? n : half) - from; for (sp_time_t t = 0; t < n; t++) if (!i) a[who][t] *= 4; density(a[who] + from, m, d); check_bands(d, m, f[i], k.c[who].trnl, f[i] + b[i], k.c[who].trnh, k.reject, w, who); }
  vf_sig(conf_hash(&k)); vf_count("moving bands", 1); if (ix < 3) vf_sample("%s", w); outs_free(a); conf_free(&k);
}
/* unfiltered noise: moments and independence of all distances, across all internal borders */
static void t_white(vf_rng* r, uint64_t ix) {
  sp_time_t n = vf_chance(r, .2) ? 4 * RATE + 3000 : 2000 + (sp_time_t)vf_below(r, 3000), cut[400]; conf k; memset(&k, 0, sizeof k); k.n = n; k.channels = CH; k.seed = (sp_time_t)vf_u64(r); k.resolution = 1 + (sp_time_t)vf_below(r, 300); char w[160]; int cuts = cut_random(r, n, cut, 400); for (int i = 0; i < CH; i++) { k.c[i].use = 1; k.c[i].out = i; k.c[i].amp = 1; k.c[i].amod = constant(n, 1); if (!i) k.c[i].wdt = RATE / 2; k.c[i].trnl = k.c[i].trnh = i ? 0 : 320; }
  if (vf_chance(r, .3)) { k.c[0].fmod = vf_guarded(n * sizeof(sp_time_t)); memset(k.c[0].fmod, 0, n * sizeof(sp_time_t)); } /* updates that change nothing */
  snprintf(w, sizeof w, "unfiltered, %u samples in %d blocks", n, cuts); double* a[CH]; outs_new(a, n);
  if (render(&k, cut, cuts, a, w)) { double m = 0, v = 0, *x = a[0]; for (sp_time_t t = 0; t < n; t++) { m += x[t]; v += x[t] * x[t]; } m /= n; v /= n; vf_eval(2); if (fabs(m) > 9 * sqrt(1.0 / 3 / n) || fabs(v - 1.0 / 3) > 9 * sqrt(4.0 / 45 / n)) vf_fail(K("distribution"), "%s: mean %.5f, power %.5f", w, m, v); for (sp_time_t lag = 1; lag < n - n / 4; lag++) { double s = 0; sp_time_t q = n - lag; for (sp_time_t t = 0; t < q; t++) s += x[t] * x[t + lag]; vf_eval(1); if (fabs(s) * 3 > 9 * sqrt((double)q)) { vf_fail(K("repetition"), "%s: samples with a distance of %u correlate with %.3f", w, lag, s * 3 / q); break; } } }
  vf_sig(conf_hash(&k)); vf_count("correlations", n); if (ix < 2) vf_sample("%s", w); outs_free(a); conf_free(&k);
}
/* a new configuration only needs an amplitude: full band at full scale on all channels, and a lower edge makes it a high-pass */
static void t_defaults(vf_rng* r, uint64_t ix) {
  sp_time_t n = NF, cut[200]; conf k; memset(&k, 0, sizeof k); k.n = n; k.seed = (sp_time_t)vf_u64(r); k.defaults = 1; k.configs = vf_chance(r, .5) ? 1 : vf_chance(r, .1) ? 66000 + (sp_time_t)vf_below(r, 5000) : 2 + (sp_time_t)vf_below(r, 5); k.config = (sp_time_t)vf_below(r, k.configs); k.c[0].frq = (sp_frq_t)(vf_chance(r, .4) ? 0 : 1 + vf_below(r, RATE / 2 - 1)); int cuts = cut_random(r, n, cut, 200); k.c[0].amod = constant(n, .25); char w[160]; snprintf(w, sizeof w, "defaults, lower edge %u, config %u of %u, %d blocks", k.c[0].frq, k.config, k.configs, cuts); double *a[CH], d[NF]; outs_new(a, n);
  if (render(&k, cut, cuts, a, w)) { double m = 0, v = 0; for (sp_time_t t = 0; t < n; t++) { a[0][t] *= 4; m += a[0][t]; v += a[0][t] * a[0][t]; } m /= n; v /= n; if (!k.c[0].frq) { vf_eval(2); if (fabs(m) > 9 * sqrt(1.0 / 3 / n) || fabs(v - 1.0 / 3) > 9 * sqrt(4.0 / 45 / n)) vf_fail(K("default-noise"), "%s: mean %.5f, power %.5f", w, m, v); }
    density(a[0], n, d); check_bands(d, n, k.c[0].frq, .08 * RATE, RATE, .08 * RATE, 0, w, 0); for (int c = 1; c < CH; c++) for (sp_time_t t = 0; t < n; t++) { vf_eval(1); if (!vf_near(a[c][t] * 4, a[0][t], 1e-9)) { vf_fail(K("default-channels"), "%s: channel %d differs at %u", w, c, t); break; } } }
  vf_sig(conf_hash(&k)); vf_count("defaults", 1); if (ix < 3) vf_sample("%s", w); outs_guards(a, w); outs_free(a); vf_guarded_free(k.c[0].amod);
}
/* what later channels leave open is as in the first channel */
static void t_inherit(vf_rng* r, uint64_t ix) {
  sp_time_t n = (sp_time_t)vf_size(r, 1, 1500), cut[60]; conf k = conf_random(r, n, 1), u; if (k.resolution < n / 40) k.resolution = n / 40 + 1; if (k.channels < 2) k.channels = CH; for (int i = 1; i < k.channels; i++) { k.c[i].use = 1; if (!k.c[i].frq) { k.c[i].frq = (sp_frq_t)(1 + vf_below(r, RATE / 2)); k.c[i].wdt = (sp_frq_t)(1 + vf_below(r, RATE / 2)); k.c[i].trnl = trn(r); k.c[i].trnh = trn(r); } if (!k.c[i].amp) k.c[i].amp = 1; }
  if (!k.c[0].frq) k.c[0].frq = 1 + (sp_frq_t)vf_below(r, 500); u = k; int open = 0;
  for (int i = 1; i < k.channels; i++) {
    if (!k.c[i].amod) u.c[i].amod = k.c[0].amod; if (!k.c[i].fmod) u.c[i].fmod = k.c[0].fmod; if (!k.c[i].wmod) u.c[i].wmod = k.c[0].wmod;
    if (vf_chance(r, .5)) { k.c[i].wdt = 0; u.c[i].wdt = k.c[0].wdt; open++; } if (vf_chance(r, .5)) { k.c[i].trnl = 0; u.c[i].trnl = k.c[0].trnl; open++; } if (vf_chance(r, .5)) { k.c[i].trnh = 0; u.c[i].trnh = k.c[0].trnh; open++; } }
  if (vf_chance(r, .4)) { /* any single setting makes the channel have its own filter */ if (!k.c[0].fmod) k.c[0].frq = u.c[0].frq = 0;
    for (int i = 1; i < k.channels; i++) { int keep = (int)vf_below(r, 64); if (!(keep & 1)) k.c[i].frq = u.c[i].frq = 0; if (!(keep & 2)) { k.c[i].wdt = 0; u.c[i].wdt = k.c[0].wdt; } if (!(keep & 4)) { k.c[i].trnl = 0; u.c[i].trnl = k.c[0].trnl; } if (!(keep & 8)) { k.c[i].trnh = 0; u.c[i].trnh = k.c[0].trnh; } if (k.c[i].fmod && !(keep & 16)) { vf_guarded_free(k.c[i].fmod); k.c[i].fmod = 0; u.c[i].fmod = k.c[0].fmod; } if (k.c[i].wmod && !(keep & 32)) { vf_guarded_free(k.c[i].wmod); k.c[i].wmod = 0; u.c[i].wmod = k.c[0].wmod; }
      if (!(k.c[i].frq || k.c[i].wdt || k.c[i].trnl || k.c[i].trnh || k.c[i].fmod || k.c[i].wmod)) { if (keep & 1) k.c[i].trnl = u.c[i].trnl = trn(r); else k.c[i].trnh = u.c[i].trnh = trn(r); } open++; } }
  double *x[CH], *y[CH]; char w[160]; int cuts = cut_random(r, n, cut, 40); snprintf(w, sizeof w, "%u samples, %d channels with %d open settings%s%s, %d blocks", n, k.channels, open, k.c[0].fmod ? ", modulated edge" : "", k.c[0].wmod ? ", modulated width" : "", cuts); outs_new(x, n); outs_new(y, n);
  if (render(&k, cut, cuts, x, w) && render(&u, cut, cuts, y, w)) for (int c = 0; c < CH; c++) eq_samples(K("inherit"), w, x[c], y[c], n, 1e-9);
  vf_sig(conf_hash(&k)); vf_count("open settings", (uint64_t)open); if (ix < 3) vf_sample("%s", w); outs_guards(x, w); outs_free(x); outs_free(y); conf_guards(&k, w); conf_free(&k);
}
/* modulation that does not change is the same as a fixed setting */
static void t_constant(vf_rng* r, uint64_t ix) {
  sp_time_t n = (sp_time_t)vf_size(r, 1, 1500), cut[60]; conf k = conf_random(r, n, 0), u; if (k.resolution < n / 40) k.resolution = n / 40 + 1; u = k; int some = 0;
  for (int i = 0; i < k.channels; i++) if (k.c[i].use && (!i || k.c[i].frq)) { int f = vf_chance(r, .6), m = vf_chance(r, .6); some += f + m; if (i && k.c[0].fmod) f = 1; if (i && k.c[0].wmod) m = 1; if (f) { k.c[i].fmod = vf_guarded(n * sizeof(sp_time_t)); for (sp_time_t t = 0; t < n; t++) k.c[i].fmod[t] = k.c[i].frq; k.c[i].frq = (sp_frq_t)(1 + vf_below(r, RATE / 2)); } if (m) { k.c[i].wmod = vf_guarded(n * sizeof(sp_time_t)); for (sp_time_t t = 0; t < n; t++) k.c[i].wmod[t] = u.c[i].wdt ? u.c[i].wdt : k.c[0].wmod ? k.c[0].wmod[0] : u.c[0].wdt; k.c[i].wdt = (sp_frq_t)(1 + vf_below(r, RATE / 2)); } }
  double *x[CH], *y[CH]; char w[160]; int cuts = cut_random(r, n, cut, 40); snprintf(w, sizeof w, "%u samples, %d channels with %d constant modulations, resolution %u, %d blocks%s", n, k.channels, some, k.resolution, cuts, k.reject ? ", reject" : ""); outs_new(x, n); outs_new(y, n);
  if (render(&k, cut, cuts, x, w) && render(&u, cut, cuts, y, w)) for (int c = 0; c < CH; c++) eq_samples(K("constant"), w, x[c], y[c], n, 1e-9);
  vf_sig(conf_hash(&k)); vf_count("constant modulations", (uint64_t)some); if (ix < 3) vf_sample("%s", w); outs_guards(x, w); outs_free(x); outs_free(y); conf_guards(&k, w); conf_free(&k);
}
/* arguments that can not be used */
static void t_invalid(vf_rng* r, uint64_t ix) {
  sp_time_t n = (sp_time_t)vf_size(r, 1, 300), cut[2] = {0, n}; (void)cut; (void)ix; vf_ledger_begin(); sp_noise_event_config_t* c; if (sp_noise_event_config_new(&c).id) vf_error("config"); sp_declare_event(e); e.end = n; sp_event_t* p = &e; if (sp_event_memory_add(p, c).id) vf_error("memory"); sp_noise_event(p, c); sp_declare_event_list(l); if (sp_event_list_add(&l, e).id) vf_error("list"); double* o[CH]; outs_new(o, n); sp_block_t b; b.channel_count = CH; b.size = n; for (int i = 0; i < CH; i++) b.samples[i] = o[i]; status_t s = sp_seq(0, n, b, &l); vf_eval(2); if (s.id != sp_s_id_invalid_argument || l) vf_fail(K("invalid"), "missing amplitudes: status %d", s.id); vf_ledger_end_empty(K("leak"), "missing amplitudes"); outs_free(o); vf_sig(vf_mix(n, 8)); vf_count("missing amplitudes", 1);
}
vf_suite vf_suites[] = {{"split", t_split, 1200, 40000}, {"modulated", t_modulated, 800, 30000}, {"scale", t_scale, 600, 30000}, {"bands", t_bands, 400, 15000}, {"moving", t_moving, 250, 10000}, {"white", t_white, 40, 1500}, {"defaults", t_defaults, 60, 2000}, {"constant", t_constant, 1000, 30000}, {"inherit", t_inherit, 300, 15000}, {"invalid", t_invalid, 20, 200}, {0}};
