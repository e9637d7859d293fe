/* F02: stateful filters apply the current kernel and keep all pending tails */
#include "gen.h"
void vf_setup(void) {}
#define K(f) "F02:" f
static unsigned ir_calls[2]; static uint8_t ir_args[255]; static unsigned ir_args_len;
/* kernel from the bytes of the arguments. the first two define the length */
static size_t kernel(int which, const uint8_t* a, unsigned n, double* out) {
  size_t len = 1 + a[0] % 97 + (n > 1 && a[1] % 8 == 0 ? a[1] : 0); uint64_t h = vf_hash(a, n, (uint64_t)which + 11); vf_rng k; vf_rng_init(&k, h);
  if (out) for (size_t i = 0; i < len; i++) out[i] = vf_real(&k, -1, 1);
  return len;
}
static status_t ir_f(int which, void* arguments, sp_sample_t** out, sp_time_t* len) {
  status_declare; ir_calls[which]++; memcpy(ir_args, arguments, ir_args_len);
  size_t n = kernel(which, arguments, ir_args_len, 0); double* o = malloc(n * 8); kernel(which, arguments, ir_args_len, o); *out = o; *len = (sp_time_t)n; status_return;
}
static status_t ir_a(void* arguments, sp_sample_t** out, sp_time_t* len) { return ir_f(0, arguments, out, len); }
static status_t ir_b(void* arguments, sp_sample_t** out, sp_time_t* len) { return ir_f(1, arguments, out, len); }
#define TOTAL 6000
static double want[TOTAL + 2000];
static void add_conv(const double* in, size_t n, size_t pos, const double* h, size_t m) { for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) want[pos + i + j] += in[i] * h[j]; }
static int compare(const char* key, const double* out, size_t pos, size_t n, double scale, const char* what, size_t seg, size_t m, size_t prev) {
  vf_eval(n); for (size_t i = 0; i < n; i++) if (!(fabs(out[i] - want[pos + i]) <= 1e-9 * scale)) { vf_fail(key, "%s: segment %zu of length %zu, kernel %zu after %zu: index %zu is %.12g, expected %.12g", what, seg, n, m, prev, i, out[i], want[pos + i]); return 0; }
  return 1;
}
static void t_custom(vf_rng* r, uint64_t ix) {
  sp_convolution_filter_state_t* st = 0; size_t segs = 1 + vf_below(r, 40), pos = 0; unsigned char args[255]; unsigned alen = 1 + (unsigned)vf_below(r, vf_chance(r, .1) ? 255 : 12); int which = 0; size_t prev_m = 0, changes = 0, shrinks = 0; double change_p = vf_chance(r, .3) ? .1 : .5;
  memset(want, 0, sizeof want); for (unsigned i = 0; i < 255; i++) args[i] = (uint8_t)vf_u64(r);
  vf_ledger_begin(); double* h = vf_malloc(400 * 8);
  for (size_t s = 0; s < segs; s++) {
    int changed = !s;
    if (s && vf_chance(r, change_p)) {
      unsigned char old[255]; memcpy(old, args, 255); unsigned olen = alen; int ow = which;
      switch (vf_below(r, 4)) { case 0: which = !which; break; case 1: args[vf_below(r, alen)] += 1 + (uint8_t)vf_below(r, 255); break; case 2: alen = 1 + (unsigned)vf_below(r, vf_chance(r, .2) ? 255 : 20); break; default: args[0] = (uint8_t)vf_u64(r); if (vf_chance(r, .5)) which = !which; }
      changed = which != ow || alen != olen || memcmp(args, old, alen);
    }
    size_t m = kernel(which, args, alen, h), len = vf_chance(r, .4) ? vf_below(r, 8) : vf_size(r, 1, 200); if (pos + len > TOTAL) break;
    double *in = gen_samples(r, len, -1, 1), *inc = dup_samples(in, len), *out = out_samples(len); unsigned char* stack_args = dup_mem(args, alen);
    ir_args_len = alen; unsigned c0 = ir_calls[0], c1 = ir_calls[1];
    status_t x = sp_convolution_filter(in, (sp_time_t)len, which ? ir_b : ir_a, stack_args, (uint8_t)alen, &st, out);
    vf_eval(3); if (x.id) { vf_fail(K("status"), "status %d", x.id); break; }
    unsigned own = which ? ir_calls[1] - c1 : ir_calls[0] - c0, other = which ? ir_calls[0] - c0 : ir_calls[1] - c1;
    if (other || (changed && own == 0) || (!changed && own)) { vf_fail(K("recompute"), "segment %zu: kernel computed %u times (%u times by the other function), %s changed", s, own, other, changed ? "was" : "not"); }
    if (changed && own && memcmp(ir_args, args, alen)) vf_fail(K("arguments"), "segment %zu: kernel function received other arguments", s);
    memset(stack_args, 0xaa, alen); vf_guarded_free(stack_args); /* arguments can be stack allocated */
    add_conv(inc, len, pos, h, m); guards_ok(K("range"), "filter out", out); same_mem(K("input"), "filter", in, inc, len * 8);
    int ok = compare(K("output"), out, pos, len, 100, "custom kernel", s, m, prev_m);
    if (prev_m && m != prev_m) { changes++; if (m < prev_m && len < prev_m) shrinks++; } prev_m = m; pos += len;
    vf_guarded_free(in); vf_guarded_free(inc); vf_guarded_free(out); if (!ok) break;
  }
  vf_free(h); sp_convolution_filter_state_free(st); vf_ledger_end_empty(K("leak"), "filter state");
  vf_count("kernel changes", changes); vf_count("kernels shortened within a pending tail", shrinks); vf_sig(vf_hash(want, sizeof want, 1));
  if (ix < 2) vf_sample("%zu segments, %zu samples, %zu changes of the kernel length", segs, pos, changes);
}
/* segments and kernels beyond 16 bits */
static size_t big_m; static status_t ir_big(void* arguments, sp_sample_t** out, sp_time_t* len) { status_declare; double* o = malloc(big_m * 8); vf_rng k; vf_rng_init(&k, *(unsigned char*)arguments); for (size_t i = 0; i < big_m; i++) o[i] = vf_real(&k, -1, 1); *out = o; *len = (sp_time_t)big_m; status_return; }
static void t_big(vf_rng* r, uint64_t ix) {
  sp_convolution_filter_state_t* st = 0; size_t segs = 2 + vf_below(r, 2), len[4], total = 0, pos = 0; int large_kernel = ix & 1; unsigned char arg = (unsigned char)vf_u64(r); big_m = large_kernel ? vf_size_big(r, 0, 1, 0, 0) : 1 + vf_below(r, 9);
  for (size_t s = 0; s < segs; s++) total += len[s] = large_kernel ? (s ? vf_below(r, 6) : 1 + vf_below(r, 5)) : vf_chance(r, .6) ? vf_size_big(r, 0, 1, 0, 0) : vf_below(r, 300);
  double *a = gen_samples(r, total, -1, 1), *w = vf_calloc((total + big_m) * 8), *h = vf_malloc(big_m * 8); vf_rng k; vf_rng_init(&k, arg); for (size_t i = 0; i < big_m; i++) h[i] = vf_real(&k, -1, 1);
  for (size_t i = 0; i < total; i++) for (size_t j = 0; j < big_m; j++) w[i + j] += a[i] * h[j];
  vf_ledger_begin();
  for (size_t s = 0; s < segs; s++) { double *in = dup_samples(a + pos, len[s]), *out = out_samples(len[s]); status_t x = sp_convolution_filter(in, (sp_time_t)len[s], ir_big, &arg, 1, &st, out); vf_eval(len[s] + 1); int bad = 0; if (x.id) { vf_fail(K("status"), "status %d", x.id); bad = 1; }
    guards_ok(K("range"), "filter out", out); for (size_t i = 0; i < len[s] && !bad; i++) if (!(fabs(out[i] - w[pos + i]) <= 1e-7)) { vf_fail(K("output"), "kernel %zu, segment %zu of length %zu: index %zu is %.12g, expected %.12g", big_m, s, len[s], i, out[i], w[pos + i]); bad = 1; } vf_guarded_free(in); vf_guarded_free(out); pos += len[s]; if (bad) break; }
  if (large_kernel && !vf_failed_in_case()) { /* the tail of the long kernel comes out while a short kernel is in use */
    size_t m1 = big_m, n2 = m1 - vf_below(r, 40) + vf_below(r, 40), tail = total + m1 - 1; double *o2 = vf_calloc((tail + n2 + 100) * 8), h2[9]; memcpy(o2, w, tail * 8); big_m = 1 + vf_below(r, 8); arg++; vf_rng k2; vf_rng_init(&k2, arg); for (size_t i = 0; i < big_m; i++) h2[i] = vf_real(&k2, -1, 1);
    double *in = gen_samples(r, n2, -1, 1), *out = out_samples(n2); for (size_t i = 0; i < n2; i++) for (size_t j = 0; j < big_m; j++) o2[pos + i + j] += in[i] * h2[j];
    status_t x = sp_convolution_filter(in, (sp_time_t)n2, ir_big, &arg, 1, &st, out); vf_eval(n2 + 1); if (x.id) vf_fail(K("status"), "status %d", x.id); else for (size_t i = 0; i < n2; i++) if (!(fabs(out[i] - o2[pos + i]) <= 1e-7)) { vf_fail(K("output"), "kernel %zu after %zu, segment of length %zu: index %zu is %.12g, expected %.12g", big_m, m1, n2, i, out[i], o2[pos + i]); break; }
    guards_ok(K("range"), "filter out", out); vf_guarded_free(in); vf_guarded_free(out); vf_free(o2); vf_count("long tails", 1); }
  sp_convolution_filter_state_free(st); vf_ledger_end_empty(K("leak"), "filter state"); vf_count(large_kernel ? "kernels beyond 16 bits" : "segments beyond 16 bits", 1); vf_sig(vf_hash(w, total * 8, big_m)); if (ix < 2) vf_sample("kernel of %zu, %zu samples in %zu segments", big_m, total, segs);
  vf_guarded_free(a); vf_free(w); vf_free(h);
}
static void t_sinc(vf_rng* r, uint64_t ix) {
  sp_convolution_filter_state_t* st = 0; size_t segs = 1 + vf_below(r, 12), pos = 0, prev_m = 0; int bp = vf_chance(r, .5); double cl = .1, ch = .3, tl = .1, th = .12; int flag = 0, ok = 1;
  memset(want, 0, sizeof want); vf_ledger_begin();
  for (size_t s = 0; s < segs && ok; s++) {
    if (!s || vf_chance(r, .5)) { if (vf_chance(r, .7)) { cl = vf_real(r, .02, .25); ch = vf_real(r, .26, .48); } if (bp && vf_chance(r, .15)) cl = 0; if (bp && vf_chance(r, .15)) ch = .5; if (vf_chance(r, .5)) { tl = vf_real(r, .02, .4); th = vf_real(r, .02, .4); } flag = vf_chance(r, .5); }
    size_t len = vf_chance(r, .4) ? vf_below(r, 8) : vf_size(r, 1, 300); if (pos + len > TOTAL) break;
    double *in = gen_samples(r, len, -1, 1), *out = out_samples(len), *ir = 0; sp_time_t m = 0; status_t x, y;
    if (bp) { x = sp_windowed_sinc_bp_br(in, (sp_time_t)len, cl, ch, tl, th, flag, &st, out); y = sp_windowed_sinc_bp_br_ir(cl, ch, tl, th, flag, &ir, &m); }
    else { x = sp_windowed_sinc_lp_hp(in, (sp_time_t)len, cl, tl, flag, &st, out); y = sp_windowed_sinc_lp_hp_ir(cl, tl, flag, &ir, &m); }
    vf_eval(1); if (x.id || y.id) { vf_fail(K("status"), "status %d %d", x.id, y.id); break; }
    add_conv(in, len, pos, ir, m); free(ir); guards_ok(K("range"), "sinc filter out", out);
    ok = compare(K("output"), out, pos, len, 100, bp ? "bp_br" : "lp_hp", s, m, prev_m); prev_m = m; pos += len; vf_guarded_free(in); vf_guarded_free(out);
  }
  sp_convolution_filter_state_free(st); vf_ledger_end_empty(K("leak"), "filter state with sinc kernels");
  vf_count("sinc streams", 1); vf_sig(vf_hash(want, sizeof want, 2)); if (ix < 2) vf_sample("%s stream of %zu samples in %zu segments", bp ? "bp_br" : "lp_hp", pos, segs);
}
static void t_free(vf_rng* r, uint64_t ix) { (void)r; (void)ix; sp_convolution_filter_state_free(0); vf_sig(3); }
vf_suite vf_suites[] = {{"custom", t_custom, 2500, 120000}, {"sinc", t_sinc, 1200, 40000}, {"big", t_big, 12, 600}, {"free", t_free, 1, 1}, {0}};
