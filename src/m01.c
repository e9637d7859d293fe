/* M01: failing memory allocation is reported and leaks nothing. every allocation inside of a call fails once */
#include "ev.h"
#include "wavf.h"
void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_value_t* out);
#define K(f) "M01:" f
static const char* op_name; static int64_t op_k; static uint64_t op_allocs; static int op_hit, op_failed; static status_t op_status; static char op_w[200];
void vf_setup(void) { status_t s = sp_initialize(0, 2, 400); if (s.id) vf_error("init"); ev_pid = "M01"; ev_where = op_w; }
/* the call under test: the k-th of its allocations fails */
static void op_begin(void) { op_allocs = vf_ledger_allocs(); vf_fault_at(op_k); }
static int op_end(status_t s) {
  op_hit = vf_fault_hit(); vf_fault_at(-1); op_allocs = vf_ledger_allocs() - op_allocs; op_status = s; vf_eval(2);
  if (op_hit && !s.id) { vf_fail(K("unreported"), "%s: allocation %lld failed but the call succeeded", op_name, (long long)op_k); op_failed = 1; }
  if (!op_hit && s.id) { vf_fail(K("status"), "%s: status %d although no allocation failed", op_name, s.id); op_failed = 1; }
  if (s.id && (!s.group || !sp_status_description(s) || !sp_status_name(s))) { vf_fail(K("status"), "%s: failure %d without group or description", op_name, s.id); op_failed = 1; }
  return s.id != 0;
}
#define CALL(e) (op_begin(), op_end(e))
static status_t int_status(int id) { status_declare; status.id = id; status.group = (uint8_t*)"int"; return status; }
#define CALLI(e) (op_begin(), op_end(int_status((int)(e))))
static void check_handlers(ev_node* n) { vf_eval(2); if (n->handler_runs != n->registered) vf_fail(K("memory"), "%s: %d memory handlers ran, %d had been registered", op_name, n->handler_runs, n->registered); if (n->freed > 1) vf_fail(K("freed"), "%s: freed %d times", op_name, n->freed); for (int i = 0; i < n->n; i++) check_handlers(n->child[i]); }

/* ---- operations. each releases everything it owns according to the documentation, whether the call failed or not */
static void o_block(vf_rng* r) { sp_block_t b = {0}; if (!CALL(sp_block_new(1 + (sp_channel_count_t)vf_below(r, 2), 1 + (sp_time_t)vf_below(r, 300), &b))) sp_block_free(&b); }
static void o_arrays(vf_rng* r) {
  size_t n = 1 + vf_below(r, 200); sp_sample_t* s = 0; sp_time_t* t = 0;
  switch (vf_below(r, 3)) { case 0: if (!CALL(sp_samples_new(n, &s))) free(s); break; case 1: if (!CALL(sp_times_new(n, &t))) free(t); break; default: if (!CALL(sp_times_constant(n, 7, &t))) { for (size_t i = 0; i < n; i++) if (t[i] != 7) vf_fail(K("result"), "sp_times_constant"); free(t); } }
}
static void o_replace(vf_rng* r) {
  size_t n = 1 + vf_below(r, 100); sp_sample_t* s = 0; sp_time_t* t = 0;
  if (vf_chance(r, .5)) { if (sp_samples_new(n, &s).id) vf_error("new"); for (size_t i = 0; i < n; i++) s[i] = (double)i; if (CALL(sp_samples_to_times_replace(s, n, &t))) { for (size_t i = 0; i < n; i++) if (s[i] != (double)i) { vf_fail(K("input"), "%s: input changed", op_name); break; } free(s); } else free(t); }
  else { if (sp_times_new(n, &t).id) vf_error("new"); for (size_t i = 0; i < n; i++) t[i] = (sp_time_t)i; if (CALL(sp_times_to_samples_replace(t, n, &s))) { for (size_t i = 0; i < n; i++) if (t[i] != i) { vf_fail(K("input"), "%s: input changed", op_name); break; } free(t); } else free(s); }
}
static void o_permutations(vf_rng* r) { sp_time_t set[6], n = 1 + (sp_time_t)vf_below(r, 4), **o = 0, size = 0; for (sp_time_t i = 0; i < n; i++) set[i] = i * 3; if (!CALL(sp_times_permutations(n, set, n, &o, &size))) { for (sp_time_t i = 0; i < size; i++) free(o[i]); free(o); } }
static void o_compositions(vf_rng* r) { sp_time_t **o = 0, size = 0, *sizes = 0; if (!CALL(sp_times_compositions(1 + (sp_time_t)vf_below(r, 6), &o, &size, &sizes))) { for (sp_time_t i = 0; i < size; i++) free(o[i]); free(o); free(sizes); } }
static void o_temporary(vf_rng* r) {
  sp_time_t n = 2 + (sp_time_t)vf_below(r, 60), f = 1 + (sp_time_t)vf_below(r, 5); sp_time_t* a = gen_times(r, n, 0, 1000); sp_time_t* b = dup_times(a, n); sp_time_t* o = out_times(n * f);
  if (vf_chance(r, .5)) CALL(sp_times_random_binary(n, o)); else CALL(sp_times_scale(a, n, f, o));
  same_mem(K("input"), op_name, a, b, n * sizeof *a); guards_ok(K("input"), op_name, o); vf_guarded_free(a); vf_guarded_free(b); vf_guarded_free(o);
}
static double cutoff(vf_rng* r) { return vf_chance(r, .2) ? 0 : vf_chance(r, .2) ? .5 : vf_real(r, .02, .48); }
static void o_ir(vf_rng* r) {
  sp_sample_t* ir = 0; sp_time_t len = 0; double l = cutoff(r), h = cutoff(r), tl = vf_real(r, .05, .3), th = vf_real(r, .05, .3); int f;
  switch (vf_below(r, 5)) { case 0: f = CALL(sp_windowed_sinc_lp_hp_ir(l ? l : .1, tl, vf_chance(r, .5), &ir, &len)); break; case 1: f = CALL(sp_null_ir(&ir, &len)); break; case 2: f = CALL(sp_passthrough_ir(&ir, &len)); break; default: f = CALL(sp_windowed_sinc_bp_br_ir(l, h, tl, th, vf_chance(r, .5), &ir, &len)); }
  if (!f) free(ir);
}
/* a stream with changing parameters: a failed call can be repeated as if it had not happened */
static void o_filter(vf_rng* r) {
  sp_convolution_filter_state_t *s = 0, *t = 0; int n = 1 + (int)vf_below(r, 4), at = (int)vf_below(r, (uint64_t)n), kind = (int)vf_below(r, 2);
  for (int i = 0; i < n; i++) {
    sp_time_t len = 1 + (sp_time_t)vf_below(r, 60); double a[60], x[60], y[60], l = cutoff(r), h = cutoff(r), tl = vf_real(r, .05, .3), th = vf_real(r, .05, .3); int w = vf_chance(r, .5); for (sp_time_t k = 0; k < len; k++) a[k] = vf_real(r, -1, 1);
    if (!l) l = .01;
#define STEP(st, out) (kind ? sp_windowed_sinc_bp_br(a, len, l, h, tl, th, w, st, out) : sp_windowed_sinc_lp_hp(a, len, l, tl, w, st, out))
    /* the twin never sees a failure */
    if (STEP(&t, y).id) vf_error("filter");
    if (i == at) { if (CALL(STEP(&s, x)) && STEP(&s, x).id) vf_fail(K("retry"), "%s: the call does not work when repeated", op_name); } else if (STEP(&s, x).id) vf_fail(K("retry"), "%s: call after the failure", op_name);
    eq_samples(K("retry"), "filter stream with a failed call", x, y, len, 1e-9);
  }
  sp_convolution_filter_state_free(t); if (s) sp_convolution_filter_state_free(s);
}
static void o_paths(vf_rng* r) {
  sp_sample_t* o = 0; sp_time_t* t = 0; sp_time_t n = 5 + (sp_time_t)vf_below(r, 200); double x[3] = {1, 2, 3}, y[5] = {1, 3, 0, 7, 2}, c[4] = {0, .5, -.5, .2}; int f = 0, k = (int)vf_below(r, 16);
  switch (k) {
    case 0: f = CALL(sp_path_samples(&o, n, 5, x, y, c)); break; case 1: f = CALL(sp_path_samples2(&o, n, 1, 2)); break; case 2: f = CALL(sp_path_samples3(&o, n, 2, 1, 2, 0)); break; case 3: f = CALL(sp_path_samples_c4(&o, n, 1, 2, 1, 2, 3, 4, .1, .2, .3)); break;
    case 4: f = CALL(sp_path_times(&t, n, 5, x, y, c)); break; case 5: f = CALL(sp_path_times2(&t, n, 1, 2)); break; case 6: f = CALL(sp_path_times4(&t, n, 1, 2, 1, 2, 3, 4)); break; case 7: f = CALL(sp_path_times_c5(&t, n, 1, 2, 3, 1, 2, 3, 4, 5, .1, .2, .3, .4)); break;
    case 8: f = CALL(sp_envelope_zero(&o, n, 5, x, y, c)); break; case 9: f = CALL(sp_envelope_zero3(&o, n, 1, 1)); break; case 10: f = CALL(sp_envelope_zero4(&o, n, 1, 1, 1, 1)); break; case 11: f = CALL(sp_envelope_zero_c3(&o, n, 1, 1, .1, .2)); break;
    case 12: f = CALL(sp_envelope_scaled(&t, n, 5, 3, x, y, c)); break; case 13: f = CALL(sp_envelope_scaled3(&t, n, 2, .5, 1, 2, 3)); break; case 14: f = CALL(sp_envelope_scaled4(&t, n, 2, .2, .5, 1, 2, 3, 4)); break; default: f = CALL(sp_path_samples5(&o, n, 1, 2, 3, 1, 2, 3, 4, 5));
  }
  if (!f) { free(o); free(t); }
}
static void o_configs(vf_rng* r) {
  sp_time_t n = 1 + (sp_time_t)vf_below(r, 5); sp_wave_event_config_t* w = 0; sp_noise_event_config_t* c = 0; sp_map_event_config_t* m = 0;
  switch (vf_below(r, 3)) { case 0: if (!CALL(sp_wave_event_config_new_n(n, &w))) free(w); break; case 1: if (!CALL(sp_noise_event_config_new_n(n, &c))) free(c); break; default: if (!CALL(sp_map_event_config_new_n(n, &m))) free(m); }
}
/* memory that is already registered stays registered, and what could not be registered stays with the caller */
static void o_memory(vf_rng* r) {
  sp_event_t e = {0}; ev_node n; memset(&n, 0, sizeof n); n.mem = 1000; int before = (int)vf_below(r, 14), more = (int)vf_below(r, 12), ensured = 0;
  for (int i = 0; i < before; i++) { if (vf_chance(r, .2)) { if (sp_event_memory_ensure(&e, (sp_time_t)vf_below(r, 4)).id) vf_error("ensure"); } if (ev_reg_add(&e, &n, 1).id) vf_fail(K("status"), "registering memory %d", i); }
  if (vf_chance(r, .4)) { if (!CALL(sp_event_memory_ensure(&e, (sp_time_t)more))) { ensured = 1; for (int i = 0; i < more; i++) { sp_event_memory_fixed_add_with_handler(&e, &n, ev_handler); n.registered++; } } }
  else { void* p = malloc(10); if (CALL(sp_event_memory_add(&e, p))) free(p); }
  if (vf_chance(r, .7)) for (int i = 0; i < more; i++) if (ev_reg_add(&e, &n, 1).id) vf_fail(K("retry"), "%s: registering after a failure", op_name);
  if (e.free) (e.free)(&e); check_handlers(&n); vf_eval(1); if (e.memory.data) vf_fail(K("memory"), "%s: memory is still registered after free", op_name); (void)ensured;
}
static void o_list(vf_rng* r) {
  sp_event_list_t* l = 0; ev_node n[12]; memset(n, 0, sizeof n); int k = (int)vf_below(r, 8), at = (int)vf_below(r, (uint64_t)k + 1), in = 0;
  for (int i = 0; i <= k; i++) { sp_event_t e = {0}; e.start = (sp_time_t)vf_below(r, 20); e.end = e.start + 5; e.config = n + i; n[i].mem = 3; n[i].end = 5; if (ev_reg_add(&e, n + i, 2).id) vf_error("add"); int f; if (i == at) { f = CALL(sp_event_list_add(&l, e)); if (f) sp_event_memory_free(&e); } else { f = sp_event_list_add(&l, e).id; } if (!f) in++; }
  sp_event_list_validate(l); int c = 0; sp_time_t last = 0xffffffff; for (sp_event_list_t* a = l; a; a = a->next) { c++; if (a->event.start > last) vf_fail(K("list"), "%s: not sorted", op_name); last = a->event.start; } vf_eval(2); if (c != in) vf_fail(K("list"), "%s: %d elements, expected %d", op_name, c, in);
  sp_event_list_free(&l); for (int i = 0; i <= k; i++) check_handlers(n + i);
}
/* an event that can not be added is freed, the group stays as it was */
static void o_group(vf_rng* r) {
  sp_event_t g = {0}, *gp = &g; sp_group_event(gp); ev_node n[12]; memset(n, 0, sizeof n); int k = (int)vf_below(r, 8), at = (int)vf_below(r, (uint64_t)k + 1), append = vf_chance(r, .5);
  for (int i = 0; i <= k; i++) {
    sp_event_t e = {0}; sp_time_t before = g.end; n[i].end = 5; n[i].mem = 4; n[i].has_prepare = 1; n[i].own_free = 1; n[i].parent = n + 11; n[i].via = VIA_PREPARED_END; e.config = n + i; e.generate = ev_generate; e.prepare = ev_prepare; e.free = ev_free; e.end = vf_chance(r, .5) ? 0 : 5;
    if (i == at) { int f = CALL(append ? sp_group_append(&g, e) : sp_group_add(&g, e)); vf_eval(1); if (f && g.end != before) vf_fail(K("group"), "%s: end changed from %u to %u", op_name, before, g.end); if (f && n[i].freed != 1) vf_fail(K("group"), "%s: event freed %d times", op_name, n[i].freed); }
    else if ((append ? sp_group_append(&g, e) : sp_group_add(&g, e)).id) vf_fail(K("retry"), "%s: adding after a failure", op_name);
  }
  (g.free)(gp); for (int i = 0; i <= k; i++) { check_handlers(n + i); vf_eval(1); if (n[i].freed != 1) vf_fail(K("freed"), "%s: event %d freed %d times", op_name, i, n[i].freed); }
}
static void o_init(vf_rng* r) {
  sp_deinitialize(); sp_sine_table = sp_sine_table_lfo = 0; uint16_t cpu = vf_chance(r, .15) ? 1 + (uint16_t)vf_below(r, 3) : 0; sp_time_t rate = 1 + (sp_time_t)vf_below(r, 50);
  if (!CALL(sp_initialize(cpu, 2, rate))) { sp_deinitialize(); }
  else { vf_eval(1); if (vf_ledger_live()) vf_fail(K("leak"), "%s: failed initialisation keeps memory", op_name); if (sp_initialize(cpu, 2, rate).id) vf_fail(K("retry"), "%s: initialising after a failure", op_name); else sp_deinitialize(); }
  vf_ledger_end_empty(K("leak"), op_name); if (sp_initialize(0, 2, 400).id) vf_error("init"); vf_ledger_begin();
}
static void o_file(vf_rng* r) {
  char path[300]; w_name(path, sizeof path, "oom.wav"); sp_channel_count_t ch = 1 + (sp_channel_count_t)vf_below(r, 2); sp_time_t n = 1 + (sp_time_t)vf_below(r, 60), extra = 1 + (sp_time_t)vf_below(r, 20); double a[2][80], b[2][80]; sp_sample_t *p[2] = {a[0], a[1]}, *q[2] = {b[0], b[1]}; for (int c = 0; c < 2; c++) for (int i = 0; i < 80; i++) a[c][i] = (double)(float)vf_real(r, -1, 1);
  sp_file_t f; int fds = w_fds(), wr = vf_chance(r, .5); sp_time_t in = n; if (sp_file_open_write((uint8_t*)path, ch, 8000, &f).id) vf_error("open"); if (sp_file_write(&f, p, n).id) vf_error("write");
  if (wr) { sp_sample_t* p2[2] = {a[0] + n, a[1] + n}; if (!CALL(sp_file_write(&f, p2, extra < 20 ? extra : 20))) in += extra < 20 ? extra : 20; }
  if (sp_file_close_write(&f).id) vf_fail(K("retry"), "%s: closing after a failed write", op_name);
  wbuf w = w_slurp(path); vf_eval(2); if (w.n != 44 + (size_t)in * ch * 4 || w_u32(w.p + 40) != in * ch * 4) vf_fail(K("file"), "%s: the file has %zu bytes, expected %zu", op_name, w.n, 44 + (size_t)in * ch * 4); vf_free(w.p);
  if (sp_file_open_read((uint8_t*)path, &f).id) vf_error("open read");
  if (!wr) { if (CALL(sp_file_read(f, n, q)) && sp_file_read(f, n, q).id) vf_fail(K("retry"), "%s: reading after a failure", op_name); for (int c = 0; c < ch; c++) eq_samples(K("file"), op_name, q[c], p[c], n, 1e-7); }
  sp_file_close_read(f); vf_eval(1); if (w_fds() != fds) vf_fail(K("file"), "%s: files left open", op_name); unlink(path);
}
static void o_stat(vf_rng* r) {
  sp_time_t n = 1 + (sp_time_t)vf_below(r, 50); double y = 0; sp_sample_t* a = gen_samples(r, n, -5, 5); sp_sample_t* a2 = dup_samples(a, n); sp_time_t* b = gen_times(r, n, 0, 100); sp_time_t* b2 = dup_times(b, n);
  if (vf_chance(r, .5)) CALLI(sp_stat_samples_median(a, n, &y)); else CALLI(sp_stat_times_median(b, n, &y));
  same_mem(K("input"), op_name, a, a2, n * sizeof *a); same_mem(K("input"), op_name, b, b2, n * sizeof *b); vf_guarded_free(a); vf_guarded_free(a2); vf_guarded_free(b); vf_guarded_free(b2);
}
static void o_fft(vf_rng* r) { sp_time_t n = 1 + (sp_time_t)vf_below(r, 40); sp_sample_t *re = gen_samples(r, n, -1, 1), *im = gen_samples(r, n, -1, 1); if (vf_chance(r, .5)) CALLI(sp_fft(n, re, im)); else CALLI(sp_ffti(n, re, im)); guards_ok(K("input"), op_name, re); guards_ok(K("input"), op_name, im); vf_guarded_free(re); vf_guarded_free(im); }
static void o_spline(vf_rng* r) { spline_path_t p = {0}; spline_path_segment_t s[4]; int n = 1 + (int)vf_below(r, 4); s[0] = spline_path_move(0, 1); for (int i = 1; i < n; i++) s[i] = spline_path_line(i * 10, i); if (!CALLI(spline_path_set_copy(&p, s, (spline_path_segment_count_t)n))) { double o[50]; spline_path_get(&p, 0, 20, o); free(p.segments); } }
static void o_helper(vf_rng* r) {
  size_t n = 1 + vf_below(r, 200); void* p = 0; uint8_t* s = 0;
  switch (vf_below(r, 4)) { case 0: if (!CALL(sph_helper_malloc(n, &p))) free(p); break; case 1: if (!CALL(sph_helper_calloc(n, &p))) free(p); break; case 2: if (!CALL(sph_helper_malloc_string(n, &s))) { if (s[n]) vf_fail(K("result"), "string"); free(s); } break;
    default: { p = malloc(n); memset(p, 5, n); CALL(sph_helper_realloc(n * 2, &p)); for (size_t i = 0; i < n; i++) if (((char*)p)[i] != 5) { vf_fail(K("input"), "realloc"); break; } free(p); } }
}
/* noise events whose channels have filters of their own */
static void o_noise(vf_rng* r) {
  sp_noise_event_config_t c = sp_noise_event_config_defaults(); double amod[60], o[sp_channel_count_limit][60]; int chans = 1 + (int)vf_below(r, sp_channel_count_limit); c.channel_count = (sp_channel_count_t)chans; c.resolution = 1 + (sp_time_t)vf_below(r, 70); c.is_reject = vf_chance(r, .3); for (int i = 0; i < 60; i++) amod[i] = 1; memset(o, 0, sizeof o); sp_time_t fm[60]; for (int i = 0; i < 60; i++) fm[i] = (sp_time_t)(1 + i * 2);
  for (int i = 0; i < chans; i++) { c.channel_config[i].use = !i || vf_chance(r, .8); if (!i || vf_chance(r, .3)) c.channel_config[i].amod = amod; if (vf_chance(r, .7)) { c.channel_config[i].frq = (sp_frq_t)(1 + vf_below(r, 150)); c.channel_config[i].wdt = (sp_frq_t)(1 + vf_below(r, 100)); c.channel_config[i].trnl = (sp_frq_t)(20 + vf_below(r, 80)); c.channel_config[i].trnh = (sp_frq_t)(20 + vf_below(r, 80)); } if (vf_chance(r, .2)) c.channel_config[i].fmod = fm; }
  sp_event_t e = {0}, *p = &e; e.end = 60; sp_noise_event(p, &c); ev_node n; memset(&n, 0, sizeof n); n.mem = 3; if (ev_reg_add(p, &n, 3).id) vf_error("add");
  int f = CALL((e.prepare)(p)); if (!f) { e.prepare = 0; sp_block_t b; memset(&b, 0, sizeof b); b.channel_count = sp_channel_count_limit; b.size = 60; for (int i = 0; i < sp_channel_count_limit; i++) b.samples[i] = o[i]; if (!op_hit && (e.generate)(0, 60, b, p).id) vf_fail(K("status"), "%s: generating failed", op_name); }
  if (e.free) (e.free)(p); check_handlers(&n);
}
typedef struct { const char* name; void (*f)(vf_rng*); int may_be_none; } op_t;
static const op_t ops[] = {{"block", o_block}, {"arrays", o_arrays}, {"replace", o_replace}, {"permutations", o_permutations}, {"compositions", o_compositions}, {"temporary", o_temporary}, {"ir", o_ir}, {"filter", o_filter}, {"paths", o_paths}, {"configs", o_configs}, {"memory", o_memory}, {"list", o_list}, {"group", o_group}, {"init", o_init}, {"file", o_file}, {"statistics", o_stat}, {"fft", o_fft}, {"noise", o_noise}, {"spline", o_spline}, {"helper", o_helper}};
static void once(const op_t* o, vf_rng r, int64_t k) { op_name = o->name; op_k = k; snprintf(op_w, sizeof op_w, "%s, allocation %lld fails", o->name, (long long)k); __atomic_store_n(&ev_closed, 0, __ATOMIC_SEQ_CST); op_hit = 0; op_failed = 0; vf_ledger_begin(); o->f(&r); vf_ledger_end_empty(K("leak"), op_w); }
static void t_ops(vf_rng* r, uint64_t ix) {
  const op_t* o = ops + ix % VF_LEN(ops); vf_rng c = *r; once(o, c, -1); int64_t n = (int64_t)op_allocs; char name[64]; snprintf(name, sizeof name, "failed allocations in %s", o->name);
  for (int64_t k = 0; k < n; k++) { once(o, c, k); if (op_hit) vf_count(name, 1); vf_sig(vf_mix(vf_mix(ix % VF_LEN(ops), (uint64_t)k), vf_mix((uint64_t)n, c.s[0] % 64))); }
  if (ix < 3) vf_sample("%s: %lld allocations, each failed once: last status %d", o->name, (long long)n, op_status.id);
}
/* ---- rendering: building and rendering random trees, any allocation of it fails */
static void t_render(vf_rng* r, uint64_t ix) {
  int par = vf_chance(r, .4); ev_opt o = {.max_depth = 3, .max_children = 1 + (int)vf_below(r, 4), .max_len = 1 + (sp_time_t)vf_below(r, 60), .types = 0x7fu & ~(par ? 0u : 1u << EV_PGROUP), .noise_left = 2, .rate = 400};
  ev_scene s; ev_far = ev_based = 0; ev_scene_random(r, &s, &o); sp_time_t b = s.end, cut[200]; int cuts = ev_cut(r, &s, 0, b, cut, 200); int how_par = par && vf_chance(r, .6), to_block = !how_par && vf_chance(r, .2), to_file = !how_par && !to_block && vf_chance(r, .2);
  if (par) ev_pool(1 + (unsigned)vf_below(r, 3)); char path[300]; w_name(path, sizeof path, "render-oom.wav"); double* out[EV_CH]; ev_out_new(r, out, b, 0); vf_rng c = *r; int64_t n = 0; op_name = to_block ? "rendering to a block" : to_file ? "rendering to a file" : how_par ? "parallel rendering" : "rendering";
  for (int64_t k = -1; k < n; k++) {
    if (k >= 0 && n > 24 && !vf_thorough && vf_chance(r, 1 - 24.0 / (double)n)) continue;
    vf_rng d = c; op_k = k; snprintf(op_w, sizeof op_w, "%s of %d events in %d blocks, allocation %lld fails", op_name, s.n, cuts, (long long)k); ev_how h = {.parallel = how_par, .big = 1}; int fds = w_fds();
    vf_ledger_begin(); status_t st = {0, 0};
    if (to_block || to_file) {
      sp_event_t e; ev_scene_reset(&s); op_begin(); st = ev_build(s.root[0], &e);
      if (!st.id) { sp_time_t end = s.root[0]->end ? s.root[0]->end : 1; if (to_block) { sp_block_t bl = {0}; st = sp_render_range_block(e, 0, end, sp_render_config(EV_CH, 400, cut[1], 0), &bl); if (!st.id) sp_block_free(&bl); } else st = sp_render_range_file(e, 0, end, sp_render_config(EV_CH, 400, cut[1], 0), (uint8_t*)path); }
      op_end(st); __atomic_store_n(&ev_closed, 1, __ATOMIC_SEQ_CST); vf_eval(1); if (w_fds() != fds) vf_fail(K("file"), "%s: files left open", op_w); unlink(path);
    } else { op_begin(); st = ev_render(&d, &s, cut, cuts, h, EV_CH, out); op_end(st); }
    if (k < 0) n = (int64_t)op_allocs; else if (op_hit) vf_count(how_par ? "failed allocations in parallel rendering" : to_block ? "failed allocations in rendering to blocks" : to_file ? "failed allocations in rendering to files" : "failed allocations in rendering", 1);
    if (to_block || to_file) check_handlers(s.root[0]); else for (int i = 0; i < s.n; i++) check_handlers(s.root[i]);
    vf_ledger_end_empty(K("leak"), op_w); vf_sig(vf_mix(ev_scene_hash(&s), (uint64_t)k));
    if (vf_failed_in_case()) break;
  }
  if (par) sph_future_deinit(); if (ix < 2) vf_sample("%s: %lld allocations", op_w, (long long)n);
  ev_out_free(out); ev_scene_free(&s);
}
vf_suite vf_suites[] = {{"ops", t_ops, 24000, 200000}, {"render", t_render, 4000, 40000}, {0}};
