/* E01: arrays that macros create for events and local scopes hold what the plain functions return and are freed exactly once */
#include "gen.h"
#define K(f) "E01:" f
#define P(...) __VA_ARGS__
void vf_setup(void) { if (sp_initialize(0, 2, 960).id) vf_error("initialize"); }
typedef struct { int kind; sp_time_t n; double x[3], y[5], c[4], s; uint32_t q; } op_t;
#define KINDS 30
static const char* names[KINDS] = {"path samples", "path samples 3", "path samples 4", "path samples 5", "path samples c3", "path samples c4", "path samples c5", "path times", "path times 3", "path times 4", "path times 5", "path times c3", "path times c4", "path times c5",
  "envelope zero", "envelope zero 3", "envelope zero 4", "envelope zero 5", "envelope zero c3", "envelope zero c4", "envelope zero c5", "envelope scaled", "envelope scaled 3", "envelope scaled 4", "envelope scaled 5", "new array", "memory", "envelope scaled c3", "envelope scaled c4", "envelope scaled c5"};
static int is_times(int k) { return (k >= 7 && k <= 13) || (k >= 21 && k <= 24) || k > 26; }
static void op_new(vf_rng* r, op_t* o) {
  o->kind = (int)vf_below(r, KINDS); o->n = 1 + (sp_time_t)vf_below(r, vf_chance(r, .3) ? 8 : 200); int times = is_times(o->kind), env = o->kind >= 14; double rest = 1; o->q = (uint32_t)vf_below(r, 7);
  for (int i = 0; i < 3; i++) { double d = rest * vf_real(r, .05, .7); rest -= d; o->x[i] = env ? d : floor((1 - rest) * o->n); }
  for (int i = 0; i < 5; i++) o->y[i] = times ? vf_real(r, 0, 90) : vf_real(r, -2, 2); for (int i = 0; i < 4; i++) o->c[i] = vf_real(r, -1, 1); o->s = vf_real(r, .5, 20);
}
/* the reference, by the functions themselves */
static status_t direct(op_t* o, double** d, sp_time_t** t) {
  status_t s = {0}; sp_time_t n = o->n; double *x = o->x, *y = o->y, *c = o->c, v = o->s;
  switch (o->kind) {
    case 0: return sp_path_samples(d, n, 5, x, y, c); case 1: return sp_path_samples3(d, n, x[0], y[0], y[1], y[2]); case 2: return sp_path_samples4(d, n, x[0], x[1], y[0], y[1], y[2], y[3]); case 3: return sp_path_samples5(d, n, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4]);
    case 4: return sp_path_samples_c3(d, n, x[0], y[0], y[1], y[2], c[0], c[1]); case 5: return sp_path_samples_c4(d, n, x[0], x[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]); case 6: return sp_path_samples_c5(d, n, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]);
    case 7: return sp_path_times(t, n, 5, x, y, c); case 8: return sp_path_times3(t, n, x[0], y[0], y[1], y[2]); case 9: return sp_path_times4(t, n, x[0], x[1], y[0], y[1], y[2], y[3]); case 10: return sp_path_times5(t, n, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4]);
    case 11: return sp_path_times_c3(t, n, x[0], y[0], y[1], y[2], c[0], c[1]); case 12: return sp_path_times_c4(t, n, x[0], x[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]); case 13: return sp_path_times_c5(t, n, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]);
    case 14: return sp_envelope_zero(d, n, 5, x, y, c); case 15: return sp_envelope_zero3(d, n, x[0], y[0]); case 16: return sp_envelope_zero4(d, n, x[0], x[1], y[0], y[1]); case 17: return sp_envelope_zero5(d, n, x[0], x[1], x[2], y[0], y[1], y[2]);
    case 18: return sp_envelope_zero_c3(d, n, x[0], y[0], c[0], c[1]); case 19: return sp_envelope_zero_c4(d, n, x[0], x[1], y[0], y[1], c[0], c[1], c[2]); case 20: return sp_envelope_zero_c5(d, n, x[0], x[1], x[2], y[0], y[1], y[2], c[0], c[1], c[2], c[3]);
    case 21: return sp_envelope_scaled(t, n, 5, v, x, y, c); case 22: return sp_envelope_scaled3(t, n, v, x[0], y[0], y[1], y[2]); case 23: return sp_envelope_scaled4(t, n, v, x[0], x[1], y[0], y[1], y[2], y[3]); case 24: return sp_envelope_scaled5(t, n, v, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4]);
    case 27: return sp_envelope_scaled_c3(t, n, v, x[0], y[0], y[1], y[2], c[0], c[1]); case 28: return sp_envelope_scaled_c4(t, n, v, x[0], x[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]); case 29: return sp_envelope_scaled_c5(t, n, v, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]);
  }
  return s;
}
/* handlers of registered memory */
static int handled[64]; static void handler(void* a) { vf_eval(1); int* h = a; if (h < handled || h >= handled + 64) { vf_fail(K("handler"), "a handler got another address than the registered"); return; } (*h)++; }
typedef struct { void* p; size_t bytes; void* copy; int handler; } made_t;
/* the same with the macros. *bytes is the size of the result */
static status_t macro(sp_event_t* e, op_t* o, made_t* m, int* next_handler) {
  status_declare; sp_time_t n = o->n; double *x = o->x, *y = o->y, *c = o->c, v = o->s, *d = 0; sp_time_t* t = 0;
  switch (o->kind) {
    case 0: sp_event_path_samples_srq(e, &d, n, 5, x, y, c); break; case 1: sp_event_path_samples3_srq(e, &d, n, x[0], y[0], y[1], y[2]); break; case 2: sp_event_path_samples4_srq(e, &d, n, x[0], x[1], y[0], y[1], y[2], y[3]); break; case 3: sp_event_path_samples5_srq(e, &d, n, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4]); break;
    case 4: sp_event_path_samples_c3_srq(e, &d, n, x[0], y[0], y[1], y[2], c[0], c[1]); break; case 5: sp_event_path_samples_c4_srq(e, &d, n, x[0], x[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]); break; case 6: sp_event_path_samples_c5_srq(e, &d, n, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]); break;
    case 7: sp_event_path_times_srq(e, &t, n, 5, x, y, c); break; case 8: sp_event_path_times3_srq(e, &t, n, x[0], y[0], y[1], y[2]); break; case 9: sp_event_path_times4_srq(e, &t, n, x[0], x[1], y[0], y[1], y[2], y[3]); break; case 10: sp_event_path_times5_srq(e, &t, n, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4]); break;
    case 11: sp_event_path_times_c3_srq(e, &t, n, x[0], y[0], y[1], y[2], c[0], c[1]); break; case 12: sp_event_path_times_c4_srq(e, &t, n, x[0], x[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]); break; case 13: sp_event_path_times_c5_srq(e, &t, n, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]); break;
    case 14: sp_event_envelope_zero_srq(e, &d, n, 5, x, y, c); break; case 15: sp_event_envelope_zero3_srq(e, &d, n, x[0], y[0]); break; case 16: sp_event_envelope_zero4_srq(e, &d, n, x[0], x[1], y[0], y[1]); break; case 17: sp_event_envelope_zero5_srq(e, &d, n, x[0], x[1], x[2], y[0], y[1], y[2]); break;
    case 18: sp_event_envelope_zero_c3_srq(e, &d, n, x[0], y[0], c[0], c[1]); break; case 19: sp_event_envelope_zero_c4_srq(e, &d, n, x[0], x[1], y[0], y[1], c[0], c[1], c[2]); break; case 20: sp_event_envelope_zero_c5_srq(e, &d, n, x[0], x[1], x[2], y[0], y[1], y[2], c[0], c[1], c[2], c[3]); break;
    case 21: sp_event_envelope_scaled_srq(e, &t, n, 5, v, x, y, c); break; case 22: sp_event_envelope_scaled3_srq(e, &t, n, v, x[0], y[0], y[1], y[2]); break; case 23: sp_event_envelope_scaled4_srq(e, &t, n, v, x[0], x[1], y[0], y[1], y[2], y[3]); break; case 24: sp_event_envelope_scaled5_srq(e, &t, n, v, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4]); break;
    case 27: sp_event_envelope_scaled_c3_srq(e, &t, n, v, x[0], y[0], y[1], y[2], c[0], c[1]); break; case 28: sp_event_envelope_scaled_c4_srq(e, &t, n, v, x[0], x[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]); break; case 29: sp_event_envelope_scaled_c5_srq(e, &t, n, v, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]); break;
    case 25: { if (o->q == 0) { sp_event_samples_srq(e, n, &d); m->bytes = n * 8; m->p = d; } else if (o->q == 1) { sp_event_times_srq(e, n, &t); m->bytes = n * 4; m->p = t; } else if (o->q == 2) { sp_event_alloc_srq(e, sp_samples_new, n, &d); m->bytes = n * 8; m->p = d; } else if (o->q == 4) { sp_unit_t* u = 0; sp_event_units_srq(e, n, &u); m->bytes = n * sizeof *u; m->p = u; } else { sp_wave_event_config_t* w = 0; sp_event_malloc_type_n_srq(e, n, sp_wave_event_config_t, &w); m->bytes = n * sizeof *w; m->p = w; } goto exit; }
    case 26: { char* u = 0; uint64_t* w = 0; if (o->q == 0) { sp_event_malloc_srq(e, n, &u); m->bytes = n; m->p = u; } else if (o->q == 1) { sp_event_malloc_type_srq(e, uint64_t, &w); m->bytes = sizeof *w; m->p = w; } else if (o->q == 2) { status_require(sp_event_memory_add_with_handler(e, handled + *next_handler, handler)); m->handler = ++*next_handler; } else if (o->q == 4) { status_require(sp_event_memory_ensure(e, n % 9 + 1)); for (sp_time_t i = 0; i <= n % 9; i++) { status_require(sp_malloc_type(n, char, &u)); sp_event_memory_fixed_add(e, u); } m->bytes = n; m->p = u; } else if (o->q == 5) { status_require(sp_malloc_type(n, char, &u)); sp_event_memory_add_or_free_srq(e, u); m->bytes = n; m->p = u; } else if (o->q == 6) { status_require(sp_malloc_type(n, char, &u)); status = sp_event_memory_add(e, u); if (status_is_failure) { free(u); status_goto; } m->bytes = n; m->p = u; } else { status_require(sp_event_memory_ensure(e, n)); for (sp_time_t i = 0; i < n && i < 3; i++) { sp_event_memory_fixed_add_with_handler(e, handled + *next_handler, handler); m->handler = ++*next_handler; } } goto exit; }
  }
  m->p = t ? (void*)t : (void*)d; m->bytes = t ? n * 4 : n * 8;
exit:
  status_return;
}
static void t_events(vf_rng* r, uint64_t ix) {
  int k = 1 + (int)vf_below(r, vf_chance(r, .7) ? 10 : 16), hn = 0, faults = 0; made_t m[32]; memset(m, 0, sizeof m); memset(handled, 0, sizeof handled); sp_event_t e; if (vf_chance(r, .5)) { memset(&e, 0xab, sizeof e); sp_event_reset(e); } else e = sp_null_event;
  char w[80]; snprintf(w, sizeof w, "event with %d arrays", k); int64_t fault_op = vf_chance(r, .6) ? (int64_t)vf_below(r, (uint64_t)k) : -1; uint64_t sig = 5;
  for (int i = 0; i < k; i++) {
    op_t o; op_new(r, &o); double* d = 0; sp_time_t* t = 0; vf_eval(1); if (direct(&o, &d, &t).id) vf_fail(K("status"), "%s failed", names[o.kind]); sig = vf_mix(sig, vf_mix((uint64_t)o.kind * 8 + o.q, o.n));
    if (i == 0) vf_ledger_begin();
    int64_t nth = i == fault_op ? (int64_t)vf_below(r, 6) : -1; if (nth >= 0) vf_fault_at(nth);
    made_t* a = m + i; int before = hn; status_t s = macro(&e, &o, a, &hn); int hit = nth >= 0 && vf_fault_hit(); vf_fault_at(-1); vf_eval(2);
    if (hit) { faults++; vf_count("failed allocations", 1); if (!s.id) vf_fail(K("fault"), "%s: no status after a failed allocation", names[o.kind]); if (a->p) vf_fail(K("fault"), "%s: result after a failed allocation", names[o.kind]); a->p = 0; (void)before; }
    else if (s.id) vf_fail(K("status"), "%s with macros: status %d", names[o.kind], s.id);
    else if (a->bytes) {
      if (!vf_ledger_owns_range(a->p, a->bytes)) { vf_fail(K("array"), "%s of length %u: no array of this length", names[o.kind], o.n); a->p = 0; }
      else if (d) { eq_samples(K("content"), names[o.kind], a->p, d, o.n, 1e-12); } else if (t) eq_times(K("content"), names[o.kind], a->p, t, o.n);
      else { /* typed arrays are zeroed, all can be written over their whole length */ char* b = a->p; if (o.kind == 25 && o.q != 3 && o.q < 5) for (size_t q = 0; q < a->bytes; q++) if (b[q]) { vf_fail(K("zero"), "new array of %u: byte %zu is not zero", o.n, q); break; } memset(b, 7 + i, a->bytes); }
      if (a->p) { a->copy = vf_malloc(a->bytes); memcpy(a->copy, a->p, a->bytes); }
    }
    vf_count(names[o.kind], 1); free(d); free(t);
  }
  /* everything is still there and distinct */
  for (int i = 0; i < k; i++) if (m[i].p) { vf_eval(1); if (!vf_ledger_owns_range(m[i].p, m[i].bytes) || memcmp(m[i].p, m[i].copy, m[i].bytes)) vf_fail(K("lifetime"), "%s: array %d changed before the event was freed", w, i); }
  for (int i = 0; i < hn; i++) if (handled[i]) vf_fail(K("handler"), "%s: a handler was called before the event was freed", w);
  vf_eval(1); if (e.memory.data && e.free != sp_event_memory_free) vf_fail(K("free"), "%s: the event would not free its memory", w);
  if (e.free) e.free(&e); if (vf_chance(r, .3)) sp_event_memory_free(&e);
  for (int i = 0; i < 64; i++) { vf_eval(1); if (handled[i] != (i < hn)) { vf_fail(K("handler"), "%s: handler %d of %d was called %d times", w, i, hn, handled[i]); break; } }
  if (vf_ledger_bad_frees()) vf_fail(K("free"), "%s: freed more than once", w); vf_ledger_end_empty(K("leak"), w); for (int i = 0; i < k; i++) vf_free(m[i].copy); vf_sig(vf_mix(sig, (uint64_t)faults)); if (ix < 2) vf_sample("%s, %d handlers, %d failed allocations", w, hn, faults);
}
/* room that is made without a registration is freed as well */
static void t_ensure(vf_rng* r, uint64_t ix) {
  sp_event_t e = sp_null_event; int n = 0, rounds = 1 + (int)vf_below(r, 4); memset(handled, 0, sizeof handled); vf_ledger_begin();
  for (int i = 0; i < rounds; i++) {
    sp_time_t more = (sp_time_t)vf_below(r, 9); status_t s = sp_event_memory_ensure(&e, more); vf_eval(2); if (s.id) vf_fail(K("status"), "ensure failed");
    if (e.free != sp_event_memory_free) vf_fail(K("free"), "after ensure %u the event would not free its memory", more);
    sp_time_t use = vf_chance(r, .5) ? 0 : (sp_time_t)vf_below(r, more + 1); for (sp_time_t k = 0; k < use; k++) sp_event_memory_fixed_add_with_handler(&e, handled + n++, handler);
  }
  if (vf_chance(r, .5)) e.free(&e); else sp_event_memory_free(&e);
  for (int i = 0; i < 64; i++) { vf_eval(1); if (handled[i] != (i < n)) { vf_fail(K("handler"), "handler %d of %d was called %d times", i, n, handled[i]); break; } }
  char w[60]; snprintf(w, sizeof w, "memory ensured %d times, %d registrations", rounds, n); if (vf_ledger_bad_frees()) vf_fail(K("free"), "%s: freed more than once", w); vf_ledger_end_empty(K("leak"), w); vf_count(n ? "events with ensured memory" : "events with unused ensured memory", 1); vf_sig(vf_mix(vf_mix(77, (uint64_t)rounds), (uint64_t)n)); (void)ix;
}
/* more registrations than fit small counters */
static void many_handler(void* a) { ++*(int*)a; }
static void t_many(vf_rng* r, uint64_t ix) {
  sp_time_t n = ix % 12 == 11 ? 65000 + (sp_time_t)vf_below(r, 8000) : 240 + (sp_time_t)vf_below(r, vf_chance(r, .5) ? 40 : 2000), owned = (sp_time_t)vf_below(r, 300), i = 0; int* h = vf_malloc(n * sizeof *h); memset(h, 0, n * sizeof *h); sp_declare_event(e); vf_ledger_begin(); status_t s = {0}; int batches = 0;
  while (i < n && !s.id) {
    if (vf_chance(r, .5)) { sp_time_t k = (sp_time_t)vf_below(r, vf_chance(r, .5) ? 10 : n); if (k > n - i) k = n - i; s = sp_event_memory_ensure(&e, k); batches++; if (!s.id) while (k--) sp_event_memory_fixed_add_with_handler(&e, h + i++, many_handler); }
    else { sp_time_t k = 1 + (sp_time_t)vf_below(r, vf_chance(r, .5) ? 10 : n / 2); while (k-- && i < n && !s.id) s = sp_event_memory_add_with_handler(&e, h + i++, many_handler); }
    if (owned && !s.id) { owned--; char* p = 0; s = ({ status_declare; sp_event_t* q = &e; sp_event_malloc_srq(q, 9, &p); exit: status; }); if (p) memset(p, 1, 9); }
  }
  vf_eval(2); if (s.id) vf_fail(K("status"), "%u registrations: status %d", n, s.id); for (i = 0; i < n; i++) if (h[i]) { vf_fail(K("handler"), "%u registrations: a handler was called before the event was freed", n); break; }
  if (e.free) e.free(&e); vf_eval(n); for (i = 0; i < n; i++) if (h[i] != 1) { vf_fail(K("handler"), "%u registrations: handler %u was called %d times", n, i, h[i]); break; }
  if (vf_ledger_bad_frees()) vf_fail(K("free"), "%u registrations: freed more than once", n); vf_ledger_end_empty(K("leak"), "many registrations"); vf_count("registrations", n); vf_sig(vf_mix(n, (uint64_t)batches)); if (ix < 1) vf_sample("%u registrations, %d reservations", n, batches); vf_free(h);
}
/* local and error memory */
static int scope_handled; static void scope_handler(void* a) { scope_handled++; free(a); }
static status_t local_user(int n, const int* kinds, const sp_time_t* sizes, int fail_at, int late, double** kept, int* bad) {
  status_declare; local_memory_init(20); error_memory_init(20);
  for (int i = 0; i < n; i++) {
    if (i == fail_at) { status_set_goto("harness", 77); }
    if (kinds[i] == 0) { sp_sample_t* a = 0; sp_local_samples_srq(sizes[i], &a); for (sp_time_t j = 0; j < sizes[i]; j++) *bad |= a[j] != 0; memset(a, 9, sizes[i] * 8); }
    else if (kinds[i] == 1) { sp_time_t* a = 0; sp_local_times_srq(sizes[i], &a); for (sp_time_t j = 0; j < sizes[i]; j++) *bad |= a[j] != 0; memset(a, 9, sizes[i] * 4); }
    else if (kinds[i] == 2) { sp_sample_t* a = 0; sp_local_alloc_srq(sp_samples_new, sizes[i], &a); for (sp_time_t j = 0; j < sizes[i]; j++) *bad |= a[j] != 0; memset(a, 9, sizes[i] * sizeof *a); }
    else if (kinds[i] == 3) { sp_sample_t* a = 0; status_require(sp_samples_new(sizes[i], &a)); error_memory_add(a); kept[i] = a; memset(a, 9, sizes[i] * 8); }
    else if (kinds[i] == 4) { status_require(sp_malloc_type(sizes[i], sp_sample_t, kept + i)); error_memory_add(kept[i]); }
    else if (kinds[i] == 5) { sp_define_times_srq(a, sizes[i]); local_memory_add2(a, free); a[sizes[i] - 1] = 5; }
    else if (kinds[i] == 6) { sp_unit_t* a = 0; sp_local_units_srq(sizes[i], &a); for (sp_time_t j = 0; j < sizes[i]; j++) *bad |= a[j] != 0; memset(a, 9, sizes[i] * sizeof *a); }
    else if (kinds[i] == 7) { sp_define_samples_new_srq(a, sizes[i]); local_memory_add(a); for (sp_time_t j = 0; j < sizes[i]; j++) *bad |= a[j] != 0; memset(a, 9, sizes[i] * sizeof *a); }
    else if (kinds[i] == 8) { sp_malloc_type_srq(sizes[i], sp_sample_t, kept + i); error_memory_add2(kept[i], scope_handler); memset(kept[i], 9, sizes[i] * 8); }
    else { sp_time_t* a = 0; sp_malloc_type_srq(sizes[i], sp_time_t, &a); local_memory_add2(a, scope_handler); memset(a, 9, sizes[i] * sizeof *a); (*bad) += 2; }
  }
  if (late) { status_set_goto("harness", 78); }
exit:
  local_memory_free;
  if (status_is_failure) { error_memory_free; }
  status_return;
}
static void t_local(vf_rng* r, uint64_t ix) {
  int n = 1 + (int)vf_below(r, 15), kinds[20], fail_at = vf_chance(r, .25) ? (int)vf_below(r, (uint64_t)n) : -1, late = vf_chance(r, .15), bad = 0; scope_handled = 0; sp_time_t sizes[20]; double* kept[20] = {0}; for (int i = 0; i < n; i++) { kinds[i] = (int)vf_below(r, 10); sizes[i] = 1 + (sp_time_t)vf_below(r, 100); }
  char w[80]; snprintf(w, sizeof w, "scope with %d arrays", n); int64_t nth = vf_chance(r, .4) ? (int64_t)vf_below(r, (uint64_t)n + 1) : -1; vf_ledger_begin(); if (nth >= 0) vf_fault_at(nth); status_t s = local_user(n, kinds, sizes, fail_at, late, kept, &bad); int hit = nth >= 0 && vf_fault_hit(); vf_fault_at(-1);
  vf_eval(3); int handled_want = bad >> 1; bad &= 1; if (bad) vf_fail(K("zero"), "%s: a new array is not zero", w); int want = hit ? s.id + !s.id : fail_at >= 0 ? 77 : late ? 78 : 0; if (s.id != want) vf_fail(K("status"), "%s: status %d instead of %d", w, s.id, want);
  if (s.id) for (int i = 0; i < n; i++) if (kinds[i] == 8 && kept[i]) handled_want++; vf_eval(1); if (scope_handled != handled_want) vf_fail(K("scope-handler"), "%s: status %d, handlers were called %d times instead of %d", w, s.id, scope_handled, handled_want); uint64_t live = 0; if (!s.id) for (int i = 0; i < n; i++) if (kept[i]) { live++; if (!vf_ledger_owns_range(kept[i], sizes[i] * 8)) vf_fail(K("lifetime"), "%s: array %d was freed although nothing failed", w, i); else free(kept[i]); }
  if (vf_ledger_bad_frees()) vf_fail(K("free"), "%s: freed more than once", w); vf_ledger_end_empty(K("leak"), w); vf_count(hit ? "failed allocations in scopes" : s.id ? "failing scopes" : "scopes", 1); vf_sig(vf_hash(kinds, (size_t)n * sizeof *kinds, vf_hash(sizes, (size_t)n * 4, (uint64_t)(s.id + 100)))); if (ix < 1) vf_sample("%s, %lu kept, status %d", w, (unsigned long)live, s.id);
}
vf_suite vf_suites[] = {{"ensure", t_ensure, 600, 10000}, {"many", t_many, 48, 2000}, {"events", t_events, 4000, 120000}, {"scopes", t_local, 2500, 80000}, {0}};
