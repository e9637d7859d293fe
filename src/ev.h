/* random trees of events, their expected samples, and monitors on everything the sequencer does with them.
   all probe values are dyadic, so that sums are exact in any order */
#ifndef ev_h
#define ev_h
#include "gen.h"
#include <unistd.h>
#include <sched.h>
#include <pthread.h>
#include <sph-sp/queue.h>
#include <sph-sp/thread-pool.h>
#include <sph-sp/futures.h>
enum { EV_PROBE, EV_WAVE, EV_GROUP, EV_PGROUP, EV_MAP, EV_ISO, EV_NOISE, EV_TYPES };
enum { VIA_ADD, VIA_APPEND, VIA_SCHEDULE, VIA_PREPARED_END };
#define EV_CH sp_channel_count_limit
#define EV_MAXCHILD 12
static const char* ev_names[] = {"probe", "wave", "group", "pgroup", "map", "isomap", "noise"};
typedef struct ev_node ev_node;
struct ev_node {
  int type, id, via, n, depth; sp_time_t start, end, onset; /* in the list of the parent. wrapped events start at 0 */
  ev_node* child[EV_MAXCHILD]; ev_node* parent;
  int lazy; /* built by its prepare function, when it is needed */ int mem, has_prepare, own_free, mem_how, delay; /* probe. memory handlers, how they are registered */
  double gain; int map_mode;
  /* wave */ sp_sample_t* amod[EV_CH]; sp_time_t *fmod[EV_CH], *pmod[EV_CH]; sp_time_t frq[EV_CH], phs[EV_CH]; sp_sample_t amp[EV_CH]; sp_sample_t* wvf; sp_time_t wvf_size; int wch, wuse[EV_CH], wout[EV_CH];
  /* noise */ sp_frq_t nfrq, nwdt, ntrnl, ntrnh; int nreject, nch;
  /* planned failure */ int fail_prepare, fail_generate, fail_id; sp_time_t fail_t;
  /* observed */ int prepared, prepare_calls, freed, generates, started, handler_runs, registered, unwrapped, ptouched, built; sp_time_t first, next; void* prepared_at; int failed;
  double* expect[EV_CH]; /* scratch for the oracle */
};
/* life cycle monitors report only in the checks of the properties about life cycles */
static int ev_life; static int ev_empty_ok;
static int ev_noshuffle, ev_sequential;
static int ev_ids; static int ev_closed; static const char* ev_pid = "S02"; static int ev_delays; static const char* ev_where = "";
static int ev_reached_failures; /* callbacks that returned their planned failure */
static uint64_t ev_callbacks, ev_on_demand;
static char ev_group_name[] = "vf-failure";
static void ev_bad(const char* what, ev_node* n, const char* fmt, ...) {
  if (!ev_life && strcmp(what, "written-outside") && strcmp(what, "schedule") && strcmp(what, "group-length")) return;
  char key[64], b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  snprintf(key, sizeof key, "%s:%s", ev_pid, what);
  vf_fail(key, "%s: event %d (%s, %u..%u): %s", ev_where, n ? n->id : -1, n ? ev_names[n->type] : "-", n ? n->start : 0, n ? n->end : 0, b);
}
static sp_time_t ev_len(ev_node* n) { return n->end - n->start; }
/* dyadic value of a probe at event time t */
static double ev_value(int id, sp_time_t t, int ch) { uint64_t h = vf_mix(vf_mix(vf_mix(77, (uint64_t)id), t), (uint64_t)ch); return ((double)(h % 2047) - 1023) / 64; }
static double ev_map_value(ev_node* n, double x, sp_time_t t) { return n->map_mode == 0 ? x * n->gain : n->map_mode == 1 ? x * n->gain + ev_value(n->id, t, 9) : (x < 0 ? -x : x) * n->gain; }
/* ---- creation of random trees. some scenes have onsets beyond 16 bits */
static double ev_far = .003; static int ev_far_on;
typedef struct { int max_depth, max_children; sp_time_t max_len; unsigned types; int noise_left; double fail; sp_time_t rate; } ev_opt;
static ev_node* ev_new(int type) { ev_node* n = vf_calloc(sizeof *n); n->type = type; n->id = ev_ids++; n->gain = 1; return n; }
static void ev_fill_wave(vf_rng* r, ev_node* n) {
  sp_time_t len = ev_len(n) + 1; n->wvf_size = 1 + (sp_time_t)vf_size(r, 0, 70); n->wvf = vf_guarded(n->wvf_size * sizeof(sp_sample_t));
  for (sp_time_t i = 0; i < n->wvf_size; i++) n->wvf[i] = (double)vf_range(r, -64, 64) / 64;
  n->wch = 1 + (int)vf_below(r, EV_CH);
  for (int c = 0; c < n->wch; c++) {
    n->wuse[c] = c == 0 || vf_chance(r, .6); n->amp[c] = (double)vf_range(r, 0, 16) / 16; n->frq[c] = vf_chance(r, .3) ? 0 : (sp_time_t)vf_below(r, 2 * n->wvf_size + 2); n->phs[c] = (sp_time_t)vf_below(r, n->wvf_size);
    n->wout[c] = c; if (c == 0 || vf_chance(r, .7)) { n->amod[c] = vf_guarded(len * sizeof(sp_sample_t)); for (sp_time_t i = 0; i < len; i++) n->amod[c][i] = (double)vf_range(r, -32, 32) / 32; }
    if (vf_chance(r, .35)) { n->fmod[c] = vf_guarded(len * sizeof(sp_time_t)); for (sp_time_t i = 0; i < len; i++) n->fmod[c][i] = (sp_time_t)vf_below(r, 3 * n->wvf_size + 1); }
    if (vf_chance(r, .35)) { n->pmod[c] = vf_guarded(len * sizeof(sp_time_t)); for (sp_time_t i = 0; i < len; i++) n->pmod[c][i] = (sp_time_t)vf_below(r, 3 * n->wvf_size + 1); }
  }
  if (n->wch == 2 && vf_chance(r, .25)) { n->wout[0] = 1; n->wout[1] = vf_chance(r, .5) ? 0 : 1; } else if (n->wch == 1 && vf_chance(r, .3)) n->wout[0] = EV_CH - 1;
}
static sp_time_t ev_pick_len(vf_rng* r, sp_time_t max) { return (sp_time_t)vf_size(r, 1, max); }
static ev_node* ev_random(vf_rng* r, ev_opt* o, int depth, int in_map, sp_time_t forced_len);
static void ev_fill_group(vf_rng* r, ev_opt* o, ev_node* n, int depth, sp_time_t budget) {
  int k = vf_chance(r, .08) ? 0 : 1 + (int)vf_below(r, (uint64_t)o->max_children); sp_time_t end = 0;
  for (int i = 0; i < k && i < EV_MAXCHILD; i++) {
    sp_time_t room = budget > 2 ? budget / 2 : 1;
    ev_node* c = ev_random(r, o, depth + 1, 0, 1 + (sp_time_t)vf_below(r, room));
    sp_time_t len = ev_len(c); c->parent = n;
    int via = (int)vf_below(r, 4); if (via == VIA_PREPARED_END && c->type != EV_PROBE && !c->lazy) via = VIA_ADD;
    c->via = via; sp_time_t on = vf_chance(r, .25) ? 0 : (sp_time_t)vf_below(r, room + 1); if (ev_far_on && vf_chance(r, .3)) on += 65400 + (sp_time_t)vf_below(r, 600);
    if (via == VIA_APPEND) { c->onset = vf_chance(r, .3) ? on : 0; c->start = end + c->onset; c->end = c->start + len; }
    else if (via == VIA_PREPARED_END) { c->onset = vf_chance(r, .5); /* appended */ c->start = c->onset ? end : 0; c->end = c->start + len; if (c->type == EV_PROBE) c->has_prepare = 1; }
    else { c->onset = on; c->start = on; c->end = on + len; }
    if (c->end > end) end = c->end; else if (via == VIA_APPEND) end = c->end;
    n->child[n->n++] = c;
  }
  n->start = 0; n->end = end;
}
static double ev_lazy = .2; static int ev_has(ev_node* n, int type);
static ev_node* ev_random(vf_rng* r, ev_opt* o, int depth, int in_map, sp_time_t len) {
  int type = EV_PROBE;
  for (int tries = 0; tries < 20; tries++) {
    int t = (int)vf_below(r, EV_TYPES); if (!(o->types >> t & 1)) continue;
    if (t == EV_MAP && !in_map) continue; /* a plain map also transforms what other events wrote */
    if (t == EV_NOISE && o->noise_left <= 0) continue;
    if (depth >= o->max_depth && t != EV_PROBE && t != EV_WAVE && t != EV_NOISE) continue;
    type = t; break;
  }
  ev_node* n = ev_new(type); n->depth = depth; n->start = 0; n->end = len; n->mem = vf_chance(r, .4) ? (int)vf_below(r, 12) : 0; n->mem_how = (int)vf_below(r, 3); n->delay = (int)vf_below(r, 4);
  n->has_prepare = vf_chance(r, .7); n->own_free = vf_chance(r, .6);
  switch (type) {
    case EV_WAVE: ev_fill_wave(r, n); break;
    case EV_NOISE: o->noise_left--; n->nfrq = (sp_frq_t)vf_below(r, o->rate / 3); n->nwdt = (sp_frq_t)(1 + vf_below(r, o->rate / 4)); n->ntrnl = (sp_frq_t)(o->rate / 20 + vf_below(r, o->rate / 4)); n->ntrnh = (sp_frq_t)(o->rate / 20 + vf_below(r, o->rate / 4)); n->nreject = vf_chance(r, .3); n->nch = 1 + (int)vf_below(r, EV_CH); n->amod[0] = vf_guarded((len + 1) * sizeof(sp_sample_t)); for (sp_time_t i = 0; i <= len; i++) n->amod[0][i] = (double)vf_range(r, -32, 32) / 32; n->amp[0] = (double)vf_range(r, 1, 16) / 16; break;
    case EV_GROUP: case EV_PGROUP: ev_fill_group(r, o, n, depth, len); break;
    case EV_MAP: case EV_ISO: { n->gain = (double)vf_range(r, -8, 8) / 4; n->map_mode = (int)vf_below(r, 3); ev_node* c = ev_random(r, o, depth + 1, 1, len); c->parent = n; n->child[n->n++] = c; c->via = VIA_ADD; n->end = ev_len(c); break; }
  }
  /* the random state of noise is chosen when it is built */
  n->lazy = type != EV_PROBE && ev_lazy > 0 && vf_chance(r, ev_lazy) && !ev_has(n, EV_NOISE);
  return n;
}
static void ev_free_tree(ev_node* n) { for (int i = 0; i < n->n; i++) ev_free_tree(n->child[i]); for (int c = 0; c < EV_CH; c++) { vf_guarded_free(n->amod[c]); vf_guarded_free(n->fmod[c]); vf_guarded_free(n->pmod[c]); vf_free(n->expect[c]); } vf_guarded_free(n->wvf); vf_free(n); }
static void ev_reset(ev_node* n) { n->prepared = n->prepare_calls = n->freed = n->generates = n->started = n->handler_runs = n->registered = n->failed = n->ptouched = n->built = 0; n->first = n->next = 0; n->prepared_at = 0; for (int i = 0; i < n->n; i++) ev_reset(n->child[i]); }
static int ev_count_nodes(ev_node* n) { int k = 1; for (int i = 0; i < n->n; i++) k += ev_count_nodes(n->child[i]); return k; }
static uint64_t ev_tree_hash(ev_node* n, uint64_t h) { h = vf_mix(vf_mix(vf_mix(h, (uint64_t)n->type), n->start), n->end); for (int i = 0; i < n->n; i++) h = ev_tree_hash(n->child[i], h); return h; }
static int ev_has(ev_node* n, int type) { if (n->type == type) return 1; for (int i = 0; i < n->n; i++) if (ev_has(n->child[i], type)) return 1; return 0; }
/* ---- expected samples: contributions of n for event time a..b, rendered from a on, added to out[ch] (index 0 is a) */
static void ev_expect(ev_node* n, sp_time_t a, sp_time_t b, double** out) {
  if (a >= b) return;
  switch (n->type) {
    case EV_PROBE: for (int c = 0; c < EV_CH; c++) for (sp_time_t t = a; t < b; t++) out[c][t - a] += ev_value(n->id, t, c); break;
    case EV_WAVE:
      for (int c = 0; c < n->wch; c++) {
        int k = n->wuse[c] ? c : 0; sp_sample_t* am = n->amod[k] ? n->amod[k] : n->amod[0]; sp_time_t *fm = n->fmod[k], *pm = n->pmod[k]; if (!fm) fm = n->fmod[0]; if (!pm) pm = n->pmod[0];
        uint64_t frq = n->frq[k] ? n->frq[k] : n->frq[0], ph = n->phs[k];
        for (sp_time_t t = a; t < b; t++) { out[n->wout[c]][t - a] += n->amp[k] * am[t] * n->wvf[(ph + (pm ? pm[t] : 0)) % n->wvf_size]; ph = (ph + frq + (fm ? fm[t] : 0)) % n->wvf_size; }
      } break;
    case EV_GROUP: case EV_PGROUP:
      for (int i = 0; i < n->n; i++) { ev_node* c = n->child[i]; sp_time_t s = c->start > a ? c->start : a, e = c->end < b ? c->end : b; if (s >= e) continue; double* o2[EV_CH]; for (int k = 0; k < EV_CH; k++) o2[k] = out[k] + (s - a); ev_expect(c, s - c->start, e - c->start, o2); } break;
    case EV_MAP: case EV_ISO: {
      double* o2[EV_CH]; for (int k = 0; k < EV_CH; k++) o2[k] = vf_calloc((b - a) * sizeof(double)); ev_expect(n->child[0], a, b, o2);
      for (int k = 0; k < EV_CH; k++) { for (sp_time_t t = a; t < b; t++) out[k][t - a] += ev_map_value(n, o2[k][t - a], t); vf_free(o2[k]); } } break;
  }
}
/* ---- callbacks */
static void ev_alive(ev_node* n, const char* what) {
  __atomic_fetch_add(&ev_callbacks, 1, __ATOMIC_RELAXED); vf_eval(1);
  if (__atomic_load_n(&ev_closed, __ATOMIC_SEQ_CST)) ev_bad("callback-after-end", n, "%s called after the call that renders it has returned", what);
  if (n->freed) ev_bad("use-after-free", n, "%s called after free", what);
}
static void ev_delay(ev_node* n, sp_time_t t) {
  if (!ev_delays) return;
  uint64_t h = vf_mix(vf_mix((uint64_t)ev_delays, (uint64_t)n->id), t) % 16;
  if (h < 3) usleep((useconds_t)(h * 150 + 30)); else if (h < 7) sched_yield(); else if (h == 7) for (volatile int i = 0; i < 20000; i++) {}
}
static void ev_handler(void* p) { ev_node* n = p; vf_eval(1); if (__atomic_load_n(&ev_closed, __ATOMIC_SEQ_CST)) ev_bad("callback-after-end", n, "memory handler called after the end"); n->handler_runs++; if (n->handler_runs > n->mem) ev_bad("memory", n, "memory handlers ran %d times, %d registered", n->handler_runs, n->mem); }
static status_t ev_reg_add(sp_event_t* e, ev_node* n, int k) { status_declare; for (int i = 0; i < k && !status.id; i++) { status = sp_event_memory_add_with_handler(e, n, ev_handler); if (!status.id) n->registered++; } return status; }
static status_t ev_reg_fixed(sp_event_t* e, ev_node* n, int k) { status_t status = sp_event_memory_ensure(e, (sp_time_t)k); for (int i = 0; i < k && !status.id; i++) { sp_event_memory_fixed_add_with_handler(e, n, ev_handler); n->registered++; } return status; }
static status_t ev_register(sp_event_t* e, ev_node* n) {
  status_declare; if (!n->mem) return status;
  if (n->mem_how == 0) status = ev_reg_add(e, n, n->mem);
  else if (n->mem_how == 1) status = ev_reg_fixed(e, n, n->mem);
  else { int h = n->mem / 2; status = ev_reg_add(e, n, h); if (!status.id) status = ev_reg_fixed(e, n, n->mem - h); }
  return status;
}
static status_t ev_fail_status(ev_node* n) { status_declare; status.id = n->fail_id; status.group = (uint8_t*)ev_group_name; n->failed = 1; __atomic_fetch_add(&ev_reached_failures, 1, __ATOMIC_SEQ_CST); return status; }
static status_t ev_prepare(sp_event_t* e) {
  status_declare; ev_node* n = e->config; ev_alive(n, "prepare"); ev_delay(n, 1u << 30);
  n->prepare_calls++; vf_eval(1); if (n->prepare_calls > 1) ev_bad("prepared-twice", n, "prepare called %d times", n->prepare_calls);
  if (n->generates) ev_bad("prepared-late", n, "prepared after generate");
  n->prepared = 1;
  status = ev_register(e, n); /* also what a failing prepare has registered has to be freed */
  if (status.id) return status;
  if (n->via == VIA_PREPARED_END && n->parent && !e->end) e->end = ev_len(n);
  if (n->fail_prepare) return ev_fail_status(n);
  return status;
}
static status_t ev_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare; ev_node* n = e->config; ev_alive(n, "generate"); vf_eval(3);
  if (n->has_prepare && !n->prepared) ev_bad("not-prepared", n, "generate without prepare");
  if (n->failed) ev_bad("after-failure", n, "generate after it failed");
  if (start >= end && ev_len(n) && !ev_empty_ok) ev_bad("range", n, "generate for the empty range %u..%u", start, end);
  if (end > ev_len(n)) ev_bad("range", n, "generate for %u..%u beyond its length %u", start, end, ev_len(n));
  if (n->started && start != n->next) ev_bad("gap", n, "generate for %u..%u after ..%u", start, end, n->next);
  if (!n->started) { n->started = 1; n->first = start; }
  n->next = end; n->generates++; ev_delay(n, start);
  if (n->fail_generate && start <= n->fail_t && n->fail_t < end) return ev_fail_status(n);
  for (int c = 0; c < out.channel_count; c++) for (sp_time_t t = start; t < end; t++) out.samples[c][t - start] += ev_value(n->id, t, c);
  ev_delay(n, end);
  return status;
}
static void ev_free(sp_event_t* e) {
  ev_node* n = e->config; vf_eval(1);
  if (__atomic_load_n(&ev_closed, __ATOMIC_SEQ_CST)) ev_bad("callback-after-end", n, "free called after the end");
  n->freed++; if (n->freed > 1) ev_bad("freed-twice", n, "free called %d times", n->freed);
  e->free = 0; sp_event_memory_free(e);
}
static status_t ev_map(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* p) {
  status_declare; ev_node* n = p; ev_alive(n, "map"); vf_eval(2);
  if (n->started && start != n->next) ev_bad("gap", n, "map for %u..%u after ..%u", start, end, n->next);
  n->started = 1; n->next = end; n->generates++;
  if (in.channel_count != out.channel_count) ev_bad("map-channels", n, "%u and %u channels", in.channel_count, out.channel_count);
  for (int c = 0; c < out.channel_count; c++) {
    if (start < end && n->type == EV_ISO && in.samples[c] == out.samples[c]) ev_bad("map-isolated", n, "isolated map got the shared output");
    if (n->type == EV_MAP && in.samples[c] != out.samples[c]) ev_bad("map-shared", n, "plain map got different buffers");
    for (sp_time_t t = start; t < end; t++) { double v = ev_map_value(n, in.samples[c][t - start], t); if (n->type == EV_ISO) out.samples[c][t - start] += v; else out.samples[c][t - start] = v; }
  }
  if (n->fail_generate && start <= n->fail_t && n->fail_t < end) return ev_fail_status(n);
  return status;
}
/* ---- real events from the description. on failure everything created so far is freed */
static status_t ev_build(ev_node* n, sp_event_t* out);
static status_t ev_add_child(sp_event_t* g, ev_node* c) {
  status_declare; sp_event_t e = {0}; sp_time_t before = g->end; status = ev_build(c, &e); if (status.id) return status;
  sp_time_t len = ev_len(c);
  switch (c->via) {
    case VIA_APPEND: e.start = c->onset; e.end = c->onset + len; return sp_group_append(g, e);
    case VIA_SCHEDULE: { sp_time_t part = len / 3; e.start = 0; e.end = part; void* cfg = c->id % 2 ? e.config : 0; sp_event_t s = sp_event_schedule(e, c->onset, len - part, cfg); vf_eval(1); if (s.start != c->start || s.end != c->end || s.config != e.config) ev_bad("schedule", c, "scheduled to %u..%u", s.start, s.end); return sp_group_add(g, s); }
    case VIA_PREPARED_END: e.start = 0; e.end = 0; return c->onset ? sp_group_append(g, e) : sp_group_add(g, e);
    default: e.start = c->start; e.end = c->end; return sp_group_add(g, e);
  }
  (void)before;
}
static status_t ev_build_now(ev_node* n, sp_event_t* e);
/* compositions that are built on demand: prepare turns the event into another one, which is then prepared too */
static status_t ev_lazy_prepare(sp_event_t* e) {
  status_declare; ev_node* n = e->config; sp_time_t start = e->start, end = e->end; ev_alive(n, "prepare"); ev_delay(n, 1u << 30);
  n->prepare_calls++; vf_eval(1); if (n->prepare_calls > 1) { ev_bad("prepared-twice", n, "prepare called %d times", n->prepare_calls); status.id = 99; return status; }
  if (n->generates) ev_bad("prepared-late", n, "prepared after generate");
  n->prepared = 1; e->prepare = 0; status = ev_build_now(n, e); if (status.id) return status;
  e->start = start; e->end = end ? end : ev_len(n); __atomic_fetch_add(&ev_on_demand, 1, __ATOMIC_RELAXED);
  sp_event_prepare_optional_srq((*e));
exit:
  status_return;
}
static status_t ev_build(ev_node* n, sp_event_t* e) {
  status_declare; if (!n->lazy) return ev_build_now(n, e);
  memset(e, 0, sizeof *e); e->start = n->start; e->end = n->end; e->config = n; e->prepare = ev_lazy_prepare; return status;
}
static status_t ev_build_now(ev_node* n, sp_event_t* e) {
  status_declare; memset(e, 0, sizeof *e); e->start = n->start; e->end = n->end; n->built = 1;
  switch (n->type) {
    case EV_PROBE: e->config = n; e->generate = ev_generate; e->prepare = n->has_prepare ? ev_prepare : 0; e->free = n->own_free ? ev_free : 0; if (!n->has_prepare) { status = ev_register(e, n); } break;
    case EV_WAVE: {
      sp_wave_event_config_t* c; status = sp_wave_event_config_new(&c); if (status.id) return status;
      status = sp_event_memory_add(e, c); if (status.id) { free(c); return status; }
      c->wvf = n->wvf; c->wvf_size = n->wvf_size; c->channel_count = (sp_channel_count_t)n->wch;
      for (int i = 0; i < n->wch; i++) { c->channel_config[i].use = (sp_bool_t)n->wuse[i]; c->channel_config[i].amp = n->amp[i]; c->channel_config[i].amod = n->amod[i]; c->channel_config[i].fmod = n->fmod[i]; c->channel_config[i].pmod = n->pmod[i]; c->channel_config[i].frq = (sp_frq_t)n->frq[i]; c->channel_config[i].phs = n->phs[i]; c->channel_config[i].channel = (sp_channel_count_t)n->wout[i]; }
      sp_wave_event(e, c); status = ev_register(e, n); break; }
    case EV_NOISE: {
      sp_noise_event_config_t* c; status = sp_noise_event_config_new(&c); if (status.id) return status;
      status = sp_event_memory_add(e, c); if (status.id) { free(c); return status; }
      c->channel_count = (sp_channel_count_t)n->nch; c->is_reject = (sp_bool_t)n->nreject; c->channel_config[0].amod = n->amod[0]; c->channel_config[0].amp = n->amp[0]; c->channel_config[0].frq = n->nfrq; c->channel_config[0].wdt = n->nwdt; c->channel_config[0].trnl = n->ntrnl; c->channel_config[0].trnh = n->ntrnh;
      sp_noise_event(e, c); status = ev_register(e, n); break; }
    case EV_GROUP: case EV_PGROUP:
      if (n->type == EV_GROUP || ev_sequential) { sp_group_event(e); } else { sp_group_parallel_event(e); }
      e->start = 0; e->end = 0; status = ev_register(e, n);
      for (int i = 0; i < n->n && !status.id; i++) status = ev_add_child(e, n->child[i]);
      if (!status.id) { vf_eval(1); if (e->end != ev_len(n)) ev_bad("group-length", n, "group is %u long, expected %u", e->end, ev_len(n)); e->start = n->start; e->end = n->end; } break;
    case EV_MAP: case EV_ISO: {
      sp_map_event_config_t* c; status = sp_map_event_config_new(&c); if (status.id) return status;
      c->isolate = n->type == EV_ISO; c->map_generate = ev_map; c->config = n;
      status = sp_event_memory_add(e, c); if (status.id) { free(c); e->free = 0; return status; }
      status = ev_build(n->child[0], &c->event); if (status.id) { sp_event_memory_free(e); return status; }
      sp_map_event(e, c); status = ev_register(e, n); break; }
  }
  if (status.id) { if (e->free) e->free(e); }
  return status;
}
/* everything ended: each event that has been built was freed once and nothing else happened */
static void ev_check_ended(ev_node* n) {
  vf_eval(2);
  if (n->type == EV_PROBE && n->own_free && n->freed != n->built) ev_bad("freed", n, "free called %d times at the end", n->freed);
  int want = n->registered;
  if (n->handler_runs != want) ev_bad("memory", n, "%d memory handlers ran of %d registered", n->handler_runs, want);
  for (int i = 0; i < n->n; i++) ev_check_ended(n->child[i]);
}
/* after the block that starts at t has been processed, in the list of the parent */
static void ev_check_removed(ev_node* n, sp_time_t t) { vf_eval(1); if (n->end <= t) ev_check_ended(n); }
/* after rendering a..b of the list. seen: whether the rendering reached it */
static void ev_check_covered(ev_node* n, sp_time_t a, sp_time_t b) {
  sp_time_t s = n->start > a ? n->start : a, e = n->end < b ? n->end : b; vf_eval(1);
  if (s < e) {
    if (n->type == EV_PROBE) { if (!n->started || n->first != s - n->start || n->next != e - n->start) ev_bad("coverage", n, "generated %u..%u (%d calls), expected %u..%u", n->first, n->next, n->generates, s - n->start, e - n->start); if (n->has_prepare && n->prepare_calls != 1) ev_bad("prepared", n, "prepare called %d times", n->prepare_calls); }
    if ((n->type == EV_MAP || n->type == EV_ISO) && (!n->started || n->next != e - n->start)) ev_bad("coverage", n, "mapped to %u, expected %u", n->next, e - n->start);
    if (n->lazy && n->prepare_calls != 1) ev_bad("prepared", n, "prepare called %d times", n->prepare_calls);
    for (int i = 0; i < n->n; i++) ev_check_covered(n->child[i], s - n->start, e - n->start);
  } else {
    if (ev_len(n) && (n->generates || (n->prepare_calls && n->via != VIA_PREPARED_END))) ev_bad("unreached", n, "%u..%u rendered but prepare called %d times, generate %d times", a, b, n->prepare_calls, n->generates);
  }
}
static void ev_pool(unsigned n) { if (sph_future_init((sph_thread_pool_size_t)n)) vf_error("thread pool"); }

/* ---- rendering of a list a..b with the given borders */
typedef struct { ev_node* root[16]; int n; sp_time_t base, end; } ev_scene;
static double ev_based = .01; /* scenes that do not begin at zero */
static void ev_scene_random(vf_rng* r, ev_scene* s, ev_opt* o) {
  s->n = 1 + (int)vf_below(r, (uint64_t)o->max_children); if (s->n > 16) s->n = 16; s->end = 0; ev_far_on = vf_chance(r, ev_far); if (ev_far_on) vf_count("scenes with onsets beyond 16 bits", 1);
  for (int i = 0; i < s->n; i++) { ev_node* n = ev_random(r, o, 0, 0, ev_pick_len(r, o->max_len)); sp_time_t on = vf_chance(r, .3) ? 0 : (sp_time_t)vf_below(r, o->max_len); if (ev_far_on && vf_chance(r, .3)) on += 65400 + (sp_time_t)vf_below(r, 600); n->via = VIA_ADD; n->start += on; n->end += on; if (n->end > s->end) s->end = n->end; s->root[i] = n; }
  if (!s->end) s->end = 1;
  ev_far_on = 0; s->base = 0;
  if (vf_chance(r, ev_based)) { static const sp_time_t near[] = {65536, 0x80000000u, 0xffffffffu}; sp_time_t k = near[vf_below(r, 3)], d = (sp_time_t)vf_below(r, 2 * s->end + 60), room = 2 * s->end + 60; s->base = vf_chance(r, .7) ? (k > 0xfffffff0u ? k - room - d : k - d) : (sp_time_t)vf_below(r, 0xf0000000u); for (int i = 0; i < s->n; i++) { s->root[i]->start += s->base; s->root[i]->end += s->base; } s->end += s->base; vf_count("scenes far from zero", 1); }
}
/* the rendered range: from the beginning with probability pa, to the end and some more with probability pb */
static void ev_range(vf_rng* r, ev_scene* s, double pa, double pb, sp_time_t more, sp_time_t* a, sp_time_t* b) {
  *a = vf_chance(r, pa) ? s->base : s->base + (sp_time_t)vf_below(r, s->end - s->base); if (s->base && vf_chance(r, .3)) *a -= (sp_time_t)vf_below(r, 40);
  *b = vf_chance(r, pb) ? s->end + (sp_time_t)vf_below(r, more) : *a + 1 + (sp_time_t)vf_below(r, s->end - s->base); if (*b <= *a) *b = *a + 1;
}
static void ev_scene_free(ev_scene* s) { for (int i = 0; i < s->n; i++) ev_free_tree(s->root[i]); }
static void ev_scene_reset(ev_scene* s) { for (int i = 0; i < s->n; i++) ev_reset(s->root[i]); __atomic_store_n(&ev_closed, 0, __ATOMIC_SEQ_CST); ev_reached_failures = 0; }
static uint64_t ev_scene_hash(ev_scene* s) { uint64_t h = 5; for (int i = 0; i < s->n; i++) h = ev_tree_hash(s->root[i], h); return h; }
static int ev_scene_has(ev_scene* s, int t) { for (int i = 0; i < s->n; i++) if (ev_has(s->root[i], t)) return 1; return 0; }
static int ev_scene_nodes(ev_scene* s) { int k = 0; for (int i = 0; i < s->n; i++) k += ev_count_nodes(s->root[i]); return k; }
/* borders of blocks: b[0] = a .. b[n] = end, returns n. prefers the borders of events */
static void ev_marks(ev_node* n, sp_time_t off, sp_time_t* m, int* k, int max) { if (*k + 2 < max) { m[(*k)++] = off + n->start; m[(*k)++] = off + n->end; } if (n->type != EV_MAP && n->type != EV_ISO) for (int i = 0; i < n->n; i++) ev_marks(n->child[i], off + n->start, m, k, max); else ev_marks(n->child[0], off + n->start, m, k, max); }
static int ev_cut(vf_rng* r, ev_scene* s, sp_time_t a, sp_time_t b, sp_time_t* out, int max) {
  sp_time_t m[64]; int k = 0, n = 0; for (int i = 0; i < s->n; i++) ev_marks(s->root[i], 0, m, &k, 64);
  int how = (int)vf_below(r, 5); sp_time_t fixed = 1 + (sp_time_t)vf_size(r, 0, b - a); out[0] = a;
  while (out[n] < b && n < max - 2) {
    sp_time_t p = out[n], q;
    if (how == 0) q = p + fixed; else if (how == 1) q = p + 1 + (sp_time_t)vf_below(r, 7);
    else if (how == 2 && k) { q = m[vf_below(r, (uint64_t)k)] + (sp_time_t)vf_below(r, 3); if (q) q--; if (q <= p) q = p + 1 + (sp_time_t)vf_below(r, 20); }
    else q = p + 1 + (sp_time_t)vf_below(r, b - p);
    if (q > b || q < p) q = b;
    out[++n] = q;
  }
  if (out[n] < b) out[++n] = b;
  return n;
}
static status_t ev_scene_build(vf_rng* r, ev_scene* s, sp_event_list_t** l) {
  status_declare; int order[16]; *l = 0; for (int i = 0; i < s->n; i++) order[i] = i; for (int i = s->n - 1; i > 0 && !ev_noshuffle; i--) { int j = (int)vf_below(r, (uint64_t)i + 1), t = order[i]; order[i] = order[j]; order[j] = t; }
  for (int i = 0; i < s->n; i++) { sp_event_t e; status = ev_build(s->root[order[i]], &e); if (!status.id) { status = sp_event_list_add(l, e); if (status.id && e.free) e.free(&e); } if (status.id) { sp_event_list_free(l); return status; } }
  sp_seq_events_prepare(l);
  return status;
}
typedef struct { int parallel, big, excess; } ev_how;
/* renders into out[ch][0..b-a), which holds the previous content. checks life cycles on the way.
   returns the status of the first call that does not succeed */
static status_t ev_render(vf_rng* r, ev_scene* s, sp_time_t* cut, int cuts, ev_how how, int chans, double** out) {
  status_declare; sp_event_list_t* l; sp_time_t a = cut[0], b = cut[cuts];
  ev_scene_reset(s); sp_random_state = sp_random_state_new(4711); status = ev_scene_build(r, s, &l); if (status.id) return status;
  for (int i = 0; i < cuts && !status.id; i++) {
    sp_time_t p = cut[i], q = cut[i + 1], size = q - p + (how.excess ? (sp_time_t)vf_below(r, 9) : 0); sp_block_t block; block.channel_count = (sp_channel_count_t)chans; block.size = how.big ? b - a : size;
    double* mem[EV_CH];
    for (int c = 0; c < chans; c++) {
      if (how.big) block.samples[c] = out[c] + (p - a);
      else { mem[c] = vf_guarded(size * sizeof(double)); for (sp_time_t t = 0; t < size; t++) mem[c][t] = t < q - p ? out[c][p - a + t] : 12345.5; block.samples[c] = mem[c]; }
    }
    status = how.parallel ? sp_seq_parallel(p, q, block, &l) : sp_seq(p, q, block, &l);
    if (!how.big) for (int c = 0; c < chans; c++) { vf_eval(1); if (!vf_guard_check(mem[c])) ev_bad("written-outside", 0, "block %u..%u: written outside of channel %d", p, q, c); for (sp_time_t t = q - p; t < size; t++) if (mem[c][t] != 12345.5) { ev_bad("written-outside", 0, "block %u..%u: sample %u after its end written", p, q, t - (q - p)); break; } memcpy(out[c] + (p - a), mem[c], (q - p) * sizeof(double)); vf_guarded_free(mem[c]); }
    if (!status.id) for (int k = 0; k < s->n; k++) ev_check_removed(s->root[k], p);
  }
  if (status.id) { vf_eval(1); if (l) ev_bad("list-not-empty", 0, "the list is not empty after a failure"); }
  else { if (l && vf_chance(r, .2)) sp_event_list_validate(l); sp_event_list_free(&l); vf_eval(1); if (l) ev_bad("list-not-empty", 0, "the list is not empty after it was freed"); }
  __atomic_store_n(&ev_closed, 1, __ATOMIC_SEQ_CST); vf_count("events built on demand", ev_on_demand); ev_on_demand = 0;
  for (int k = 0; k < s->n; k++) ev_check_ended(s->root[k]);
  if (!status.id) for (int k = 0; k < s->n; k++) ev_check_covered(s->root[k], a, b);
  return status;
}
static void ev_out_new(vf_rng* r, double** out, sp_time_t n, int prior) { for (int c = 0; c < EV_CH; c++) { out[c] = vf_calloc((n + 1) * sizeof(double)); if (prior) for (sp_time_t i = 0; i < n; i++) out[c][i] = (double)vf_range(r, -200, 200) / 8; } }
static void ev_out_free(double** out) { for (int c = 0; c < EV_CH; c++) vf_free(out[c]); }
static void ev_scene_expect(ev_scene* s, sp_time_t a, sp_time_t b, double** out) { ev_node g; memset(&g, 0, sizeof g); for (int i = 0; i < s->n; i++) { ev_node* c = s->root[i]; sp_time_t x = c->start > a ? c->start : a, y = c->end < b ? c->end : b; if (x >= y) continue; double* o2[EV_CH]; for (int k = 0; k < EV_CH; k++) o2[k] = out[k] + (x - a); ev_expect(c, x - c->start, y - c->start, o2); } }
static int ev_compare(const char* what, double** got, double** want, int chans, sp_time_t n, double tol) {
  for (int c = 0; c < chans; c++) { vf_eval(n); for (sp_time_t i = 0; i < n; i++) if (!vf_near(got[c][i], want[c][i], tol)) { char key[48]; snprintf(key, sizeof key, "%s:samples", ev_pid); vf_fail(key, "%s (%s): channel %d sample %u of %u is %.17g, expected %.17g", ev_where, what, c, i, n, got[c][i], want[c][i]); return 0; } }
  return 1;
}
#endif
