/* scenes whose times use the whole range of sp_time_t, and scenes with many events.
   light weight probes whose dyadic values add up exactly */
#ifndef evbig_h
#define evbig_h
#include "ev.h"
enum { BN_PROBE, BN_GROUP, BN_PGROUP, BN_ISO };
typedef struct bn bn;
struct bn { int type, id, append, freed, started, bad; sp_time_t start, len, next; bn** child; int n, max; double gain; };
static int bn_ids, bn_sequential; static uint64_t bn_calls;
static bn* bn_new(int type) { bn* n = vf_calloc(sizeof *n); n->type = type; n->id = bn_ids++; n->gain = 1; return n; }
static void bn_push(bn* g, bn* c) { if (g->n == g->max) { int m = g->max ? 2 * g->max : 8; bn** x = vf_malloc(sizeof(bn*) * (size_t)m); if (g->n) memcpy(x, g->child, sizeof(bn*) * (size_t)g->n); vf_free(g->child); g->child = x; g->max = m; } g->child[g->n++] = c; }
static void bn_free_tree(bn* n) { for (int i = 0; i < n->n; i++) bn_free_tree(n->child[i]); vf_free(n->child); vf_free(n); }
static void bn_reset(bn* n) { n->freed = n->started = n->bad = 0; n->next = 0; for (int i = 0; i < n->n; i++) bn_reset(n->child[i]); }
static int bn_count(bn* n) { int k = 1; for (int i = 0; i < n->n; i++) k += bn_count(n->child[i]); return k; }
static status_t bn_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare; bn* n = e->config; __atomic_fetch_add(&bn_calls, 1, __ATOMIC_RELAXED);
  if (n->freed || end > n->len || end <= start || (n->started && n->next != start)) n->bad = 1;
  n->started = 1; n->next = end; if (n->bad) return status;
  for (int c = 0; c < out.channel_count; c++) for (sp_time_t t = start; t < end; t++) out.samples[c][t - start] += ev_value(n->id, t, c);
  return status;
}
static void bn_free(sp_event_t* e) { bn* n = e->config; n->freed++; e->free = 0; sp_event_memory_free(e); }
static status_t bn_map(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* p) {
  status_declare; bn* n = p; if (n->started && n->next != start) n->bad = 1; n->started = 1; n->next = end;
  for (int c = 0; c < out.channel_count; c++) for (sp_time_t t = start; t < end; t++) out.samples[c][t - start] += n->gain * in.samples[c][t - start];
  return status;
}
/* values for a..b of the window, which starts at win, times relative to the list n is in */
static void bn_expect(bn* n, sp_time_t win, sp_time_t a, sp_time_t b, double gain, double** out) {
  sp_time_t e = n->start + n->len, s = n->start > a ? n->start : a; if (e > b) e = b; if (s >= e) return;
  if (n->type == BN_PROBE) { for (int c = 0; c < EV_CH; c++) for (sp_time_t t = s; t < e; t++) out[c][t - win] += gain * ev_value(n->id, t - n->start, c); return; }
  /* children are relative to the start of the group, which may be before the window */
  double* o2[EV_CH]; sp_time_t w2 = s - n->start; for (int c = 0; c < EV_CH; c++) o2[c] = out[c] + (s - win);
  for (int i = 0; i < n->n; i++) bn_expect(n->child[i], w2, w2, e - n->start, gain * n->gain, o2);
}
static status_t bn_build(bn* n, sp_event_t* e) {
  status_declare; memset(e, 0, sizeof *e);
  if (n->type == BN_PROBE) { e->config = n; e->generate = bn_generate; e->free = bn_free; e->start = n->start; e->end = n->start + n->len; return status; }
  if (n->type == BN_ISO) {
    sp_map_event_config_t* c; status = sp_map_event_config_new(&c); if (status.id) return status;
    status = sp_event_memory_add(e, c); if (status.id) return status;
    c->isolate = 1; c->map_generate = bn_map; c->config = n; status = bn_build(n->child[0], &c->event); e->start = n->start; e->end = n->start + n->len; sp_map_event(e, c); return status;
  }
  if (n->type == BN_GROUP || bn_sequential) { sp_group_event(e); } else { sp_group_parallel_event(e); }
  e->start = e->end = 0;
  for (int i = 0; i < n->n && !status.id; i++) {
    bn* c = n->child[i]; sp_event_t x; status = bn_build(c, &x); if (status.id) break;
    if (c->append) { sp_time_t on = c->start - e->end; x.start = on; x.end = on + c->len; status = sp_group_append(e, x); } else status = sp_group_add(e, x);
  }
  vf_eval(1); if (!status.id && e->end != n->len) { char key[48]; snprintf(key, sizeof key, "%s:group-length", ev_pid); vf_fail(key, "%s: group of %d events is %u long, expected %u", ev_where, n->n, e->end, n->len); }
  e->start = n->start; e->end = n->start + n->len; return status;
}
typedef struct { bn** root; int n; sp_time_t a, b; int many; } bn_scene;
static int bn_cmp(const void* x, const void* y) { const bn *a = *(bn* const*)x, *b = *(bn* const*)y; return a->start < b->start ? -1 : a->start > b->start; }
/* an event that sounds in the window a..b, whose times are relative to the containing list, in a list that may be long */
static bn* bn_huge(vf_rng* r, sp_time_t a, sp_time_t b, int depth, int pgroups) {
  int type = depth <= 0 ? BN_PROBE : (int)vf_below(r, 4); if (type == BN_PGROUP && !pgroups) type = BN_GROUP;
  bn* n = bn_new(type); sp_time_t w = b - a, s, e;
  switch (vf_below(r, 6)) {
    case 0: s = 0; break;
    case 1: s = a ? (sp_time_t)vf_below(r, a) : 0; break;
    case 2: s = a; break;
    case 3: { sp_time_t d = 1u << vf_below(r, 32); d += (sp_time_t)vf_below(r, 3); s = a > d ? a - d + (sp_time_t)vf_below(r, w) : 0; break; }
    case 4: s = a > w ? a - (sp_time_t)vf_below(r, w) : 0; break;
    default: s = a + (sp_time_t)vf_below(r, w);
  }
  if (s >= b) s = b - 1;
  uint64_t lim = 0xffffffffu; sp_time_t f = s > a ? s : a;
  switch (vf_below(r, 4)) {
    case 0: e = (sp_time_t)lim; break;
    case 1: e = b; break;
    case 2: e = f + 1 + (sp_time_t)vf_below(r, lim - f); break;
    default: e = f + 1 + (sp_time_t)vf_below(r, w); if (e <= f) e = f + 1;
  }
  if (depth > 5) e = (sp_time_t)lim;
  n->start = s; n->len = e - s;
  if (type == BN_PROBE) return n;
  if (type == BN_ISO) { n->gain = vf_chance(r, .5) ? -1.5 : 2; bn* c = bn_new(BN_PROBE); c->len = n->len; bn_push(n, c); return n; }
  sp_time_t ra = f - s, rb = (e < b ? e : b) - s, end = 0; int k = 1 + (int)vf_below(r, 4);
  for (int i = 0; i < k; i++) { bn* c = bn_huge(r, ra, rb, depth - 1, pgroups); if (c->start >= end && vf_chance(r, .4)) c->append = 1; if (c->start + c->len > end) end = c->start + c->len; bn_push(n, c); }
  n->len = end; /* may be longer than wanted, but not beyond the range of times */
  if (n->len > lim - n->start) { /* cut: the parts of the children before the window are what matters, so begin earlier */ n->start = (sp_time_t)(lim - n->len); }
  return n;
}
static void bn_scene_huge(vf_rng* r, bn_scene* s, int pgroups) {
  static const sp_time_t near[] = {65536, 1u << 24, 1u << 31, 3000000000u, 0xffffffffu - 450, 0xffffffffu - 420, 100000000u};
  sp_time_t w = 1 + (sp_time_t)vf_below(r, 200); s->a = vf_chance(r, .8) ? near[vf_below(r, 7)] - (sp_time_t)vf_below(r, w) : (sp_time_t)vf_below(r, 0xfffff000u); s->b = s->a + w; s->n = 1 + (int)vf_below(r, 5); s->root = vf_malloc(sizeof(bn*) * (size_t)s->n); s->many = 0;
  for (int i = 0; i < s->n; i++) s->root[i] = bn_huge(r, s->a, s->b, (int)vf_below(r, 4), pgroups);
}
/* n short events in a list, or in a group. the window is at the end, or inside */
static void bn_scene_many(vf_rng* r, bn_scene* s, int n, int pgroups) {
  int how = (int)vf_below(r, 4), type = pgroups && vf_chance(r, .6) ? BN_PGROUP : BN_GROUP; s->many = n; bn** e = vf_malloc(sizeof(bn*) * (size_t)n); sp_time_t span = 1 + (sp_time_t)vf_size(r, 1, vf_chance(r, .5) ? 300 : (uint64_t)n * 2), end = 0;
  for (int i = 0; i < n; i++) { e[i] = bn_new(BN_PROBE); e[i]->len = 1 + (sp_time_t)vf_below(r, 3); e[i]->start = (sp_time_t)vf_below(r, span); }
  qsort(e, (size_t)n, sizeof *e, bn_cmp);
  if (how == 3) { /* one after the other */ for (int i = 0; i < n; i++) { e[i]->append = 1; e[i]->start = end + (vf_chance(r, .1) ? 1 : 0); end = e[i]->start + e[i]->len; } }
  else for (int i = 0; i < n; i++) if (e[i]->start + e[i]->len > end) end = e[i]->start + e[i]->len;
  if (how == 0) { s->root = e; s->n = n; s->a = s->b = 0; }
  else { bn* g = bn_new(type); for (int i = 0; i < n; i++) bn_push(g, e[i]); vf_free(e); g->len = end; g->start = vf_chance(r, .5) ? 0 : (sp_time_t)vf_below(r, 500); end += g->start; s->root = vf_malloc(sizeof(bn*)); s->root[0] = g; s->n = 1; }
  s->b = end; s->a = end > 300 ? end - 300 + (sp_time_t)vf_below(r, 250) : (sp_time_t)vf_below(r, end); if (vf_chance(r, .4)) { s->a = (sp_time_t)vf_below(r, end); s->b = s->a + 1 + (sp_time_t)vf_below(r, 300); if (s->b > end + 10) s->b = end + 10; }
}
static void bn_ended(bn* n, int* bad) { if (n->type == BN_PROBE && n->freed != 1) ++*bad; if (n->bad) ++*bad; for (int i = 0; i < n->n; i++) bn_ended(n->child[i], bad); }
static void bn_scene_free(bn_scene* s) { for (int i = 0; i < s->n; i++) bn_free_tree(s->root[i]); vf_free(s->root); }
static uint64_t bn_hash(bn* n, uint64_t h) { h = vf_mix(vf_mix(vf_mix(h, (uint64_t)n->type), n->start), n->len); for (int i = 0; i < n->n && i < 20; i++) h = bn_hash(n->child[i], h); return h; }
/* renders the window in several blocks and compares */
static void bn_run(vf_rng* r, bn_scene* s, int parallel, int shuffle) {
  status_declare; sp_time_t w = s->b - s->a; static char text[140]; double *out[EV_CH], *want[EV_CH]; char key[48]; ev_where = text;
  ev_out_new(r, out, w, 1); for (int c = 0; c < EV_CH; c++) { want[c] = vf_calloc((w + 1) * sizeof(double)); memcpy(want[c], out[c], w * sizeof(double)); }
  for (int i = 0; i < s->n; i++) { bn_reset(s->root[i]); bn_expect(s->root[i], s->a, s->a, s->b, 1, want); }
  int nodes = 0; for (int i = 0; i < s->n; i++) nodes += bn_count(s->root[i]);
  snprintf(text, sizeof text, "%d events (%d in the list), %u..%u%s", nodes, s->n, s->a, s->b, parallel ? ", parallel" : "");
  if (shuffle) for (int i = s->n - 1; i > 0; i--) { int j = (int)vf_below(r, (uint64_t)i + 1); bn* t = s->root[i]; s->root[i] = s->root[j]; s->root[j] = t; }
  sp_event_list_t* l = 0; for (int i = 0; i < s->n && !status.id; i++) { sp_event_t e; status = bn_build(s->root[i], &e); if (!status.id) status = sp_event_list_add(&l, e); }
  if (status.id) vf_error("big scene: %d", status.id);
  sp_seq_events_prepare(&l);
  sp_time_t p = s->a; int blocks = 0;
  while (p < s->b && !status.id) {
    sp_time_t q = vf_chance(r, s->many > 5000 ? .7 : .3) ? s->b : p + 1 + (sp_time_t)vf_below(r, s->b - p); if (q > s->b || q < p) q = s->b;
    sp_block_t b; b.channel_count = EV_CH; b.size = q - p; double* mem[EV_CH]; for (int c = 0; c < EV_CH; c++) { mem[c] = vf_guarded((q - p) * sizeof(double)); memcpy(mem[c], out[c] + (p - s->a), (q - p) * sizeof(double)); b.samples[c] = mem[c]; }
    status = parallel ? sp_seq_parallel(p, q, b, &l) : sp_seq(p, q, b, &l);
    for (int c = 0; c < EV_CH; c++) { vf_eval(1); if (!vf_guard_check(mem[c])) { snprintf(key, sizeof key, "%s:written-outside", ev_pid); vf_fail(key, "%s: block %u..%u: written outside of channel %d", text, p, q, c); } memcpy(out[c] + (p - s->a), mem[c], (q - p) * sizeof(double)); vf_guarded_free(mem[c]); }
    blocks++; p = q;
  }
  sp_event_list_free(&l); int bad = 0; for (int i = 0; i < s->n; i++) bn_ended(s->root[i], &bad);
  vf_eval(2); snprintf(key, sizeof key, "%s:status", ev_pid); if (status.id) vf_fail(key, "%s: status %d", text, status.id); else ev_compare("against the sum of the events", out, want, EV_CH, w, 1e-12);
  snprintf(key, sizeof key, "%s:life-cycle", ev_pid); if (bad) vf_fail(key, "%s: %d events generated in gaps or beyond their end, or not freed once", text, bad);
  vf_count("blocks", (uint64_t)blocks); uint64_t h = vf_mix(s->a, s->b); for (int i = 0; i < s->n && i < 20; i++) h = bn_hash(s->root[i], h); vf_sig(vf_mix(h, (uint64_t)parallel)); ev_out_free(out); ev_out_free(want);
}
/* a number of events, around or above the ranges of small integers */
static int bn_number(vf_rng* r, uint64_t ix, uint64_t period) { if (period && ix % period == period - 1) { vf_count("lists with more than 65535 events", 1); return 65530 + (int)vf_below(r, 300) + (vf_chance(r, .5) ? 500 : 0); } return vf_chance(r, .6) ? 250 + (int)vf_below(r, 20) : 257 + (int)vf_below(r, 900); }
#endif
