/* S03: events are prepared once, generated gaplessly and freed exactly once */
#include "ev.h"
static unsigned pool;
void vf_setup(void) { status_t s = sp_initialize(0, 2, 400); if (s.id) vf_error("init"); ev_pid = "S03"; ev_life = 1; }
static void t_forward(vf_rng* r, uint64_t ix) {
  int par = vf_chance(r, .3);
  ev_opt o = {.max_depth = 4, .max_children = 1 + (int)vf_below(r, 7), .max_len = vf_chance(r, .1) ? 1500 : 1 + (sp_time_t)vf_below(r, 200), .types = (0x7fu & ~(1u << EV_NOISE) & ~(par ? 0u : 1u << EV_PGROUP)) | (vf_chance(r, .3) ? 1u << EV_NOISE : 0), .noise_left = 1, .rate = 400};
  ev_scene s; ev_scene_random(r, &s, &o);
  /* the end is often not reached, the start often skips events */
  sp_time_t a, b, cut[3000]; ev_range(r, &s, .6, .5, 30, &a, &b);
  int cuts = vf_chance(r, .15) ? (cut[0] = a, cut[1] = b, 1) : ev_cut(r, &s, a, b, cut, 3000); if (vf_chance(r, .1)) cuts = 1 + (int)vf_below(r, (uint64_t)cuts);
  double* out[EV_CH]; ev_out_new(r, out, b - a, 0); char w[120]; snprintf(w, sizeof w, "%d events %u..%u in %d blocks%s", s.n, a, cut[cuts], cuts, par ? ", parallel" : ""); ev_where = w;
  ev_delays = 0; pool = 0; if (par) { pool = 1 + (unsigned)vf_below(r, 4); ev_pool(pool); }
  ev_how h = {.parallel = par && vf_chance(r, .6), .big = vf_chance(r, .3)};
  vf_ledger_begin(); uint64_t before = ev_callbacks; status_t st = ev_render(r, &s, cut, cuts, h, EV_CH, out); vf_ledger_end_empty("S03:leak", w); if (par) sph_future_deinit();
  vf_eval(1); if (st.id) vf_fail("S03:status", "%s: status %d", w, st.id);
  vf_count("events", (uint64_t)ev_scene_nodes(&s)); vf_count("callbacks observed", ev_callbacks - before); vf_count("blocks", (uint64_t)cuts); if (cut[cuts] < s.end) vf_count("lists freed before their end", 1); if (par) vf_count("parallel renderings", 1);
  vf_sig(vf_mix(ev_scene_hash(&s), vf_hash(cut, sizeof(sp_time_t) * (size_t)(cuts + 1), 1))); if (ix < 3) vf_sample("%s, %d nodes", w, ev_scene_nodes(&s));
  ev_out_free(out); ev_scene_free(&s);
}
/* an event list as a container: adding in any order sorts it, removing any element frees only that one */
extern void sp_event_list_remove(sp_event_list_t**, sp_event_list_t*) __attribute__((weak));
static void t_list(vf_rng* r, uint64_t ix) {
  int n = (int)vf_size(r, 1, 40); ev_node** e = vf_calloc(sizeof(void*) * (size_t)n); sp_event_list_t* l = 0; ev_where = "list";
  ev_closed = 0; vf_ledger_begin();
  for (int i = 0; i < n; i++) { e[i] = ev_new(EV_PROBE); e[i]->start = (sp_time_t)vf_below(r, 30); e[i]->end = e[i]->start + 1 + (sp_time_t)vf_below(r, 30); e[i]->own_free = vf_chance(r, .8); e[i]->mem = (int)vf_below(r, 9); e[i]->mem_how = (int)vf_below(r, 3); sp_event_t x; status_t s = ev_build(e[i], &x); if (!s.id) s = sp_event_list_add(&l, x); if (s.id) vf_error("list add"); }
  int reversed = vf_chance(r, .5); if (reversed) sp_seq_events_prepare(&l);
  uint64_t left = (uint64_t)n;
  for (int round = 0; round < n + 1; round++) {
    /* the list is sorted, doubly linked, and holds the remaining events once */
    uint64_t k = 0; sp_event_list_t *p = 0, *q = l; sp_time_t t = 0; int ok = 1; int seen[64] = {0};
    while (q && k <= left) { ev_node* m = q->event.config; if (q->previous != p) ok = 0; if (p && (reversed ? q->event.start < t : q->event.start > t)) ok = 0; t = q->event.start; for (int i = 0; i < n; i++) if (e[i] == m) { if (seen[i]++) ok = 0; } if (m->freed) ok = 0; p = q; q = q->next; k++; }
    vf_eval(1); if (!ok || k != left) { vf_fail("S03:list", "list of %d (%s), %llu left: order, links or content wrong", n, reversed ? "reversed" : "as added", (unsigned long long)left); break; }
    if (!left || !sp_event_list_remove || vf_chance(r, .1)) break;
    uint64_t pick = vf_below(r, left); q = l; while (pick--) q = q->next; ev_node* m = q->event.config; sp_event_list_remove(&l, q); left--; vf_eval(1);
    if ((m->own_free && m->freed != 1) || m->handler_runs != m->mem) vf_fail("S03:list", "removing an element: free ran %d times, %d of %d handlers", m->freed, m->handler_runs, m->mem);
  }
  sp_event_list_free(&l); for (int i = 0; i < n; i++) ev_check_ended(e[i]); vf_eval(1); if (l) vf_fail("S03:list", "list is not empty after free");
  vf_ledger_end_empty("S03:leak", "list");
  { sp_event_list_t* none = 0; sp_seq_events_prepare(&none); vf_eval(1); if (none) vf_fail("S03:list", "preparing an empty list gives a list"); sp_event_list_free(&none); }
  vf_sig(vf_mix(vf_mix(9, (uint64_t)n), left + ix % 64 * 64)); vf_count("list operations", (uint64_t)n); for (int i = 0; i < n; i++) vf_free(e[i]); vf_free(e);
}
vf_suite vf_suites[] = {{"forward", t_forward, 25000, 500000}, {"list", t_list, 8000, 100000}, {0}};
