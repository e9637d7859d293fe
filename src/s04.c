/* S04: a failing event stops rendering, is reported, and everything is freed */
#include "ev.h"
void vf_setup(void) { status_t s = sp_initialize(0, 2, 400); if (s.id) vf_error("init"); ev_pid = "S04"; ev_life = 1; }
static ev_node* all[4096]; static int alls;
static void collect(ev_node* n) { if (alls < 4096) all[alls++] = n; for (int i = 0; i < n->n; i++) collect(n->child[i]); }
static void t_fail(vf_rng* r, uint64_t ix) {
  int par = vf_chance(r, .45);
  ev_opt o = {.max_depth = 4, .max_children = 1 + (int)vf_below(r, 7), .max_len = vf_chance(r, .1) ? 800 : 1 + (sp_time_t)vf_below(r, 120), .types = 0x7fu & ~(1u << EV_NOISE) & ~(par ? 0u : 1u << EV_PGROUP), .rate = 400};
  ev_scene s; ev_scene_random(r, &s, &o); alls = 0; for (int i = 0; i < s.n; i++) collect(s.root[i]);
  int planned = vf_chance(r, .7) ? 1 : 1 + (int)vf_below(r, 4), made = 0;
  for (int tries = 0; tries < 60 && made < planned; tries++) { ev_node* n = all[vf_below(r, (uint64_t)alls)]; if (n->fail_id || !ev_len(n)) continue;
    n->fail_id = (int)vf_range(r, 1, 100000) * (vf_chance(r, .3) ? -1 : 1);
    if (n->type == EV_PROBE) { if (vf_chance(r, .4)) { n->fail_prepare = 1; n->has_prepare = 1; int demand = 0; for (ev_node* a = n->parent; a; a = a->parent) if (a->lazy && a->via != VIA_PREPARED_END) demand = 1; if (n->via == VIA_PREPARED_END && demand) vf_count("failures while building on demand planned", 1); else if (n->via == VIA_PREPARED_END) { n->onset = 0; n->via = VIA_ADD; } } else { n->fail_generate = 1; n->fail_t = vf_chance(r, .3) ? 0 : (sp_time_t)vf_below(r, ev_len(n)); } made++; }
    else if (n->type == EV_MAP || n->type == EV_ISO) { n->fail_generate = 1; n->fail_t = (sp_time_t)vf_below(r, ev_len(n)); made++; }
    else n->fail_id = 0;
  }
  sp_time_t a, b, cut[2000]; ev_range(r, &s, .7, 2, 10, &a, &b);
  int cuts = vf_chance(r, .3) ? (cut[0] = a, cut[1] = b, 1) : ev_cut(r, &s, a, b, cut, 2000);
  double* out[EV_CH]; ev_out_new(r, out, b - a, 1); char w[120]; snprintf(w, sizeof w, "%d events, %d planned failures, %u..%u in %d blocks%s", s.n, made, a, b, cuts, par ? ", parallel" : ""); ev_where = w;
  ev_delays = par && vf_chance(r, .4) ? 1 + (int)vf_below(r, 1000) : 0; if (par) ev_pool(1 + (unsigned)vf_below(r, 4));
  ev_how h = {.parallel = par && vf_chance(r, .7), .big = vf_chance(r, .3)};
  vf_ledger_begin(); status_t st = ev_render(r, &s, cut, cuts, h, EV_CH, out);
  if (par) { /* whatever is still queued or running would be noticed now */ sph_future_deinit(); }
  vf_ledger_end_empty("S04:leak", w);
  vf_eval(2);
  if (ev_reached_failures && !st.id) vf_fail("S04:unreported", "%s: %d callbacks failed but rendering succeeded", w, ev_reached_failures);
  if (!ev_reached_failures && st.id) vf_fail("S04:status", "%s: status %d although nothing failed", w, st.id);
  if (st.id) { int ok = 0; for (int i = 0; i < alls; i++) if (all[i]->failed && all[i]->fail_id == st.id) ok = 1; if (!ok || !st.group || strcmp((char*)st.group, ev_group_name)) vf_fail("S04:status", "%s: reported id %d group %s belongs to no event that failed", w, st.id, st.group ? (char*)st.group : "null"); vf_count(h.parallel ? "failures in parallel lists" : "failures in sequential lists", 1); if (!h.parallel && par) vf_count("failures in lists with parallel groups", 1); for (int i = 0; i < alls; i++) if (all[i]->failed) vf_count(all[i]->depth ? "failures of nested events" : "failures of top events", 1); vf_sig(vf_mix(ev_scene_hash(&s), (uint64_t)st.id)); }
  else vf_count("renderings that did not reach a failure", 1);
  if (ix < 3) vf_sample("%s: status %d", w, st.id);
  ev_out_free(out); ev_scene_free(&s);
}
vf_suite vf_suites[] = {{"fail", t_fail, 30000, 600000}, {0}};
