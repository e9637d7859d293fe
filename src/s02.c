/* S02: every event sounds exactly at its scheduled place and events add up */
#include "evbig.h"
void vf_setup(void) { status_t s = sp_initialize(0, 2, 600); if (s.id) vf_error("init"); ev_pid = "S02"; }
static void t_scene(vf_rng* r, uint64_t ix) {
  ev_opt o = {.max_depth = 3, .max_children = 1 + (int)vf_below(r, 7), .max_len = vf_chance(r, .1) ? 2000 : 1 + (sp_time_t)vf_below(r, 260), .types = 1 << EV_PROBE | 1 << EV_WAVE | 1 << EV_GROUP | 1 << EV_MAP | 1 << EV_ISO, .rate = 600};
  ev_scene s; ev_scene_random(r, &s, &o);
  sp_time_t a, b, cut[1200]; ev_range(r, &s, .6, .6, 20, &a, &b);
  int cuts; if (vf_chance(r, .4)) { cut[0] = a; cut[1] = b; cuts = 1; } else cuts = ev_cut(r, &s, a, b, cut, 1200);
  double *out[EV_CH], *want[EV_CH]; ev_out_new(r, out, b - a, 1); for (int c = 0; c < EV_CH; c++) { want[c] = vf_calloc((b - a + 1) * sizeof(double)); memcpy(want[c], out[c], (b - a) * sizeof(double)); }
  ev_scene_expect(&s, a, b, want);
  char w[100]; snprintf(w, sizeof w, "%d events %u..%u in %d blocks", s.n, a, b, cuts); ev_where = w;
  ev_how how = {.parallel = 0, .big = vf_chance(r, .3), .excess = vf_chance(r, .3)};
  
  status_t st = ev_render(r, &s, cut, cuts, how, EV_CH, out);
 
  vf_eval(1); if (st.id) vf_fail("S02:status", "%s: status %d", w, st.id); else ev_compare("against the sum of the events", out, want, EV_CH, b - a, 1e-12);
  vf_count("events", (uint64_t)ev_scene_nodes(&s)); vf_count("blocks", (uint64_t)cuts); if (a != s.base) vf_count("ranges that start later", 1); vf_sig(vf_mix(ev_scene_hash(&s), vf_hash(cut, sizeof(sp_time_t) * (size_t)(cuts + 1), 1)));
  if (ix < 3) vf_sample("%s, %d nodes", w, ev_scene_nodes(&s));
  ev_out_free(out); ev_out_free(want); ev_scene_free(&s);
}
/* times over the whole range of the type */
static void t_huge(vf_rng* r, uint64_t ix) { bn_scene s; bn_scene_huge(r, &s, 0); bn_run(r, &s, 0, 1); vf_count("scenes with times over the whole range", 1); if (s.a > 0x7fffffff) vf_count("windows beyond 31 bits", 1); if (ix < 2) vf_sample("%s", ev_where); bn_scene_free(&s); }
static void t_many(vf_rng* r, uint64_t ix) { bn_scene s; bn_scene_many(r, &s, bn_number(r, ix, 100), 0); bn_run(r, &s, 0, 0); vf_count("scenes with many events", 1); if (ix < 2) vf_sample("%s", ev_where); bn_scene_free(&s); }
vf_suite vf_suites[] = {{"scene", t_scene, 33000, 900000}, {"huge", t_huge, 4000, 100000}, {"many", t_many, 400, 6000}, {0}};
