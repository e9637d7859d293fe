/* S01: rendering in blocks equals rendering in one call */
#include "ev.h"
void vf_setup(void) { status_t s = sp_initialize(0, 2, 600); if (s.id) vf_error("init"); ev_pid = "S01"; }
static void t_blocks(vf_rng* r, uint64_t ix) {
  int big = vf_chance(r, .02);
  ev_opt o = {.max_depth = 3, .max_children = 1 + (int)vf_below(r, 6), .max_len = big ? 6000 : vf_chance(r, .1) ? 1500 : 1 + (sp_time_t)vf_below(r, 300), .types = 0x7f & ~(1u << EV_PGROUP), .noise_left = 3, .rate = 600};
  ev_scene s; ev_scene_random(r, &s, &o); ev_noshuffle = 1;
  sp_time_t a, b, cut[3000]; ev_range(r, &s, .7, .7, 20, &a, &b);
  double *one[EV_CH], *out[EV_CH], *prior[EV_CH]; ev_out_new(r, one, b - a, 1); for (int c = 0; c < EV_CH; c++) { prior[c] = vf_calloc((b - a + 1) * sizeof(double)); memcpy(prior[c], one[c], (b - a) * sizeof(double)); }
  cut[0] = a; cut[1] = b; char w[120]; snprintf(w, sizeof w, "%d events %u..%u in one call", s.n, a, b); ev_where = w;
  ev_how h1 = {.big = 1}; status_t st = ev_render(r, &s, cut, 1, h1, EV_CH, one); vf_eval(1); if (st.id) vf_fail("S01:status", "%s: status %d", w, st.id);
  int noise = ev_scene_has(&s, EV_NOISE);
  for (int k = 0; k < 3 && !vf_failed_in_case(); k++) {
    int cuts = ev_cut(r, &s, a, b, cut, 3000); for (int c = 0; c < EV_CH; c++) { out[c] = vf_calloc((b - a + 1) * sizeof(double)); memcpy(out[c], prior[c], (b - a) * sizeof(double)); }
    snprintf(w, sizeof w, "%d events %u..%u in %d blocks", s.n, a, b, cuts); ev_how h = {.big = vf_chance(r, .3), .excess = vf_chance(r, .3)};
    st = ev_render(r, &s, cut, cuts, h, EV_CH, out);
    vf_eval(1); if (st.id) vf_fail("S01:status", "%s: status %d", w, st.id); else ev_compare("against one call", out, one, EV_CH, b - a, noise ? 1e-9 : 1e-12);
    vf_count("blocks", (uint64_t)cuts); vf_sig(vf_mix(ev_scene_hash(&s), vf_hash(cut, sizeof(sp_time_t) * (size_t)(cuts + 1), 1)));
    if (cuts > 1) { vf_count("renderings in several blocks", 1); if (noise) vf_count("renderings with noise in several blocks", 1); }
    ev_out_free(out);
  }
  if (ix < 3) vf_sample("%s, %d nodes%s", w, ev_scene_nodes(&s), noise ? ", noise" : "");
  vf_count("events", (uint64_t)ev_scene_nodes(&s)); ev_out_free(one); ev_out_free(prior); ev_scene_free(&s);
}
vf_suite vf_suites[] = {{"blocks", t_blocks, 16000, 400000}, {0}};
