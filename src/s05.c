/* S05: parallel rendering equals sequential rendering and is race free */
#include "evbig.h"
void vf_setup(void) { status_t s = sp_initialize(0, 2, 500); if (s.id) vf_error("init"); ev_pid = "S05"; ev_noshuffle = 1; }
static uint64_t overlaps;
static void compare_runs(vf_rng* r, ev_scene* s, uint64_t ix, int runs, unsigned max_threads) {
  sp_time_t a, b, cut[2000]; ev_range(r, s, .7, 2, 10, &a, &b);
  double *seq[EV_CH], *par[EV_CH], *prior[EV_CH]; ev_out_new(r, seq, b - a, 1); for (int c = 0; c < EV_CH; c++) { prior[c] = vf_calloc((b - a + 1) * sizeof(double)); memcpy(prior[c], seq[c], (b - a) * sizeof(double)); }
  int noise = ev_scene_has(s, EV_NOISE); char w[140]; ev_where = w; snprintf(w, sizeof w, "%d events %u..%u sequentially", s->n, a, b);
  cut[0] = a; cut[1] = b; ev_how h1 = {.big = 1}; ev_delays = 0; ev_sequential = 1; status_t st = ev_render(r, s, cut, 1, h1, EV_CH, seq); ev_sequential = 0; vf_eval(1); if (st.id) vf_fail("S05:status", "%s: status %d", w, st.id);
  for (int k = 0; k < runs && !vf_failed_in_case(); k++) {
    int cuts = vf_chance(r, .4) ? (cut[0] = a, cut[1] = b, 1) : ev_cut(r, s, a, b, cut, vf_chance(r, .8) ? 12 : 400); unsigned threads = vf_chance(r, .04) ? 0 : 1 + (unsigned)vf_below(r, max_threads);
    for (int c = 0; c < EV_CH; c++) { par[c] = vf_calloc((b - a + 1) * sizeof(double)); memcpy(par[c], prior[c], (b - a) * sizeof(double)); }
    ev_delays = vf_chance(r, .6) ? 1 + (int)vf_below(r, 100000) : 0; if (threads) ev_pool(threads);
    snprintf(w, sizeof w, "%d events %u..%u in %d blocks with %u threads", s->n, a, b, cuts, threads); ev_how h = {.parallel = vf_chance(r, .8), .big = vf_chance(r, .3)};
    st = ev_render(r, s, cut, cuts, h, EV_CH, par); if (threads) sph_future_deinit();
    vf_eval(1); if (st.id) vf_fail("S05:status", "%s: status %d", w, st.id); else ev_compare("against sequential rendering", par, seq, EV_CH, b - a, noise ? 1e-9 : 1e-12);
    vf_count("parallel renderings", 1); if (noise) vf_count("parallel renderings with noise", 1); if (ev_scene_has(s, EV_PGROUP)) vf_count("renderings with nested parallel groups", 1); char t[32]; snprintf(t, sizeof t, "renderings with %u threads", threads); vf_count(t, 1);
    vf_sig(vf_mix(vf_mix(ev_scene_hash(s), vf_hash(cut, sizeof(sp_time_t) * (size_t)(cuts + 1), 1)), threads * 8u + (ev_delays ? 1 : 0)));
    ev_out_free(par);
  }
  if (ix < 2) vf_sample("%s, %d nodes%s", w, ev_scene_nodes(s), noise ? ", noise" : "");
  ev_out_free(seq); ev_out_free(prior); (void)overlaps;
}
static void t_scene(vf_rng* r, uint64_t ix) {
  ev_opt o = {.max_depth = 4, .max_children = 1 + (int)vf_below(r, 6), .max_len = vf_chance(r, .05) ? 1500 : 1 + (sp_time_t)vf_below(r, 150), .types = vf_chance(r, .5) ? 0x7f : 0x7f & ~(1u << EV_NOISE), .noise_left = 3, .rate = 500};
  ev_scene s; ev_scene_random(r, &s, &o); compare_runs(r, &s, ix, 2, 4); ev_scene_free(&s);
}
/* many groups inside of groups with few threads */
static ev_node* nest(vf_rng* r, ev_opt* o, int depth, int width) {
  ev_node* g = ev_new(EV_PGROUP); sp_time_t end = 0;
  for (int i = 0; i < width; i++) { ev_node* c; if (depth && vf_chance(r, .8)) c = nest(r, o, depth - 1, width); else { c = ev_new(EV_PROBE); c->end = 1 + (sp_time_t)vf_below(r, 20); c->has_prepare = 1; } c->parent = g; c->via = VIA_ADD; sp_time_t on = (sp_time_t)vf_below(r, 4); c->start += on; c->end += on; if (c->end > end) end = c->end; g->child[g->n++] = c; }
  g->start = 0; g->end = end; return g;
}
static void t_nested(vf_rng* r, uint64_t ix) {
  ev_opt o = {0}; ev_scene s; s.n = 1 + (int)vf_below(r, 3); s.base = s.end = 0; for (int i = 0; i < s.n; i++) { s.root[i] = nest(r, &o, 1 + (int)vf_below(r, 3), 2 + (int)vf_below(r, 2)); s.root[i]->via = VIA_ADD; if (s.root[i]->end > s.end) s.end = s.root[i]->end; }
  compare_runs(r, &s, ix, 1, 2); ev_scene_free(&s);
}
/* several noise events prepared and generated at the same time */
static void t_noise(vf_rng* r, uint64_t ix) {
  ev_opt o = {.max_depth = 1, .max_children = 3, .types = 1 << EV_NOISE, .noise_left = 100, .rate = 500}; ev_scene s; s.n = 2 + (int)vf_below(r, 4); s.base = s.end = 0;
  for (int i = 0; i < s.n; i++) { ev_node* n = ev_random(r, &o, 0, 0, 5 + (sp_time_t)vf_below(r, 100)); if (vf_chance(r, .3)) { ev_node* g = ev_new(EV_PGROUP); g->child[g->n++] = n; n->parent = g; n->via = VIA_ADD; g->end = n->end; n = g; } n->via = VIA_ADD; sp_time_t on = (sp_time_t)vf_below(r, 20); n->start += on; n->end += on; if (n->end > s.end) s.end = n->end; s.root[i] = n; }
  compare_runs(r, &s, ix, 2, 4); ev_scene_free(&s);
}
static void t_huge(vf_rng* r, uint64_t ix) { bn_scene s; bn_scene_huge(r, &s, 1); ev_pool(1 + (unsigned)vf_below(r, 3)); bn_run(r, &s, vf_chance(r, .7), 1); sph_future_deinit(); vf_count("scenes with times over the whole range", 1); if (ix < 2) vf_sample("%s", ev_where); bn_scene_free(&s); }
static void t_many(vf_rng* r, uint64_t ix) { bn_scene s; bn_scene_many(r, &s, bn_number(r, ix, !strcmp(vf_build, "rel") ? 40 : 0), 1); ev_pool(1 + (unsigned)vf_below(r, 3)); bn_run(r, &s, vf_chance(r, .7), 0); sph_future_deinit(); vf_count("scenes with many events", 1); if (ix < 2) vf_sample("%s", ev_where); bn_scene_free(&s); }
vf_suite vf_suites[] = {{"huge", t_huge, 200, 5000}, {"many", t_many, 80, 1500}, {"scene", t_scene, 3500, 60000}, {"nested", t_nested, 600, 6000}, {"noise", t_noise, 500, 8000}, {0}};
