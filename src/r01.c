/* R01: rendering to files and blocks equals direct sequencing of the range */
#include "ev.h"
#include "wavf.h"
#define K(f) "R01:" f
void vf_setup(void) { status_t s = sp_initialize(0, 2, 600); if (s.id) vf_error("init"); ev_pid = "R01"; ev_life = 1; ev_noshuffle = 1; ev_empty_ok = 1; }
static int noise_tol;
/* one event as it is given to the renderer. the reference is sequenced in one call over a..b */
static ev_node* scene_one(vf_rng* r, ev_opt* o, ev_scene* s) { memset(s, 0, sizeof *s); ev_node* n = ev_random(r, o, 0, 0, ev_pick_len(r, o->max_len)); sp_time_t on = vf_chance(r, .5) ? 0 : (sp_time_t)vf_below(r, o->max_len); n->via = VIA_ADD; n->start += on; n->end += on; s->n = 1; s->root[0] = n; s->end = n->end ? n->end : 1; return n; }
static void reference(vf_rng* r, ev_scene* s, sp_time_t a, sp_time_t b, double** want, const char* w) { sp_time_t cut[2] = {a, b}; ev_how h = {.big = 1}; ev_out_new(r, want, b - a, 0); if (a < b) { status_t x = ev_render(r, s, cut, 1, h, EV_CH, want); vf_eval(1); if (x.id) vf_fail(K("status"), "%s: sequencing: %d", w, x.id); } }
static void ended(ev_scene* s, sp_time_t a, sp_time_t b) { __atomic_store_n(&ev_closed, 1, __ATOMIC_SEQ_CST); ev_check_ended(s->root[0]); if (a < b) ev_check_covered(s->root[0], a, b); }
static sp_event_t build(ev_scene* s, const char* w) { sp_event_t e = {0}; ev_scene_reset(s); sp_random_state = sp_random_state_new(4711); status_t x = ev_build(s->root[0], &e); if (x.id) vf_error("%s: build", w); return e; }
static void check_file(const char* path, double** want, int ch, uint32_t rate, sp_time_t n, const char* w) {
  wbuf b = w_slurp(path); vf_eval(4); size_t bytes = (size_t)n * (size_t)ch * 4;
  if (b.n != 44 + bytes) vf_fail(K("length"), "%s: the file has %zu bytes, expected %zu", w, b.n, 44 + bytes);
  else if (memcmp(b.p, "RIFF", 4) || w_u32(b.p + 4) != 36 + bytes || w_u32(b.p + 40) != bytes || w_u16(b.p + 22) != ch || w_u32(b.p + 24) != rate) vf_fail(K("header"), "%s: sizes %u and %u, %u channels, rate %u", w, w_u32(b.p + 4), w_u32(b.p + 40), w_u16(b.p + 22), w_u32(b.p + 24));
  else { vf_eval((uint64_t)n * (uint64_t)ch); for (sp_time_t i = 0; i < n; i++) for (int c = 0; c < ch; c++) { float y; memcpy(&y, b.p + 44 + ((size_t)i * (size_t)ch + (size_t)c) * 4, 4); if (!vf_near(y, (double)(float)want[c][i], noise_tol ? 1e-5 : 1e-6)) { vf_fail(K("samples"), "%s: channel %d sample %u is %.9g, sequencing writes %.9g", w, c, i, y, want[c][i]); i = n; break; } } }
  vf_free(b.p);
}
static void rebase(vf_rng* r, ev_scene* s) { if (!vf_chance(r, .05)) return; sp_time_t room = s->end + 100; s->base = vf_chance(r, .5) ? 0xffffffffu - room - (sp_time_t)vf_below(r, 50) : vf_chance(r, .5) ? 0x80000000u - (sp_time_t)vf_below(r, room) : (sp_time_t)vf_below(r, 0xf0000000u); s->root[0]->start += s->base; s->root[0]->end += s->base; s->end += s->base; vf_count("scenes far from zero", 1); }
static void range(vf_rng* r, ev_scene* s, sp_time_t* a, sp_time_t* b) { sp_time_t len = s->end - s->base; *a = vf_chance(r, .4) ? s->base : s->base + (sp_time_t)vf_below(r, len + 3); *b = vf_chance(r, .4) ? s->end + (sp_time_t)vf_below(r, 30) : *a + (sp_time_t)vf_below(r, len + 20); if (*b < *a) *b = *a; }
static ev_opt options(vf_rng* r, int ch) { (void)ch; ev_opt o = {.max_depth = 3, .max_children = 1 + (int)vf_below(r, 5), .max_len = vf_chance(r, .1) ? 2500 : 1 + (sp_time_t)vf_below(r, 300), .types = 0x7fu & ~(1u << EV_PGROUP), .noise_left = 2, .rate = 600}; return o; }
static void t_file(vf_rng* r, uint64_t ix) {
  /* events with two channels are only rendered with two */
  ev_opt o = options(r, 2); ev_scene s; scene_one(r, &o, &s); rebase(r, &s); sp_time_t a, b; range(r, &s, &a, &b); sp_time_t n = b - a, block = vf_chance(r, .15) ? 1 + n : vf_chance(r, .3) ? 1 + (sp_time_t)vf_below(r, 12) : 1 + (sp_time_t)vf_size(r, 0, n + 20); if (n && vf_chance(r, .15)) { block = n / (1 + (sp_time_t)vf_below(r, 5)); if (!block) block = 1; } uint32_t rate = (uint32_t)vf_size(r, 1, 96000); int progress = vf_chance(r, .02); noise_tol = ev_scene_has(&s, EV_NOISE);
  char w[160], path[300]; snprintf(w, sizeof w, "%u..%u of an event that ends at %u in blocks of %u", a, b, s.end, block); ev_where = w; w_name(path, sizeof path, "render.wav"); if (vf_chance(r, .2)) { uint8_t junk[2000] = {1}; w_spit(path, junk, sizeof junk); }
  double* want[EV_CH]; reference(r, &s, a, b, want, w); int fds = w_fds(); vf_ledger_begin(); sp_event_t e = build(&s, w);
  status_t x = sp_render_range_file(e, a, b, sp_render_config(EV_CH, rate, block, (sp_bool_t)progress), (uint8_t*)path); vf_eval(2); if (x.id) vf_fail(K("status"), "%s: status %d", w, x.id); ended(&s, a, b); vf_ledger_end_empty(K("leak"), w); if (w_fds() != fds) vf_fail(K("handles"), "%s: %d files are still open", w, w_fds() - fds);
  if (!vf_failed_in_case()) check_file(path, want, EV_CH, rate, n, w);
  unlink(path); vf_count("files", 1); if (a) vf_count("files of ranges that start later", 1); if (n % block == 0) vf_count("files of whole blocks", 1); vf_count("blocks", n / block + 1); vf_sig(vf_mix(ev_scene_hash(&s), vf_mix(vf_mix(a, b), block))); if (ix < 3) vf_sample("%s", w);
  ev_out_free(want); ev_scene_free(&s);
}
static void t_block(vf_rng* r, uint64_t ix) {
  ev_opt o = options(r, 2); ev_scene s; scene_one(r, &o, &s); rebase(r, &s); sp_time_t a, b; range(r, &s, &a, &b); sp_time_t n = b - a; char w[160]; snprintf(w, sizeof w, "%u..%u of an event that ends at %u to a block", a, b, s.end); ev_where = w; double* want[EV_CH]; reference(r, &s, a, b, want, w);
  vf_ledger_begin(); sp_event_t e = build(&s, w); sp_block_t out; memset(&out, 0x5a, sizeof out); status_t x = sp_render_range_block(e, a, b, sp_render_config(EV_CH, 600, 1 + (sp_time_t)vf_below(r, n + 20), 0), &out); vf_eval(3);
  if (x.id) vf_fail(K("status"), "%s: status %d", w, x.id); ended(&s, a, b);
  if (!x.id) { if (out.size != n || out.channel_count != EV_CH) vf_fail(K("block"), "%s: a block of %u samples and %d channels", w, out.size, out.channel_count); else { for (int c = 0; c < EV_CH && n; c++) { vf_eval(1); if (!vf_ledger_owns_range(out.samples[c], n * sizeof(double))) vf_fail(K("block"), "%s: channel %d is too short", w, c); else eq_samples(K("samples"), w, out.samples[c], want[c], n, noise_tol ? 1e-9 : 1e-12); } } sp_block_free(&out); }
  vf_ledger_end_empty(K("leak"), w); vf_count("blocks rendered", 1); vf_sig(vf_mix(ev_scene_hash(&s), vf_mix(a, b))); if (ix < 3) vf_sample("%s", w); ev_out_free(want); ev_scene_free(&s);
}
/* the full duration, also of events that only know it after having been prepared */
static void t_whole(vf_rng* r, uint64_t ix) {
  ev_opt o = options(r, 2); ev_scene s; ev_node* root = scene_one(r, &o, &s); int late = (root->type == EV_PROBE || root->lazy) && vf_chance(r, .6); sp_time_t end = root->end; char w[160], path[300]; snprintf(w, sizeof w, "whole event of %u samples%s", end, late ? ", known after prepare" : ""); ev_where = w; noise_tol = ev_scene_has(&s, EV_NOISE); double* want[EV_CH];
  ev_node parent = {0}; if (late) { sp_time_t l = ev_len(root); root->start = 0; root->end = l; end = l; s.end = l; root->has_prepare = 1; }
  reference(r, &s, 0, end, want, w); w_name(path, sizeof path, "whole.wav"); int fds = w_fds(); vf_ledger_begin(); sp_event_t e = build(&s, w);
  if (late) { root->via = VIA_PREPARED_END; root->parent = &parent; e.end = 0; }
  sp_channel_count = EV_CH; status_t x = sp_render_file(e, (uint8_t*)path); vf_eval(2); if (x.id) vf_fail(K("status"), "%s: status %d", w, x.id); ended(&s, 0, end); root->parent = 0; vf_ledger_end_empty(K("leak"), w); if (w_fds() != fds) vf_fail(K("handles"), "%s: %d files are still open", w, w_fds() - fds);
  if (!vf_failed_in_case()) check_file(path, want, EV_CH, 600, end, w);
  unlink(path); vf_count("whole events", 1); if (late) vf_count("events whose end is known after prepare", 1); vf_sig(vf_mix(ev_scene_hash(&s), 9)); if (ix < 3) vf_sample("%s", w); ev_out_free(want); ev_scene_free(&s);
}
static void t_config(vf_rng* r, uint64_t ix) {
  (void)ix; sp_channel_count_t c = (sp_channel_count_t)vf_below(r, 256); sp_time_t rate = (sp_time_t)vf_u64(r), size = (sp_time_t)vf_u64(r); sp_bool_t p = (sp_bool_t)vf_below(r, 2); sp_render_config_t x = sp_render_config(c, rate, size, p); vf_eval(4); if (x.channel_count != c || x.rate != rate || x.block_size != size || x.display_progress != p) vf_fail(K("config"), "%d %u %u %d became %d %u %u %d", c, rate, size, p, x.channel_count, x.rate, x.block_size, x.display_progress);
}
/* mono files, with events that write only to the first channel */
static status_t mono_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) { status_declare; (void)e; vf_eval(1); if (out.channel_count != 1) vf_fail(K("channels"), "%d channels given to the event", out.channel_count); for (sp_time_t t = start; t < end; t++) out.samples[0][t - start] += ev_value(3, t, 0); return status; }
static int mono_freed; static void mono_free(sp_event_t* e) { (void)e; mono_freed++; }
static void t_mono(vf_rng* r, uint64_t ix) {
  int big = ix % 200 == 199; sp_time_t n = big ? 70000 + (sp_time_t)vf_below(r, 140000) : (sp_time_t)vf_size(r, 1, 2000), on = (sp_time_t)vf_below(r, 100), a = (sp_time_t)vf_below(r, n + on), b = a + 1 + (sp_time_t)vf_below(r, n), block = 1 + (sp_time_t)vf_size(r, 0, n); if (big) { a = (sp_time_t)vf_below(r, 100); b = n + (sp_time_t)vf_below(r, 100); block = vf_chance(r, .4) ? 100 + (sp_time_t)vf_below(r, 5000) : 60000 + (sp_time_t)vf_below(r, 90000); vf_count("files longer than 16 bits", 1); } char w[160], path[300]; snprintf(w, sizeof w, "mono %u..%u of %u..%u in blocks of %u", a, b, on, on + n, block); w_name(path, sizeof path, "mono.wav"); double* want = vf_calloc((b - a) * sizeof(double)); for (sp_time_t t = a; t < b; t++) if (t >= on && t < on + n) want[t - a] = ev_value(3, t - on, 0);
  mono_freed = 0; sp_declare_event(e); e.start = on; e.end = on + n; e.generate = mono_generate; e.free = mono_free; status_t x = sp_render_range_file(e, a, b, sp_render_config(1, 8000, block, 0), (uint8_t*)path); vf_eval(2); if (x.id) vf_fail(K("status"), "%s: status %d", w, x.id); if (mono_freed != 1) vf_fail(K("freed"), "%s: freed %d times", w, mono_freed); double* p[1] = {want}; noise_tol = 0; check_file(path, p, 1, 8000, b - a, w); unlink(path); vf_free(want); vf_count("mono files", 1); vf_sig(vf_mix(vf_mix(a, b), block)); if (ix < 2) vf_sample("%s", w);
}
vf_suite vf_suites[] = {{"file", t_file, 8000, 200000}, {"block", t_block, 5000, 200000}, {"whole", t_whole, 1500, 40000}, {"mono", t_mono, 2000, 60000}, {"config", t_config, 500, 5000}, {0}};
