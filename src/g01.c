/* G01: map events transform exactly what their event wrote */
#include "gen.h"
#define K(f) "G01:" f
#define CH sp_channel_count_limit
#define DEPTH 5
void vf_setup(void) {}
/* a chain: level 0 is the wrapped source, level k wraps level k - 1. all levels observe their calls */
typedef struct { int is_map, isolate, mode, wrap_group; double gain; int prepared, freed, generated, mapped; sp_time_t g_start, g_end; int handler; int fail_prepare, fail_map, fail_id; sp_time_t fail_at; int has_prepare; sp_map_event_config_t* c; } level;
static level lv[DEPTH + 1]; static int depth; static const char* where; static int seqno;
static sp_block_t top_out; static int inside; static int calls_map, calls_generate, closed;
static double value(sp_time_t t, int ch) { return (double)((int)(vf_mix(vf_mix(991, t), (uint64_t)ch) % 401) - 200) / 16; }
static double mapped(const level* l, double x, sp_time_t t) { return l->mode == 0 ? x * l->gain : l->mode == 1 ? fabs(x) * l->gain : x * l->gain + (double)(t % 7) / 8; }
/* what level k writes for event time t into a cleared buffer */
static double expected(int k, sp_time_t t, int ch) { return k == 0 ? value(t, ch) : mapped(lv + k, expected(k - 1, t, ch), t); }
static char group_name[] = "g01";
static status_t failing(level* l) { status_declare; status.id = l->fail_id; status.group = (uint8_t*)group_name; return status; }
static void on_free(void* p) { level* l = p; vf_eval(1); if (++l->handler > 1) vf_fail(K("freed"), "%s: memory of level %d freed %d times", where, (int)(l - lv), l->handler); }
static status_t source_prepare(sp_event_t* e) { status_declare; level* l = e->config; vf_eval(1); if (closed) vf_fail(K("closed"), "%s: prepare after the end", where); if (++l->prepared > 1) vf_fail(K("prepared"), "%s: the wrapped event was prepared %d times", where, l->prepared); if (l->fail_prepare) return failing(l); return status; }
static status_t source_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare; level* l = e->config; l->generated++; l->g_start = start; l->g_end = end; calls_generate++; vf_eval(3);
  if (l->has_prepare && !l->prepared) vf_fail(K("prepared"), "%s: generate without prepare", where); if (closed || l->freed) vf_fail(K("closed"), "%s: generate after the end", where);
  if (out.channel_count != top_out.channel_count) vf_fail(K("buffer"), "%s: %d channels instead of %d", where, out.channel_count, top_out.channel_count); if (out.size < end - start) vf_fail(K("buffer"), "%s: a block of %u for %u", where, out.size, end - start);
  int iso = 0; for (int k = 1; k <= depth; k++) iso |= lv[k].isolate;
  for (int c = 0; c < out.channel_count; c++) for (sp_time_t t = start; t < end; t++) { if (iso && out.samples[c][t - start] != 0) { vf_fail(K("cleared"), "%s: the private buffer is not cleared", where); iso = 0; } out.samples[c][t - start] += value(t, c); }
  for (int c = 0; c < out.channel_count && end > start; c++) { int same = out.samples[c] >= top_out.samples[c] && out.samples[c] < top_out.samples[c] + top_out.size; if (same == iso) vf_fail(K("private"), "%s: the wrapped event writes to %s", where, same ? "the shared output" : "another buffer"); }
  if (l->fail_id && l->fail_at >= start && l->fail_at < end && !l->fail_prepare) return failing(l);
  return status;
}
static void source_free(sp_event_t* e) { level* l = e->config; vf_eval(1); if (++l->freed > 1) vf_fail(K("freed"), "%s: the wrapped event was freed %d times", where, l->freed); e->free = 0; sp_event_memory_free(e); }
static status_t map_f(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* state) {
  status_declare; level* l = state; int k = (int)(l - lv); calls_map++; l->mapped++; vf_eval(3);
  if (k < 1 || k > depth) { vf_fail(K("state"), "%s: a wrong state is passed to the map function", where); return status; }
  if (start != lv[0].g_start || end != lv[0].g_end) vf_fail(K("range"), "%s: map function %d called for %u..%u after generate for %u..%u", where, k, start, end, lv[0].g_start, lv[0].g_end);
  if (l->mapped != lv[0].generated) vf_fail(K("once"), "%s: map function %d called %d times after %d generate calls", where, k, l->mapped, lv[0].generated);
  if (k > 1 && lv[k - 1].mapped != l->mapped) vf_fail(K("order"), "%s: map function %d called before the one it wraps", where, k);
  if (closed) vf_fail(K("closed"), "%s: map function called after the end", where);
  int below_iso = 0; for (int j = 1; j < k; j++) below_iso |= lv[j].isolate; int shared = 1; for (int j = k + 1; j <= depth; j++) shared &= !lv[j].isolate;
  for (int c = 0; c < in.channel_count && end > start; c++) {
    vf_eval(2); if (l->isolate ? in.samples[c] == out.samples[c] : in.samples[c] != out.samples[c]) vf_fail(K("private"), "%s: input and output of map function %d are %s", where, k, l->isolate ? "the same" : "different");
    if (l->isolate && shared && (out.samples[c] < top_out.samples[c] || out.samples[c] >= top_out.samples[c] + top_out.size)) vf_fail(K("private"), "%s: the result of map function %d does not go to the shared output", where, k);
    for (sp_time_t i = 0; i < end - start; i++) { { vf_eval(1); double want = expected(k - 1, start + i, c); if (!vf_near(in.samples[c][i], want, 1e-12)) { vf_fail(K("input"), "%s: map function %d got %.9g at %u, expected %.9g", where, k, in.samples[c][i], start + i, want); return status; } }
      if (l->isolate) out.samples[c][i] += mapped(l, in.samples[c][i], start + i); else out.samples[c][i] = mapped(l, in.samples[c][i], start + i); }
  }
  if (l->fail_map && l->fail_at >= start && l->fail_at < end) return failing(l);
  return status;
}
static void t_chain(vf_rng* r, uint64_t ix) {
  char w[120]; where = w; closed = 0; calls_map = calls_generate = 0; memset(lv, 0, sizeof lv); depth = 1 + (int)vf_below(r, DEPTH); sp_time_t n = (sp_time_t)vf_size(r, 1, 400); int chans = 1 + (int)vf_below(r, CH);
  vf_ledger_begin(); lv[0].has_prepare = vf_chance(r, .7);
  for (int k = 1; k <= depth; k++) { lv[k].is_map = 1; lv[k].isolate = k == depth ? vf_chance(r, .8) : vf_chance(r, .35); lv[k].mode = (int)vf_below(r, 3); lv[k].gain = (double)vf_range(r, -8, 8) / 4; }
  int shared = 1; for (int k = 1; k <= depth; k++) if (lv[k].isolate) shared = 0;
  int fail = vf_chance(r, .3) ? 1 + (int)vf_below(r, 3) : 0; sp_time_t fail_at = (sp_time_t)vf_below(r, n); level* fl = 0; if (fail == 1 && !lv[0].has_prepare) fail = 2;
  if (fail) { fl = fail == 3 ? lv + 1 + vf_below(r, (uint64_t)depth) : lv; fl->fail_id = 7 + (int)vf_below(r, 90); fl->fail_at = fail_at; if (fail == 1) fl->fail_prepare = 1; if (fail == 3) fl->fail_map = 1; }
  static const char* fails[] = {"", ", prepare fails", ", generate fails", ", a map function fails"}; snprintf(w, sizeof w, "%d maps%s of %u samples%s", depth, shared ? ", none isolated" : "", n, fails[fail]);
  sp_declare_event(ev); ev.start = 0; ev.end = n; ev.prepare = lv[0].has_prepare ? source_prepare : 0; ev.generate = source_generate; ev.free = source_free; ev.config = lv; if (vf_chance(r, .5)) { sp_event_t* e = &ev; if (sp_event_memory_add_with_handler(e, lv, on_free).id) vf_error("memory"); } else lv[0].handler = -1;
  for (int k = 1; k <= depth; k++) {
    sp_map_event_config_t* c; if (sp_map_event_config_new(&c).id) vf_error("config"); vf_eval(1); if (c->config || c->map_generate || c->isolate || c->event.generate) vf_fail(K("config"), "a new config is not cleared");
    c->event = ev; c->map_generate = map_f; c->config = lv + k; c->isolate = (sp_bool_t)lv[k].isolate; lv[k].c = c; sp_event_t* e = &ev; sp_event_reset(ev); ev.start = 0; ev.end = n; sp_map_event(e, c); if (sp_event_memory_add(e, c).id) vf_error("memory"); ev.free = sp_map_event_free; if (vf_chance(r, .4)) { if (sp_event_memory_add_with_handler(e, lv + k, on_free).id) vf_error("memory"); } else lv[k].handler = -1;
  }
  /* rendered with sp_seq at an onset in an output that has content */
  sp_time_t onset = vf_chance(r, .5) ? 0 : (sp_time_t)vf_below(r, 100), total = onset + n + (sp_time_t)vf_below(r, 20); double *out[CH], *want[CH]; for (int c = 0; c < CH; c++) { out[c] = out_samples(total); for (sp_time_t i = 0; i < total; i++) out[c][i] = lv[depth].isolate ? (double)vf_range(r, -64, 64) / 8 : 0; want[c] = dup_samples(out[c], total); }
  for (int c = 0; c < chans; c++) for (sp_time_t t = 0; t < n; t++) want[c][onset + t] += expected(depth, t, c);
  ev.start += onset; ev.end += onset; sp_declare_event_list(list); if (sp_event_list_add(&list, ev).id) vf_error("list"); sp_time_t at = 0, stop = vf_chance(r, .15) ? (sp_time_t)vf_below(r, total) : total; status_t s = {0}; int calls = 0;
  while (at < stop && !s.id) { sp_time_t len = vf_chance(r, .3) ? stop - at : 1 + (sp_time_t)vf_below(r, stop - at); memset(&top_out, 0, sizeof top_out); top_out.channel_count = (sp_channel_count_t)chans; top_out.size = len; for (int c = 0; c < chans; c++) top_out.samples[c] = out[c] + at; int g = calls_generate, m = calls_map; s = sp_seq(at, at + len, top_out, &list); vf_eval(1); int active = at + len > onset && at < onset + n; if (!s.id && (calls_generate - g != active || calls_map - m != active * depth)) vf_fail(K("once"), "%s: block %u..%u: %d generate and %d map calls", w, at, at + len, calls_generate - g, calls_map - m);
    if (!s.id && active && (lv[0].g_start != (at > onset ? at - onset : 0) || lv[0].g_end != (at + len < onset + n ? at + len - onset : n))) vf_fail(K("range"), "%s: block %u..%u at onset %u: generated %u..%u", w, at, at + len, onset, lv[0].g_start, lv[0].g_end);
    at += len; calls++; }
  sp_time_t reached = stop > onset ? stop - onset : 0; int should_fail = fail && (fail == 1 ? reached > 0 : reached > fail_at); vf_eval(1);
  if (should_fail ? s.id != fl->fail_id || s.group != (uint8_t*)group_name : s.id != 0) vf_fail(K("failure"), "%s: status %d, expected %d", w, s.id, should_fail ? fl->fail_id : 0);
  if (!s.id) sp_event_list_free(&list); else { vf_eval(1); if (list) vf_fail(K("failure"), "%s: the list is not empty", w); }
  closed = 1; vf_eval(3); if (lv[0].freed != 1) vf_fail(K("freed"), "%s: the wrapped event was freed %d times", w, lv[0].freed); if (lv[0].has_prepare && lv[0].prepared != (reached > 0)) vf_fail(K("prepared"), "%s: the wrapped event was prepared %d times", w, lv[0].prepared);
  for (int k = 0; k <= depth; k++) { vf_eval(1); if (lv[k].handler == 0) vf_fail(K("freed"), "%s: memory of level %d was not freed", w, k); }
  if (s.id && fail == 2) { vf_eval(1); for (int k = 1; k <= depth; k++) if (lv[k].mapped != lv[0].generated - 1) { vf_fail(K("failure"), "%s: map function %d was called although generate failed", w, k); break; } }
  vf_ledger_end_empty(K("leak"), w);
  for (int c = 0; c < CH; c++) { guards_ok(K("outside"), w, out[c]); if (!s.id) eq_samples(K("output"), w, out[c], want[c], stop, 1e-12); vf_eval(1); if (c >= chans && memcmp(out[c], want[c], total * 8)) vf_fail(K("output"), "%s: a channel that does not exist was written", w); }
  vf_count(fail && s.id ? "failures" : shared ? "chains without isolation" : "isolated chains", 1); if (depth > 1) vf_count("nested maps", 1); vf_sig(vf_hash(want[0], total * 8, (uint64_t)depth * 8 + (uint64_t)fail)); if (ix < 3) vf_sample("%s, %d blocks", w, calls);
  for (int c = 0; c < CH; c++) { vf_guarded_free(out[c]); vf_guarded_free(want[c]); }
}
vf_suite vf_suites[] = {{"chain", t_chain, 16000, 500000}, {0}};
