/* B02: blockwise generation covers the requested range exactly, in order and in blocks of at most the resolution */
#include "gen.h"
#define K(f) "B02:" f
/* used by block based events. not declared by the header */
typedef status_t (*block_generate_t)(sp_time_t, sp_time_t, sp_time_t, sp_block_t, sp_event_t*);
__attribute__((weak)) status_t sp_event_block_generate(sp_time_t resolution, block_generate_t generate, sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event);
void vf_setup(void) { if (sp_initialize(0, 2, 960).id) vf_error("initialize"); }
static struct { sp_time_t resolution, start, end, next, calls, fail_at; sp_block_t out; sp_event_t* event; double* hits; int failed, bad; } now;
static status_t generate(sp_time_t duration, sp_time_t offset, sp_time_t event_start, sp_block_t out, sp_event_t* e) {
  status_declare; sp_time_t total = now.end - now.start; vf_eval(4);
  if (now.failed) { vf_fail(K("failed"), "range %u..%u, resolution %u: generated further after a failure", now.start, now.end, now.resolution); now.bad = 1; }
  if (memcmp(&out, &now.out, sizeof out) || e != now.event) { vf_fail(K("arguments"), "the output or the event is another one"); now.bad = 1; }
  if (!duration || duration > now.resolution) { vf_fail(K("resolution"), "range %u..%u, resolution %u: a block of %u", now.start, now.end, now.resolution, duration); now.bad = 1; }
  if (offset != now.next || event_start != now.start + offset || duration > total - (offset <= total ? offset : total)) { vf_fail(K("tiles"), "range %u..%u, resolution %u: block %u at offset %u with time %u and size %u, expected offset %u", now.start, now.end, now.resolution, now.calls, offset, event_start, duration, now.next); now.bad = 1; }
  if (!now.bad && now.hits) for (sp_time_t i = 0; i < duration; i++) now.hits[offset + i] += event_start + i;
  now.next = offset + duration; if (now.calls == now.fail_at) { now.failed = 1; status.id = 44; status.group = "harness"; } now.calls++; status_return;
}
static void t_blocks(vf_rng* r, uint64_t ix) {
  if (!sp_event_block_generate) { vf_count("not available", 1); return; }
  memset(&now, 0, sizeof now); int big = vf_chance(r, .3); sp_time_t n = vf_chance(r, .05) ? 0 : big ? (sp_time_t)vf_below(r, UINT32_MAX) : (sp_time_t)vf_size(r, 1, 3000); now.start = vf_chance(r, .3) ? 0 : (sp_time_t)vf_below(r, (uint64_t)UINT32_MAX - n); now.end = now.start + n;
  now.resolution = big ? n / 50 + 1 + (sp_time_t)vf_below(r, vf_chance(r, .5) ? 1000 : UINT32_MAX / 2) : 1 + (sp_time_t)vf_below(r, vf_chance(r, .3) ? 4 : vf_chance(r, .5) ? n + 2 : 300); if (vf_chance(r, .1) && n) now.resolution = n; if (vf_chance(r, .003)) { /* more blocks than 16 bits count */ big = 0; n = 66000 + (sp_time_t)vf_below(r, 80000); now.start = vf_chance(r, .5) ? 0 : (sp_time_t)vf_below(r, 1u << 31); now.end = now.start + n; now.resolution = 1 + (sp_time_t)vf_below(r, 2); vf_count("long ranges", 1); } if (vf_chance(r, .1) && n > 1) now.resolution = n - 1; if (vf_chance(r, .05)) now.resolution = n + 1 ? n + 1 : n;
  sp_event_t e; sp_event_reset(e); e.end = now.end; e.config = &now; now.event = &e; now.out.channel_count = 1; now.out.size = n; if (!big) { now.hits = vf_guarded(n * 8 + 8); memset(now.hits, 0, n * 8); now.out.samples[0] = now.hits; } sp_time_t blocks = n / now.resolution + (n % now.resolution != 0); now.fail_at = vf_chance(r, .2) ? (sp_time_t)vf_below(r, (uint64_t)blocks + 1) : UINT32_MAX;
  char w[120]; snprintf(w, sizeof w, "range of %u from %u with resolution %u", n, now.start, now.resolution); vf_ledger_begin(); status_t s = sp_event_block_generate(now.resolution, generate, now.start, now.end, now.out, &e); vf_ledger_end_empty(K("leak"), w);
  vf_eval(3); if (s.id != (now.failed ? 44 : 0)) vf_fail(K("failed"), "%s: status %d, failed: %d", w, s.id, now.failed); if (!now.failed && !now.bad && now.next != n) vf_fail(K("tiles"), "%s: only %u samples were generated in %u blocks", w, now.next, now.calls); if (!now.failed && now.calls > blocks) vf_fail(K("resolution"), "%s: %u blocks instead of %u", w, now.calls, blocks); if (!n && now.calls) vf_fail(K("tiles"), "%s: generated", w);
  if (now.hits) { if (!now.failed && !now.bad) for (sp_time_t i = 0; i < n; i++) if (now.hits[i] != (double)now.start + i) { vf_fail(K("tiles"), "%s: sample %u was not generated exactly once", w, i); break; } guards_ok(K("arguments"), w, now.hits); vf_guarded_free(now.hits); }
  vf_count(now.failed ? "failing generators" : big ? "ranges beyond 16 bits" : "ranges", 1); vf_count("blocks", now.calls); vf_sig(vf_mix(vf_mix(n, now.start), now.resolution)); if (ix < 2) vf_sample("%s in %u blocks", w, now.calls);
}
vf_suite vf_suites[] = {{"blocks", t_blocks, 30000, 800000}, {0}};
