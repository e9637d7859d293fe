/* W01: wave oscillators keep phase and follow their modulation inputs */
#include "gen.h"
#define K(f) "W01:" f
#define RATE 960
void vf_setup(void) { if (sp_initialize(0, 2, RATE).id) vf_error("initialize"); }
static sp_time_t some_time(vf_rng* r, uint64_t size) { switch (vf_below(r, 6)) { case 0: return 0; case 1: return (sp_time_t)(size - 1); case 2: return (sp_time_t)size; case 3: return (sp_time_t)vf_below(r, 1000000); default: return (sp_time_t)vf_below(r, 2 * size + 2); } }
static sp_time_t* mods(vf_rng* r, size_t n, uint64_t size, int constant) { sp_time_t* a = out_times(n); sp_time_t c = some_time(r, size); for (size_t i = 0; i < n; i++) a[i] = constant ? c : vf_chance(r, .5) ? (sp_time_t)vf_below(r, size + 1) : some_time(r, size); return a; }
/* plain oscillators, in one or several calls */
static void t_wave(vf_rng* r, uint64_t ix) {
  int kind = (int)vf_below(r, 4); size_t n = vf_size_big(r, ix, 1500, 0, 800); sp_sample_t* wvf = 0; const sp_sample_t* table; uint64_t size; char w[90];
  if (kind == 1) { table = sp_sine_table; size = sp_rate; } else if (kind == 2) { table = sp_sine_table_lfo; size = (uint64_t)sp_rate * sp_sine_lfo_factor; } else { size = ix % 700 == 699 ? 65530 + vf_below(r, 12) + (vf_chance(r, .5) ? vf_below(r, 70000) : 0) : vf_size(r, 1, 300); table = wvf = gen_samples(r, size, -1, 1); }
  double* amod = vf_chance(r, .75) ? gen_samples(r, n, -2, 2) : 0; double amp = gen_value(r, -2, 2); sp_time_t frq = some_time(r, size); sp_time_t* fmod = vf_chance(r, .5) ? mods(r, n, size, vf_chance(r, .2)) : 0;
  int keep = vf_chance(r, .85); sp_time_t phs = keep ? (sp_time_t)vf_below(r, size) : 0; uint64_t ph = phs; int parts = keep ? 1 + (int)vf_below(r, 5) : 1;
  double *out = gen_samples(r, n, -1, 1), *want = dup_samples(out, n);
  for (size_t i = 0; i < n; i++) { want[i] += amp * (amod ? amod[i] : 1) * table[ph]; ph = (ph + (fmod ? fmod[i] : frq)) % size; }
  snprintf(w, sizeof w, "%zu samples in %d calls, waveform of %llu, frequency %s %u", n, parts, (unsigned long long)size, fmod ? "modulated" : "fixed", frq);
  size_t at = 0; for (int p = 0; p < parts; p++) { size_t len = p == parts - 1 ? n - at : vf_below(r, n - at + 1); double* am = amod ? amod + at : 0; sp_time_t* fm = fmod ? fmod + at : 0; sp_time_t* st = keep ? &phs : 0;
    if (kind == 1) sp_sine((sp_time_t)len, amp, am, frq, fm, st, out + at); else if (kind == 2) sp_sine_lfo((sp_time_t)len, amp, am, frq, fm, st, out + at); else sp_wave((sp_time_t)len, wvf, (sp_time_t)size, amp, am, frq, fm, st, out + at);
    at += len; }
  guards_ok(K("range"), w, out); eq_samples(K("oscillator"), w, out, want, n, 1e-12); vf_eval(1); if (keep && phs != ph) vf_fail(K("phase"), "%s: the phase after that is %u, expected %llu", w, phs, (unsigned long long)ph);
  vf_count(kind == 1 ? "sine" : kind == 2 ? "sine_lfo" : "wave", 1); vf_sig(vf_hash(want, n * 8, size)); if (ix < 2) vf_sample("%s", w);
  vf_guarded_free(wvf); vf_guarded_free(amod); vf_guarded_free(fmod); vf_guarded_free(out); vf_guarded_free(want);
}
/* wave events with channels of their own, called by hand in consecutive parts */
static void t_event(vf_rng* r, uint64_t ix) {
  size_t n = vf_size_big(r, ix, 2000, 1, 700); int own = vf_chance(r, .6); uint64_t size = own ? (ix % 700 == 699 ? 65530 + vf_below(r, 12) + (vf_chance(r, .5) ? vf_below(r, 70000) : 0) : vf_size(r, 1, 500)) : sp_rate; sp_sample_t* wvf = own ? gen_samples(r, size, -1, 1) : sp_sine_table; char w[120];
  vf_ledger_begin(); sp_wave_event_config_t *c = 0, *all = 0, local; int count = vf_chance(r, .002) ? 66000 + (int)vf_below(r, 3000) : vf_chance(r, .01) ? 256 + (int)vf_below(r, 300) : 1 + (int)vf_below(r, 3), heap = vf_chance(r, .7); vf_eval(8);
  if (heap) { status_t s = count == 1 ? sp_wave_event_config_new(&all) : sp_wave_event_config_new_n((sp_time_t)count, &all); if (s.id) { vf_fail(K("status"), "config_new: %d", s.id); vf_ledger_end(); return; } c = all + (vf_chance(r, .5) ? (uint64_t)count - 1 : vf_below(r, (uint64_t)count)); } else { local = sp_wave_event_config_defaults(); c = &local; }
  if (c->wvf != sp_sine_table || c->wvf_size != sp_rate || c->channel_count != sp_channel_count_limit || !c->channel_config[0].use) vf_fail(K("defaults"), "waveform, size, channel count or use of the first channel");
  for (int i = 0; i < sp_channel_count_limit; i++) if (c->channel_config[i].amp != 1 || c->channel_config[i].channel != i || c->channel_config[i].amod || c->channel_config[i].fmod || c->channel_config[i].pmod || c->channel_config[i].frq || c->channel_config[i].phs || (i && c->channel_config[i].use)) vf_fail(K("defaults"), "channel %d", i);
  int chans = vf_chance(r, .3) ? 1 : sp_channel_count_limit; c->channel_count = (sp_channel_count_t)chans; if (own) { c->wvf = wvf; c->wvf_size = (sp_time_t)size; }
  double* amod[sp_channel_count_limit] = {0}; sp_time_t *fmod[sp_channel_count_limit] = {0}, *pmod[sp_channel_count_limit] = {0}; sp_wave_event_channel_config_t eff[sp_channel_count_limit];
  for (int i = 0; i < chans; i++) { sp_wave_event_channel_config_t* cc = c->channel_config + i; if (i && vf_chance(r, .3)) { /* as the first channel, whatever its settings are */ if (vf_chance(r, .4)) { cc->amp = gen_value(r, -2, 2); cc->phs = (sp_time_t)vf_below(r, size); cc->frq = (sp_frq_t)vf_below(r, 2 * size + 2); } if (vf_chance(r, .5)) cc->channel = (sp_channel_count_t)vf_below(r, sp_channel_count_limit); eff[i] = *cc; continue; }
    cc->use = 1; if (!i || vf_chance(r, .6)) cc->amod = amod[i] = gen_samples(r, n, -2, 2); if (vf_chance(r, .4)) cc->fmod = fmod[i] = mods(r, n, size, vf_chance(r, .2)); if (vf_chance(r, .4)) cc->pmod = pmod[i] = mods(r, n, size, vf_chance(r, .2));
    if (vf_chance(r, .8)) cc->frq = vf_chance(r, .2) ? (sp_frq_t)(65535 - vf_below(r, 10)) : (sp_frq_t)vf_below(r, 2 * size + 2); if (vf_chance(r, .5)) cc->phs = (sp_time_t)vf_below(r, size); if (vf_chance(r, .6)) cc->amp = gen_value(r, -2, 2); if (vf_chance(r, .3)) cc->channel = (sp_channel_count_t)vf_below(r, sp_channel_count_limit); eff[i] = *cc; }
  for (int i = 1; i < chans; i++) { sp_channel_count_t ch = eff[i].channel; if (!eff[i].use) { eff[i] = eff[0]; eff[i].channel = ch; } else { if (!eff[i].amod) eff[i].amod = eff[0].amod; if (!eff[i].pmod) eff[i].pmod = eff[0].pmod; if (!eff[i].fmod) eff[i].fmod = eff[0].fmod; if (!eff[i].frq) eff[i].frq = eff[0].frq; } }
  /* expected */
  double *out[sp_channel_count_limit], *want[sp_channel_count_limit]; for (int i = 0; i < sp_channel_count_limit; i++) { out[i] = gen_samples(r, n, -1, 1); want[i] = dup_samples(out[i], n); }
  for (int i = 0; i < chans; i++) { uint64_t ph = eff[i].phs; for (size_t t = 0; t < n; t++) { want[eff[i].channel][t] += eff[i].amp * eff[i].amod[t] * wvf[(ph + (eff[i].pmod ? eff[i].pmod[t] : 0)) % size]; ph = (ph + eff[i].frq + (eff[i].fmod ? eff[i].fmod[t] : 0)) % size; } }
  snprintf(w, sizeof w, "%zu samples, waveform of %llu, %d channels", n, (unsigned long long)size, chans);
  sp_declare_event(ev); sp_event_t* e = &ev; ev.start = 0; ev.end = (sp_time_t)n; sp_wave_event(e, c); int e_ok = 1;
  if (heap) { e_ok = !sp_event_memory_add(e, all).id; }
  int mode = (int)vf_below(r, 3); /* generate by hand, sp_seq, at an onset in sp_seq */
  sp_time_t onset = mode == 2 ? (sp_time_t)vf_below(r, 300) : 0; int calls = 0;
  if (mode == 0) {
    status_t s = {0}; if (e->prepare) s = e->prepare(e); e->prepare = 0; vf_eval(1); if (s.id) vf_fail(K("status"), "%s: prepare %d", w, s.id);
    size_t at = 0; while (at < n) { size_t len = vf_chance(r, .3) ? n - at : 1 + vf_below(r, n - at); sp_block_t b; memset(&b, 0, sizeof b); b.channel_count = sp_channel_count_limit; b.size = (sp_time_t)len; for (int i = 0; i < sp_channel_count_limit; i++) b.samples[i] = out[i] + at; s = e->generate((sp_time_t)at, (sp_time_t)(at + len), b, e); vf_eval(1); if (s.id) vf_fail(K("status"), "%s: generate %d", w, s.id); at += len; calls++; }
    sp_event_free(ev);
  } else {
    sp_declare_event_list(list); ev.start += onset; ev.end += onset; if (sp_event_list_add(&list, ev).id) vf_error("list"); size_t total = n + onset, at = 0; double* big[sp_channel_count_limit]; for (int i = 0; i < sp_channel_count_limit; i++) { big[i] = out_samples(total); memset(big[i], 0, total * 8); memcpy(big[i] + onset, out[i], n * 8); }
    while (at < total) { size_t len = vf_chance(r, .3) ? total - at : 1 + vf_below(r, total - at); sp_block_t b; memset(&b, 0, sizeof b); b.channel_count = sp_channel_count_limit; b.size = (sp_time_t)len; for (int i = 0; i < sp_channel_count_limit; i++) b.samples[i] = big[i] + at; status_t s = sp_seq((sp_time_t)at, (sp_time_t)(at + len), b, &list); vf_eval(1); if (s.id) vf_fail(K("status"), "%s: seq %d", w, s.id); at += len; calls++; }
    for (int i = 0; i < sp_channel_count_limit; i++) { guards_ok(K("range"), w, big[i]); vf_eval(onset); for (size_t t = 0; t < onset; t++) if (big[i][t]) { vf_fail(K("onset"), "%s: sounds at %zu before its start %u", w, t, onset); break; } memcpy(out[i], big[i] + onset, n * 8); vf_guarded_free(big[i]); }
    sp_event_list_free(&list);
  }
  (void)e_ok; vf_ledger_end_empty(K("leak"), w);
  for (int i = 0; i < sp_channel_count_limit; i++) { guards_ok(K("range"), w, out[i]); if (!eq_samples(K("event"), w, out[i], want[i], n, 1e-12)) break; }
  vf_count(calls > 1 ? "events in several parts" : "events in one part", 1); vf_sig(vf_hash(want[0], n * 8, vf_hash(want[1], n * 8, 0))); if (ix < 2) vf_sample("%s, %d calls", w, calls);
  for (int i = 0; i < sp_channel_count_limit; i++) { vf_guarded_free(amod[i]); vf_guarded_free(fmod[i]); vf_guarded_free(pmod[i]); vf_guarded_free(out[i]); vf_guarded_free(want[i]); } if (own) vf_guarded_free(wvf);
}
vf_suite vf_suites[] = {{"wave", t_wave, 8000, 300000}, {"event", t_event, 12000, 400000}, {0}};
