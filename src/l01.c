/* L01: initialisation can be repeated and always gives the same state */
#include "gen.h"
#include <dirent.h>
#include <errno.h>
#include <pthread.h>
#include <unistd.h>
#include <time.h>
#include <sph-sp/queue.h>
#include <sph-sp/thread-pool.h>
#include <sph-sp/futures.h>
void vf_setup(void) {}
#define K(f) "L01:" f
static unsigned threads_now(void) { unsigned n = 0; DIR* d = opendir("/proc/self/task"); if (!d) vf_error("no /proc/self/task"); struct dirent* e; while ((e = readdir(d))) if (e->d_name[0] != '.') n++; closedir(d); return n; }
/* an ended thread can stay visible for a moment */
static unsigned threads_settled(unsigned want) { unsigned n = 0; for (int i = 0; i < 2000; i++) { n = threads_now(); if (n == want) return n; usleep(1000); } return n; }
/* starting threads can be made to fail */
extern int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int create_left = -1;
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* d) { if (!create_left) return EAGAIN; if (create_left > 0) create_left--; return __real_pthread_create(t, a, f, d); }
static unsigned base_threads;
static int started, need; static uint64_t effects[512];
static void* work(void* p) {
  uint64_t k = (uint64_t)(uintptr_t)p; __atomic_fetch_add(&started, 1, __ATOMIC_SEQ_CST);
  /* as many run at the same time as there are workers */
  for (int i = 0; i < 20000 && __atomic_load_n(&started, __ATOMIC_SEQ_CST) < need; i++) usleep(1000);
  effects[k] = k * 3 + 1; return (void*)(uintptr_t)(k * 7 + 5);
}
static void check_state(unsigned cpu, unsigned ch, sp_time_t rate, const char* when) {
  vf_eval(7);
  if (sp_rate != rate || sp_channel_count != ch || sp_cpu_count != cpu) vf_fail(K("defaults"), "%s: rate %u channels %u cpus %u, expected %u %u %u", when, sp_rate, sp_channel_count, sp_cpu_count, rate, ch, cpu);
  static sp_time_t factor; if (!factor) factor = sp_sine_lfo_factor;
  if (sp_sine_lfo_factor != factor) vf_fail(K("defaults"), "%s: the factor for low frequencies is %u, it was %u after the first initialisation", when, sp_sine_lfo_factor, factor);
  if (!sp_sine_table || !sp_sine_table_lfo || !sp_sine_lfo_factor) { vf_fail(K("tables"), "%s: no tables", when); return; }
#ifndef VF_NO_LEDGER
  if (!vf_ledger_owns_range(sp_sine_table, rate * sizeof(sp_sample_t)) || !vf_ledger_owns_range(sp_sine_table_lfo, (size_t)rate * sp_sine_lfo_factor * sizeof(sp_sample_t))) { vf_fail(K("tables"), "%s: tables are smaller than the rate %u requires", when, rate); return; }
#endif
  double *t[2] = {sp_sine_table, sp_sine_table_lfo}; size_t n[2] = {rate, (size_t)rate * sp_sine_lfo_factor};
  for (int k = 0; k < 2; k++) { size_t step = n[k] > 200000 ? 37 : 1; for (size_t i = 0; i < n[k]; i += step) { vf_eval(1); double w = sin(2 * M_PI * (double)i / (double)n[k]); if (!(fabs(t[k][i] - w) <= 1e-9)) { vf_fail(K("tables"), "%s: %s table of rate %u, index %zu is %.12g, expected %.12g", when, k ? "lfo" : "sine", rate, i, t[k][i], w); break; } } }
  sp_random_state_t w = sp_random_state_new(sp_random_seed); if (memcmp(&w, &sp_random_state, sizeof w)) vf_fail(K("random"), "%s: the random sequence does not start over", when);
}
static void cycle(vf_rng* r, const char* when) {
  unsigned cpu = vf_chance(r, .3) ? 0 : 1 + (unsigned)vf_below(r, 6), ch = 1 + (unsigned)vf_below(r, sp_channel_count_limit); sp_time_t rate;
  switch (vf_below(r, 8)) { case 0: rate = 1 + (sp_time_t)vf_below(r, 20); break; case 1: rate = 101 + 2 * (sp_time_t)vf_below(r, 500); break; case 2: rate = vf_chance(r, .9) ? 8000 : vf_chance(r, .5) ? 44100 : 48000; break; default: rate = 1 + (sp_time_t)vf_below(r, 3000); }
  if (vf_chance(r, .03)) cpu = 40 + (unsigned)vf_below(r, 500);
  /* a failed initialisation leaves nothing behind, also after earlier successful ones, and the next one works */
  if (vf_chance(r, .25)) {
    int64_t live = vf_ledger_live(); int threads = cpu && vf_chance(r, .4); vf_eval(3); if (threads) create_left = (int)vf_below(r, cpu > 128 ? 128 : cpu); else vf_fault_at((int64_t)vf_below(r, 4 + 2 * cpu));
    status_t f = sp_initialize(cpu, ch, rate); int hit = threads || vf_fault_hit(); create_left = -1; vf_fault_at(-1);
    if (!f.id != !hit) vf_fail(K("fault"), "%s: status %d for %u cpus, rate %u%s", when, f.id, cpu, rate, !hit ? "" : threads ? " when threads can not be started" : " after a failed allocation");
    if (!f.id) sp_deinitialize(); else vf_count(threads ? "initialisations without threads available" : "initialisations without memory", 1);
    unsigned n = threads_settled(base_threads); if (n != base_threads) vf_fail(K("threads"), "%s: %u threads remain after a failed initialisation", when, n - base_threads);
    if (vf_ledger_live() != live || vf_ledger_bad_frees()) vf_fail(K("fault"), "%s: %lld allocations remain after a failed initialisation, %lld were freed again", when, (long long)(vf_ledger_live() - live), (long long)vf_ledger_bad_frees());
    if (vf_failed_in_case()) return;
  }
  unsigned workers = cpu > 128 ? 128 : cpu; /* the documented limit of the thread pool */
  status_t s = sp_initialize(cpu, ch, rate); vf_eval(1);
  if (s.id) { vf_fail(K("status"), "%s: status %d for %u cpus, %u channels, rate %u", when, s.id, cpu, ch, rate); return; }
  check_state(cpu, ch, rate, when);
  unsigned n = threads_now() - base_threads; vf_eval(1); if (n != workers) vf_fail(K("threads"), "%s: %u threads for %u processors", when, n, cpu);
  if (cpu && n) {
    sph_future_t f[512]; unsigned tasks = workers + (unsigned)vf_below(r, 40); need = (int)workers; started = 0; memset(effects, 0, sizeof effects);
    for (unsigned i = 0; i < tasks; i++) sph_future_new(work, (void*)(uintptr_t)i, f + i);
    for (int i = 0; i < 20000 && __atomic_load_n(&started, __ATOMIC_SEQ_CST) < need; i++) usleep(1000);
    vf_eval(1); if (__atomic_load_n(&started, __ATOMIC_SEQ_CST) < need) vf_fail(K("pool"), "%s: only %d of %d workers run", when, started, need);
    for (unsigned i = 0; i < tasks; i++) { uintptr_t v = (uintptr_t)sph_future_touch(f + i); vf_eval(2); if (v != i * 7 + 5 || effects[i] != i * 3 + 1) { vf_fail(K("pool"), "%s: task %u of %u gave %zu", when, i, tasks, (size_t)v); break; } }
    vf_count("pool tasks", tasks);
  }
  /* use changes the state that the next initialisation has to restore */
  { sp_sample_t x[7]; sp_time_t ph = 0; for (int i = 0; i < 7; i++) x[i] = 0; sp_samples_random(7, x); if (vf_chance(r, .5)) sp_sine(7, 1, 0, 1, 0, &ph, x); }
  sp_deinitialize();
  /* what a program leaves in the public settings must not matter for the next initialisation */
  if (vf_chance(r, .4)) { sp_sine_lfo_factor = 1 + (sp_time_t)vf_below(r, 200); sp_rate = (sp_time_t)vf_below(r, 3000); sp_channel_count = 1 + (sp_channel_count_t)vf_below(r, 2); sp_cpu_count = (uint32_t)vf_below(r, 4); vf_count("settings changed between cycles", 1); }
  if (vf_chance(r, .4)) { sp_random_state = sp_random_state_new(vf_u64(r)); vf_count("random state changed between cycles", 1); }
  n = threads_settled(base_threads); vf_eval(1); if (n != base_threads) vf_fail(K("threads"), "%s: %u threads remain after deinitialize", when, n - base_threads);
  vf_count(cpu ? "cycles with threads" : "cycles without threads", 1); vf_sig(vf_mix(vf_mix(cpu, ch), rate));
  { static int k; if (k++ < 3) vf_sample("%s: %u cpus, %u channels, rate %u", when, cpu, ch, rate); }
}
static void t_cycles(vf_rng* r, uint64_t ix) {
  base_threads = threads_now(); size_t n = 1 + vf_below(r, 8);
  vf_ledger_begin();
  for (size_t i = 0; i < n && !vf_failed_in_case(); i++) { char b[32]; snprintf(b, sizeof b, "cycle %zu", i); cycle(r, b); int64_t live = vf_ledger_live(); vf_eval(1); if (live) { char d[200]; vf_ledger_describe(d, sizeof d); vf_fail(K("leak"), "%lld allocations remain after cycle %zu (sizes %s)", (long long)live, i, d); break; } }
  vf_ledger_end(); (void)ix;
}
vf_suite vf_suites[] = {{"cycles", t_cycles, 160, 4000}, {0}};
