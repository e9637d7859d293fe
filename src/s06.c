/* S06: futures and pool tasks run exactly once and touch returns the result */
#include "gen.h"
#include <dirent.h>
#include <unistd.h>
#include <sched.h>
#include <pthread.h>
#include <sph-sp/queue.h>
#include <sph-sp/thread-pool.h>
#include <sph-sp/futures.h>
#define K(f) "S06:" f
static int create_left = -1; static unsigned created; /* injected failures of thread creation */
extern int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* d) { if (create_left == 0) return EAGAIN; if (create_left > 0) create_left--; created++; return __real_pthread_create(t, a, f, d); }
static unsigned threads_now(void) { unsigned n = 0; DIR* d = opendir("/proc/self/task"); if (!d) vf_error("no /proc/self/task"); struct dirent* e; while ((e = readdir(d))) if (e->d_name[0] != '.') n++; closedir(d); return n; }
static unsigned threads_settled(unsigned want) { unsigned n = 0; for (int i = 0; i < 3000; i++) { n = threads_now(); if (n == want) return n; usleep(1000); } return n; }
static unsigned base;
static void* nothing(void* x) { return x; }
/* sanitizers start a thread of their own with the first created thread */
void vf_setup(void) { pthread_t t; if (__real_pthread_create(&t, 0, nothing, 0)) vf_error("thread"); pthread_join(t, 0); unsigned last = 0; for (int i = 0, same = 0; i < 500 && same < 20; i++) { usleep(1000); base = threads_now(); same = base == last ? same + 1 : 0; last = base; } }
static uint64_t jitter;
static void pause_some(uint64_t k) { uint64_t h = vf_mix(jitter, k) % 24; if (!jitter) return; if (h < 3) usleep((useconds_t)(h * 120 + 20)); else if (h < 8) sched_yield(); else if (h == 9) for (volatile int i = 0; i < 30000; i++) {} }
static void no_threads(const char* what) { unsigned n = threads_settled(base); vf_eval(1); if (n != base) vf_fail(K("threads"), "%s: %d threads remain", what, (int)n - (int)base); }
/* ---- futures */
typedef struct job job;
struct job { uint64_t id; int runs; uint64_t effect[4]; job* sub[4]; int subs; sph_future_t f; uint64_t want; int bad; };
static uint64_t job_value(job* j) { uint64_t v = j->id * 31 + 7; for (int i = 0; i < j->subs; i++) v = v * 17 + job_value(j->sub[i]); return v; }
static void* job_run(void* p) {
  job* j = p; j->runs++; pause_some(j->id); uint64_t v = j->id * 31 + 7;
  for (int i = 0; i < j->subs; i++) sph_future_new(job_run, j->sub[i], &j->sub[i]->f);
  for (int i = 0; i < j->subs; i++) { uint64_t got = (uint64_t)(uintptr_t)sph_future_touch(&j->sub[i]->f); for (int k = 0; k < 4; k++) if (j->sub[i]->effect[k] != j->sub[i]->id + (uint64_t)k) j->bad = 1; v = v * 17 + got; }
  pause_some(j->id + 1000003); for (int k = 0; k < 4; k++) j->effect[k] = j->id + (uint64_t)k;
  return (void*)(uintptr_t)v;
}
static job* pool_jobs; static int pool_used, pool_max;
static job* job_new(vf_rng* r, int depth) { job* j = pool_jobs + pool_used++; memset(j, 0, sizeof *j); j->id = (uint64_t)pool_used + vf_below(r, 1000) * 100000; if (depth > 0 && vf_chance(r, .5)) { int k = 1 + (int)vf_below(r, 3); for (int i = 0; i < k && pool_used < pool_max; i++) j->sub[j->subs++] = job_new(r, depth - 1); } j->want = job_value(j); return j; }
static void t_futures(vf_rng* r, uint64_t ix) {
  unsigned threads = vf_chance(r, .04) ? 0 : 1 + (unsigned)vf_below(r, 6); int nested = vf_chance(r, .5) ? 1 + (int)vf_below(r, 3) : 0, rounds = 1 + (int)vf_below(r, 3);
  pool_max = 400; pool_jobs = vf_calloc(sizeof(job) * (size_t)pool_max);
  for (int round = 0; round < rounds && !vf_failed_in_case(); round++) {
    jitter = vf_chance(r, .6) ? vf_u64(r) | 1 : 0; char w[80]; int n = 1 + (int)vf_below(r, 60); snprintf(w, sizeof w, "%d futures with %u threads, nesting %d, round %d", n, threads, nested, round);
    if (threads) { created = 0; int s = sph_future_init((sph_thread_pool_size_t)threads); vf_eval(2); if (s) { vf_fail(K("init"), "%s: init returned %d", w, s); break; } if (created != threads) vf_fail(K("init"), "%s: %u threads created", w, created); if (vf_chance(r, .2)) { s = sph_future_init((sph_thread_pool_size_t)(threads + 1)); vf_eval(1); if (s || created != threads) vf_fail(K("init"), "%s: initialising again returned %d, %u threads", w, s, created); } }
    pool_used = 0; job* j[64]; int made = 0; for (; made < n && pool_used < pool_max - 60; made++) j[made] = job_new(r, nested);
    for (int i = 0; i < made; i++) { sph_future_new(job_run, j[i], &j[i]->f); pause_some((uint64_t)i * 7 + 3); }
    int touch = (int)vf_below(r, 4); /* none, all in order, reverse, random with repetition */
    for (int k = 0; k < made && touch; k++) { int i = touch == 1 ? k : touch == 2 ? made - 1 - k : (int)vf_below(r, (uint64_t)made); uint64_t v = (uint64_t)(uintptr_t)sph_future_touch(&j[i]->f); vf_eval(2); int eff = 1; for (int q = 0; q < 4; q++) if (j[i]->effect[q] != j[i]->id + (uint64_t)q) eff = 0; if (v != j[i]->want) vf_fail(K("result"), "%s: touch of future %d gave %llu, expected %llu", w, i, (unsigned long long)v, (unsigned long long)j[i]->want); if (!eff || j[i]->runs != 1) vf_fail(K("effects"), "%s: after touch future %d ran %d times, effects %s", w, i, j[i]->runs, eff ? "visible" : "missing"); }
    if (threads) { sph_future_deinit(); no_threads(w); } else if (!touch) touch = 1;
    for (int i = 0; i < pool_used; i++) { vf_eval(1); if (pool_jobs[i].runs != 1) { vf_fail(K("once"), "%s: future %d ran %d times", w, i, pool_jobs[i].runs); break; } if (pool_jobs[i].bad) vf_fail(K("effects"), "%s: effects of a nested future not visible after touch", w); }
    for (int i = 0; i < made; i++) { vf_eval(1); uint64_t v = (uint64_t)(uintptr_t)sph_future_touch(&j[i]->f); if (v != j[i]->want) { vf_fail(K("result"), "%s: touch after the end gave %llu, expected %llu", w, (unsigned long long)v, (unsigned long long)j[i]->want); break; } }
    vf_count("futures", (uint64_t)pool_used); if (nested) vf_count("rounds with nested futures", 1); vf_sig(vf_mix(vf_mix(vf_mix(jitter, threads), (uint64_t)n), (uint64_t)touch)); if (ix < 2) vf_sample("%s", w);
  }
  vf_free(pool_jobs);
}
/* ---- pools */
typedef struct { sph_thread_pool_task_t t; uint64_t id; int runs; int order; int gate; uint64_t data; } task;
static int order_next, gate_open, gate_in;
static void task_run(sph_thread_pool_task_t* p) {
  task* t = (task*)p; t->runs++; t->order = __atomic_fetch_add(&order_next, 1, __ATOMIC_SEQ_CST);
  if (t->gate) { __atomic_fetch_add(&gate_in, 1, __ATOMIC_SEQ_CST); while (!__atomic_load_n(&gate_open, __ATOMIC_SEQ_CST)) usleep(50); }
  pause_some(t->id); t->data = t->id * 3 + (uint64_t)(uintptr_t)t->t.data;
}
static void task_init(task* t, int i) { memset(t, 0, sizeof *t); t->id = (uint64_t)i; t->t.f = task_run; t->t.data = (void*)(uintptr_t)(i * 11 + 1); }
typedef struct { sph_thread_pool_t* p; task* t; int from, to; } producer;
static void* produce(void* x) { producer* p = x; for (int i = p->from; i < p->to; i++) { pause_some((uint64_t)i * 13 + 5); sph_thread_pool_enqueue(p->p, &p->t[i].t); } return 0; }
static void t_pool(vf_rng* r, uint64_t ix) {
  sph_thread_pool_t* p = vf_calloc(sizeof *p); int rounds = 1 + (int)vf_below(r, 2); task* t = vf_calloc(sizeof(task) * 300);
  for (int round = 0; round < rounds && !vf_failed_in_case(); round++) {
    unsigned size = vf_chance(r, .35) ? 1 : 1 + (unsigned)vf_below(r, 7); int n = (int)vf_below(r, 200), mode = (int)vf_below(r, 4), producers = vf_chance(r, .5) ? 1 : 2 + (int)vf_below(r, 3); char w[100]; static const char* modes[] = {"finish", "finish without waiting first", "discard", "discard without waiting first"};
    snprintf(w, sizeof w, "%d tasks, %u threads, %d producers, %s", n, size, producers, modes[mode]); jitter = vf_chance(r, .6) ? vf_u64(r) | 1 : 0; order_next = 0; gate_open = 0; gate_in = 0;
    vf_ledger_begin(); created = 0; int s = sph_thread_pool_new((sph_thread_pool_size_t)size, p); vf_eval(2); if (s || created != size || p->size != size) { vf_fail(K("init"), "%s: new returned %d, %u threads", w, s, created); vf_ledger_end(); break; }
    for (int i = 0; i < n + (int)size; i++) task_init(t + i, i);
    int discard = mode >= 2;
    if (discard) { for (unsigned i = 0; i < size; i++) { t[n + (int)i].gate = 1; sph_thread_pool_enqueue(p, &t[n + (int)i].t); } while (__atomic_load_n(&gate_in, __ATOMIC_SEQ_CST) < (int)size) usleep(50); producers = 1; }
    if (producers == 1) { producer a = {p, t, 0, n}; produce(&a); }
    else { pthread_t th[4]; producer a[4]; for (int i = 0; i < producers; i++) { a[i] = (producer){p, t, n * i / producers, n * (i + 1) / producers}; if (__real_pthread_create(th + i, 0, produce, a + i)) vf_error("thread"); } for (int i = 0; i < producers; i++) pthread_join(th[i], 0); }
    int e = 0, finished = 0;
    if (!discard && vf_chance(r, .15)) { /* a failed attempt is reported and can be repeated */ vf_fault_at((int64_t)vf_below(r, size)); int f = sph_thread_pool_finish(p, vf_chance(r, .5), 0), hit = vf_fault_hit(); vf_fault_at(-1); vf_eval(1); if (hit) { if (!f) vf_fail(K("finish"), "%s: a failed allocation while finishing was not reported", w); vf_count("failed attempts to finish", 1); } else if (f) vf_fail(K("finish"), "%s: finish returned %d", w, f); else finished = 1; }
    if (finished) { if (p->size) e = sph_thread_pool_finish(p, 0, 0); } else switch (mode) { case 0: e = sph_thread_pool_finish(p, 0, 0); break; case 1: e = sph_thread_pool_finish(p, 1, 0); if (!e) e = sph_thread_pool_finish(p, 0, 0); break;
      case 2: e = sph_thread_pool_finish(p, 1, 1); __atomic_store_n(&gate_open, 1, __ATOMIC_SEQ_CST); if (!e) e = sph_thread_pool_finish(p, 0, 0); break;
      case 3: e = sph_thread_pool_finish(p, 1, 0); if (!e) e = sph_thread_pool_finish(p, 1, 1); __atomic_store_n(&gate_open, 1, __ATOMIC_SEQ_CST); if (!e) e = sph_thread_pool_finish(p, 0, 0); break; }
    no_threads(w); vf_eval(2); if (e || p->size) vf_fail(K("finish"), "%s: finish returned %d, size %u remains", w, e, p->size);
    for (int i = 0; i < n + (discard ? (int)size : 0); i++) { int want = !discard || t[i].gate; vf_eval(2); if (t[i].runs != want) { vf_fail(K("once"), "%s: task %d ran %d times, expected %d", w, i, t[i].runs, want); break; } if (want && t[i].data != t[i].id * 3 + (uint64_t)i * 11 + 1) { vf_fail(K("data"), "%s: task %d had the wrong data", w, i); break; } }
    if (!discard && size == 1) for (int k = 0; k < producers; k++) for (int i = n * k / producers + 1; i < n * (k + 1) / producers; i++) { vf_eval(1); if (t[i].order < t[i - 1].order) { vf_fail(K("fifo"), "%s: task %d ran before task %d", w, i, i - 1); k = producers; break; } }
    vf_ledger_end_empty(K("leak"), w); vf_count(modes[mode], 1); vf_count("tasks", (uint64_t)n); vf_sig(vf_mix(vf_mix(vf_mix(jitter, size), (uint64_t)n), (uint64_t)(mode * 8 + producers))); if (ix < 2) vf_sample("%s", w);
  }
  vf_free(p); vf_free(t);
}
/* the queue is discarded while workers are taking tasks from it: every task runs at most once, those that ran are the first ones enqueued */
static void t_discard(vf_rng* r, uint64_t ix) {
  sph_thread_pool_t* p = vf_calloc(sizeof *p); task* t = vf_calloc(sizeof(task) * 1500); int partly = 0;
  for (int round = 0; round < 6 && !vf_failed_in_case(); round++) {
    unsigned size = 1 + (unsigned)vf_below(r, 7); int n = 50 + (int)vf_below(r, 1450), wait = (int)vf_below(r, 3); char w[100]; snprintf(w, sizeof w, "%d tasks, %u threads, discarded while running%s", n, size, wait == 1 ? " without waiting first" : wait == 2 ? " twice" : "");
    jitter = vf_chance(r, .3) ? vf_u64(r) | 1 : 0; order_next = 0; for (int i = 0; i < n; i++) task_init(t + i, i);
    uint64_t spin = vf_below(r, 3) ? vf_below(r, 20000) : 0;
    vf_ledger_begin(); int s = sph_thread_pool_new((sph_thread_pool_size_t)size, p), e = 0; vf_eval(1); if (s) { vf_fail(K("init"), "%s: new returned %d", w, s); vf_ledger_end(); break; }
    for (int i = 0; i < n; i++) sph_thread_pool_enqueue(p, &t[i].t);
    for (volatile uint64_t i = 0; i < spin; i++) {}
    if (wait) e = sph_thread_pool_finish(p, 1, 1); if (!e && wait == 2) e = sph_thread_pool_finish(p, 1, 1); if (!e) e = sph_thread_pool_finish(p, 0, !wait);
    no_threads(w); vf_eval(2); if (e || p->size) vf_fail(K("finish"), "%s: finish returned %d, size %u remains", w, e, p->size);
    int ran = 0; while (ran < n && t[ran].runs) ran++;
    for (int i = 0; i < n; i++) { vf_eval(1); if (t[i].runs != (i < ran)) { vf_fail(K("discard"), "%s: the first %d tasks ran, task %d ran %d times", w, ran, i, t[i].runs); break; } if (i < ran && t[i].data != t[i].id * 3 + (uint64_t)i * 11 + 1) { vf_fail(K("data"), "%s: task %d had the wrong data", w, i); break; } }
    vf_ledger_end_empty(K("leak"), w); if (ran && ran < n) partly++; vf_sig(vf_mix(vf_mix(size, (uint64_t)n), (uint64_t)ran)); if (ix < 2 && !round) vf_sample("%s: %d ran", w, ran);
  }
  vf_count("queues discarded while partly executed", (uint64_t)partly); vf_free(p); vf_free(t);
}
/* ---- thread creation fails */
static void t_create(vf_rng* r, uint64_t ix) {
  unsigned size = 1 + (unsigned)vf_below(r, 8); unsigned fail = (unsigned)vf_below(r, size); char w[80]; snprintf(w, sizeof w, "creation of thread %u of %u fails", fail, size); int fut = vf_chance(r, .5); sph_thread_pool_t* p = vf_calloc(sizeof *p);
  vf_ledger_begin(); create_left = (int)fail; int s = fut ? sph_future_init((sph_thread_pool_size_t)size) : sph_thread_pool_new((sph_thread_pool_size_t)size, p); create_left = -1; vf_eval(1);
  if (!s) vf_fail(K("create-status"), "%s: reported as success", w);
  no_threads(w); vf_eval(1);
  if (!fut) { memset(p, 0x5a, sizeof *p); } /* the memory belongs to the caller again */
  jitter = 0; task t[20]; order_next = 0; sph_thread_pool_t* q = vf_calloc(sizeof *q); s = fut ? sph_future_init((sph_thread_pool_size_t)size) : sph_thread_pool_new((sph_thread_pool_size_t)size, q); vf_eval(1); if (s) vf_fail(K("init"), "%s: the next initialisation returned %d", w, s);
  else if (fut) { job j; memset(&j, 0, sizeof j); j.id = 5; sph_future_new(job_run, &j, &j.f); uint64_t v = (uint64_t)(uintptr_t)sph_future_touch(&j.f); vf_eval(1); if (v != job_value(&j)) vf_fail(K("result"), "%s: result after that is wrong", w); sph_future_deinit(); }
  else { for (int i = 0; i < 20; i++) { task_init(t + i, i); sph_thread_pool_enqueue(q, &t[i].t); } sph_thread_pool_finish(q, 0, 0); for (int i = 0; i < 20; i++) { vf_eval(1); if (t[i].runs != 1) { vf_fail(K("once"), "%s: after that task %d ran %d times", w, i, t[i].runs); break; } } }
  no_threads(w); vf_ledger_end_empty(K("leak"), w); vf_count("failing thread creations", 1); vf_sig(vf_mix(vf_mix(3, size * 16 + fail), (uint64_t)fut)); if (ix < 2) vf_sample("%s", w); vf_free(p); vf_free(q);
}
/* the size limit */
static void t_limit(vf_rng* r, uint64_t ix) {
  unsigned size = sph_thread_pool_thread_limit + 1 + (unsigned)vf_below(r, 255 - sph_thread_pool_thread_limit); sph_thread_pool_t* p = vf_guarded(sizeof *p); created = 0; int s = sph_thread_pool_new((sph_thread_pool_size_t)size, p); vf_eval(1); if (!s || created) vf_fail(K("limit"), "%u threads are above the limit: status %d, %u created", size, s, created); no_threads("limit"); vf_guarded_free(p);
  p = vf_guarded(sizeof *p); if (ix % 4 == 0) { created = 0; s = sph_thread_pool_new(sph_thread_pool_thread_limit, p); vf_eval(1); if (s || created != sph_thread_pool_thread_limit) vf_fail(K("limit"), "the largest pool: status %d, %u created", s, created); if (!s) sph_thread_pool_finish(p, 0, 0); no_threads("limit"); vf_eval(1); if (!vf_guard_check(p)) vf_fail(K("limit"), "written outside of the pool object"); } vf_guarded_free(p);
}
vf_suite vf_suites[] = {{"futures", t_futures, 900, 40000}, {"pool", t_pool, 900, 40000}, {"discard", t_discard, 150, 6000}, {"create", t_create, 300, 5000}, {"limit", t_limit, 16, 64}, {0}};
