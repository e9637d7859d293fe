#include "vf.h"
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>

extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void* __real_realloc(void*, size_t);
extern void __real_free(void*);

int vf_thorough = 0;
const char* vf_scratch = "/tmp";
const char* vf_build = "?";
uint64_t vf_seed = 1;

/* ---------- prng */
static uint64_t vf_splitmix(uint64_t* s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
void vf_rng_init(vf_rng* r, uint64_t seed) {
  for (int i = 0; i < 4; i++) r->s[i] = vf_splitmix(&seed);
}
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t vf_u64(vf_rng* r) {
  uint64_t* s = r->s;
  uint64_t out = rotl(s[0] + s[3], 23) + s[0], t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return out;
}
uint64_t vf_below(vf_rng* r, uint64_t n) { return (uint64_t)(((__uint128_t)vf_u64(r) * n) >> 64); }
int64_t vf_range(vf_rng* r, int64_t lo, int64_t hi) { return lo + (int64_t)vf_below(r, (uint64_t)(hi - lo) + 1); }
double vf_unit(vf_rng* r) { return (vf_u64(r) >> 11) * 0x1.0p-53; }
double vf_real(vf_rng* r, double lo, double hi) { return lo + (hi - lo) * vf_unit(r); }
int vf_chance(vf_rng* r, double p) { return vf_unit(r) < p; }
uint64_t vf_size(vf_rng* r, uint64_t lo, uint64_t max) {
  if (max <= lo) return lo;
  uint64_t k = vf_below(r, 10);
  if (k < 3) return lo + vf_below(r, (max - lo < 8 ? max - lo : 8) + 1);
  if (k < 6) return lo + vf_below(r, (max - lo < 40 ? max - lo : 40) + 1);
  if (k == 9) { uint64_t p = 1ULL << vf_below(r, 16); p += vf_below(r, 3); p -= 1; if (p < lo) p = lo; if (p > max) p = max; return p; }
  return lo + vf_below(r, max - lo + 1);
}

uint64_t vf_size_big(vf_rng* r, uint64_t ix, uint64_t period, uint64_t lo, uint64_t max) {
  if (ix % period != period - 1) return vf_size(r, lo, max);
  vf_count("cases with sizes beyond 16 bits", 1); return 65530 + (vf_chance(r, .3) ? vf_below(r, 12) : vf_below(r, 70000));
}

/* ---------- state shared with the runner */
typedef struct {
  char suite[48];
  uint64_t index;
  uint64_t done;
  uint64_t in_case;
} vf_progress;
static vf_progress* progress;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static FILE* result_file;
static uint64_t evals;
static int fails_in_case;
typedef struct { char name[64]; uint64_t n; } counter;
static counter counters[256];
static int counters_used;
static uint64_t* sigs; /* open addressing set */
static size_t sig_cap, sig_used;
static int samples_left = 6;
static int max_reports_per_key = 3;
typedef struct { char key[96]; int n; } keycount;
static keycount keys[512];
static int keys_used;

uint64_t vf_mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }
uint64_t vf_hash(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = p; h ^= 0xcbf29ce484222325ULL;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
  return vf_mix(h, n);
}
static void write_line(const char* tag, const char* key, const char* text) {
  /* one record per line, tab separated; text is free of tabs and newlines */
  char clean[1400]; size_t j = 0;
  for (size_t i = 0; text[i] && j < sizeof(clean) - 1; i++) clean[j++] = (text[i] == '\n' || text[i] == '\t') ? ' ' : text[i];
  clean[j] = 0;
  fprintf(result_file, "%s\t%s\t%s\t%llu\t%s\n", tag, key, progress->suite, (unsigned long long)progress->index, clean);
  fflush(result_file);
}
static int key_allowed(const char* key) {
  for (int i = 0; i < keys_used; i++) if (!strcmp(keys[i].key, key)) return ++keys[i].n <= max_reports_per_key;
  if (keys_used < (int)VF_LEN(keys)) { snprintf(keys[keys_used].key, sizeof(keys[0].key), "%s", key); keys[keys_used++].n = 1; return 1; }
  return 0;
}
void vf_fail(const char* key, const char* fmt, ...) {
  char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  pthread_mutex_lock(&mx);
  fails_in_case++;
  if (key_allowed(key)) write_line("FAIL", key, b);
  pthread_mutex_unlock(&mx);
}
void vf_note_known(const char* key, const char* fmt, ...) {
  char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  pthread_mutex_lock(&mx);
  if (key_allowed(key)) write_line("FAIL", key, b);
  pthread_mutex_unlock(&mx);
}
void vf_error(const char* fmt, ...) {
  char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  fprintf(stderr, "HARNESS ERROR: %s\n", b);
  if (result_file) write_line("ERROR", "harness", b);
  _exit(70);
}
int vf_failed_in_case(void) { return fails_in_case; }
void vf_eval(uint64_t n) { __atomic_fetch_add(&evals, n, __ATOMIC_RELAXED); }
void vf_count(const char* name, uint64_t n) {
  pthread_mutex_lock(&mx);
  int i; for (i = 0; i < counters_used; i++) if (!strcmp(counters[i].name, name)) break;
  if (i == counters_used) { if (i == (int)VF_LEN(counters)) { pthread_mutex_unlock(&mx); return; } snprintf(counters[i].name, 64, "%s", name); counters_used++; }
  counters[i].n += n;
  pthread_mutex_unlock(&mx);
}
static void sig_insert(uint64_t h) {
  size_t i = h & (sig_cap - 1);
  while (sigs[i]) { if (sigs[i] == h) return; i = (i + 1) & (sig_cap - 1); }
  sigs[i] = h; sig_used++;
}
void vf_sig(uint64_t h) {
  if (!h) h = 1;
  pthread_mutex_lock(&mx);
  if (!sigs) { sig_cap = 1 << 14; sigs = __real_calloc(sig_cap, 8); }
  if (sig_used * 2 > sig_cap) {
    uint64_t* old = sigs; size_t oc = sig_cap; sig_cap *= 2; sigs = __real_calloc(sig_cap, 8); sig_used = 0;
    for (size_t i = 0; i < oc; i++) if (old[i]) sig_insert(old[i]);
    __real_free(old);
  }
  sig_insert(h);
  pthread_mutex_unlock(&mx);
}
void vf_sample(const char* fmt, ...) {
  char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  pthread_mutex_lock(&mx);
  if (samples_left > 0) { samples_left--; write_line("SAMPLE", "-", b); }
  pthread_mutex_unlock(&mx);
}

/* ---------- harness memory */
void* vf_malloc(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) vf_error("out of memory in harness"); return p; }
void* vf_calloc(size_t n) { void* p = __real_calloc(n ? n : 1, 1); if (!p) vf_error("out of memory in harness"); return p; }
void vf_free(void* p) { __real_free(p); }
#define GUARD 64
/* with memory sanitizer, contents nobody wrote count as uninitialised, whatever pattern they hold */
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define UNDEFINED(p, n) __msan_poison((p), (n))
#endif
#endif
#ifndef UNDEFINED
#define UNDEFINED(p, n)
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n)
#define ASAN_UNPOISON_MEMORY_REGION(a, n)
#endif
typedef struct { size_t bytes; } ghead; /* lives in a separate header before the front guard */
void* vf_guarded(size_t bytes) {
  uint8_t* b = vf_malloc(16 + GUARD + bytes + GUARD);
  ((ghead*)b)->bytes = bytes;
  memset(b + 16, 0xd7, GUARD); memset(b + 16 + GUARD, 0xff, bytes); memset(b + 16 + GUARD + bytes, 0xd7, GUARD); UNDEFINED(b + 16 + GUARD, bytes);
  /* under asan any access of a guard ends the run, reads included */
  ASAN_POISON_MEMORY_REGION(b + 16, GUARD); ASAN_POISON_MEMORY_REGION(b + 16 + GUARD + bytes, GUARD);
  return b + 16 + GUARD;
}
int vf_guard_check(void* p) {
  uint8_t* b = (uint8_t*)p - GUARD - 16; size_t bytes = ((ghead*)b)->bytes;
#ifdef __SANITIZE_ADDRESS__
  return 1;
#endif
  for (size_t i = 0; i < GUARD; i++) if (b[16 + i] != 0xd7 || b[16 + GUARD + bytes + i] != 0xd7) return 0;
  return 1;
}
void vf_guarded_free(void* p) {
  if (!p) return;
  uint8_t* b = (uint8_t*)p - GUARD - 16;
  ASAN_UNPOISON_MEMORY_REGION(b, 16 + GUARD + ((ghead*)b)->bytes + GUARD);
  __real_free(b);
}

/* ---------- allocation ledger */
typedef struct { void* p; size_t n; uint64_t gen; } lentry; /* entries of other generations count as empty */
static size_t lcap = 1u << 18; void vf_ledger_large(void) { lcap = 1u << 20; } /* before the first use */
static uint64_t lgen;
static lentry* ltab; /* open addressing, tombstone p == 1 */
static pthread_mutex_t lmx = PTHREAD_MUTEX_INITIALIZER;
static int tracking;
static int64_t llive, lbytes; static uint64_t lallocs, lbad; static size_t lfill;
static int64_t fault_n = -1; static int fault_sticky, fault_hit;
#define TOMB ((void*)1)
#define RECENT 4096
static void* recent_freed[RECENT]; static unsigned recent_i; /* freed since begin and not handed out again */
static size_t lslot(void* p) { return (size_t)(vf_mix(0, (uint64_t)(uintptr_t)p) & (lcap - 1)); }
static void ladd(void* p, size_t n) {
  size_t i = lslot(p);
  while (ltab[i].gen == lgen && ltab[i].p != TOMB) i = (i + 1) & (lcap - 1);
  if (ltab[i].gen != lgen) { if (++lfill > lcap / 2 + lcap / 4) { fprintf(stderr, "HARNESS ERROR: ledger full\n"); _exit(70); } }
  ltab[i].p = p; ltab[i].n = n; ltab[i].gen = lgen; llive++; lbytes += (int64_t)n; lallocs++;
  for (unsigned k = 0; k < RECENT && k < recent_i; k++) if (recent_freed[k] == p) recent_freed[k] = 0;
}
static lentry* lfind(void* p) {
  size_t i = lslot(p);
  while (ltab[i].gen == lgen) { if (ltab[i].p == p) return ltab + i; i = (i + 1) & (lcap - 1); }
  return 0;
}
static int ldel(void* p, size_t* n) {
  lentry* e = lfind(p);
  if (!e) return 0;
  *n = e->n; llive--; lbytes -= (int64_t)e->n; e->p = TOMB;
  recent_freed[recent_i % RECENT] = p; recent_i++;
  return 1;
}
void vf_ledger_begin(void) {
#ifdef VF_NO_LEDGER
  return; /* its lock would order the threads and hide races */
#endif
  pthread_mutex_lock(&lmx);
  if (!ltab) { ltab = mmap(0, lcap * sizeof(lentry), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (ltab == MAP_FAILED) _exit(70); }
  lgen++;
  llive = lbytes = 0; lallocs = lbad = 0; lfill = 0; recent_i = 0; fault_n = -1; fault_hit = 0; fault_sticky = 0;
  memset(recent_freed, 0, sizeof recent_freed);
  tracking = 1;
  pthread_mutex_unlock(&lmx);
}
void vf_ledger_end(void) { pthread_mutex_lock(&lmx); tracking = 0; fault_n = -1; pthread_mutex_unlock(&lmx); }
int64_t vf_ledger_live(void) { pthread_mutex_lock(&lmx); int64_t a = llive; pthread_mutex_unlock(&lmx); return a; }
int64_t vf_ledger_live_bytes(void) { return lbytes; }
uint64_t vf_ledger_allocs(void) { return lallocs; }
uint64_t vf_ledger_bad_frees(void) { return lbad; }
int vf_ledger_owns(void* p) { pthread_mutex_lock(&lmx); int a = ltab && lfind(p) != 0; pthread_mutex_unlock(&lmx); return a; }
int vf_ledger_owns_range(void* p, size_t n) {
  pthread_mutex_lock(&lmx); int ok = 0; lentry* e = lfind(p); if (e && n <= e->n) ok = 1;
  for (size_t i = 0; !ok && i < lcap; i++) if (ltab[i].gen == lgen && ltab[i].p != TOMB && (uint8_t*)ltab[i].p <= (uint8_t*)p && (uint8_t*)p + n <= (uint8_t*)ltab[i].p + ltab[i].n) ok = 1;
  pthread_mutex_unlock(&lmx); return ok;
}
void vf_ledger_describe(char* out, size_t n) {
  size_t u = 0; out[0] = 0; int k = 0;
  pthread_mutex_lock(&lmx);
  for (size_t i = 0; i < lcap && k < 8; i++) if (ltab[i].gen == lgen && ltab[i].p != TOMB) { u += (size_t)snprintf(out + u, n - u, "%zu ", ltab[i].n); k++; if (u + 32 > n) break; }
  pthread_mutex_unlock(&lmx);
}
void vf_fault_at(int64_t n) { pthread_mutex_lock(&lmx); fault_n = n; fault_sticky = 0; fault_hit = 0; pthread_mutex_unlock(&lmx); }
void vf_fault_all_from(int64_t n) { pthread_mutex_lock(&lmx); fault_n = n; fault_sticky = 1; fault_hit = 0; pthread_mutex_unlock(&lmx); }
int vf_fault_hit(void) { return fault_hit; }
int vf_ledger_end_empty(const char* key, const char* what) {
#ifdef VF_NO_LEDGER
  return 1;
#endif
  int64_t live = vf_ledger_live(); uint64_t bad = lbad; int ok = 1;
  vf_eval(1);
  if (live) { char d[300]; vf_ledger_describe(d, sizeof d); vf_fail(key, "%s: %lld allocations not freed (sizes %s)", what, (long long)live, d); ok = 0; }
  if (bad) { vf_fail(key, "%s: %llu double frees", what, (unsigned long long)bad); ok = 0; }
  vf_ledger_end();
  return ok;
}
static int inject(void) { /* lmx held */
  if (fault_n < 0) return 0;
  if (fault_n > 0) { fault_n--; return 0; }
  fault_hit = 1; if (!fault_sticky) fault_n = -1;
  return 1;
}
static int is_tracking(void) { return __atomic_load_n(&tracking, __ATOMIC_RELAXED); }
void* __wrap_malloc(size_t n) {
  if (!is_tracking()) return __real_malloc(n);
  pthread_mutex_lock(&lmx);
  if (inject()) { pthread_mutex_unlock(&lmx); errno = ENOMEM; return 0; }
  void* p = __real_malloc(n);
  if (p) { memset(p, 0xff, n); UNDEFINED(p, n); ladd(p, n); } /* uninitialised doubles read as nan, pointers as invalid */
  pthread_mutex_unlock(&lmx);
  return p;
}
void* __wrap_calloc(size_t a, size_t b) {
  if (!is_tracking()) return __real_calloc(a, b);
  pthread_mutex_lock(&lmx);
  if (inject()) { pthread_mutex_unlock(&lmx); errno = ENOMEM; return 0; }
  void* p = __real_calloc(a, b);
  if (p) ladd(p, a * b);
  pthread_mutex_unlock(&lmx);
  return p;
}
void __wrap_free(void* p) {
  if (!p || !is_tracking()) { __real_free(p); return; }
  size_t n = 0;
  pthread_mutex_lock(&lmx);
  if (ldel(p, &n)) { memset(p, 0xef, n); __real_free(p); }
  else {
    int bad = 0;
    for (unsigned k = 0; k < RECENT && k < recent_i; k++) if (recent_freed[k] == p) bad = 1;
    if (bad) lbad++; /* double free: counted instead of executed */
    else __real_free(p);
  }
  pthread_mutex_unlock(&lmx);
}
void* __wrap_realloc(void* p, size_t n) {
  if (!is_tracking()) return __real_realloc(p, n);
  pthread_mutex_lock(&lmx);
  if (inject()) { pthread_mutex_unlock(&lmx); errno = ENOMEM; return 0; }
  lentry* e = p ? lfind(p) : 0;
  if (p && !e) {
    void* q = __real_realloc(p, n); pthread_mutex_unlock(&lmx); return q;
  }
  if (p && !n) { size_t on; ldel(p, &on); __real_free(p); pthread_mutex_unlock(&lmx); return 0; } /* glibc semantics */
  void* q = __real_malloc(n); /* always moves */
  if (q) {
    memset(q, 0xff, n); UNDEFINED(q, n);
    if (e) { size_t on = e->n; memcpy(q, p, on < n ? on : n); ldel(p, &on); memset(p, 0xef, on); __real_free(p); }
    ladd(q, n);
  }
  pthread_mutex_unlock(&lmx);
  return q;
}

void* __wrap_reallocarray(void* p, size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
  return __wrap_realloc(p, n);
}
char* __wrap_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char* __wrap___strndup(const char* s, size_t m) { return __wrap_strndup(s, m); }
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char* __wrap___strdup(const char* s) { return __wrap_strdup(s); }
extern void* __real_aligned_alloc(size_t, size_t);
void* __wrap_aligned_alloc(size_t al, size_t n) {
  if (!is_tracking()) return __real_aligned_alloc(al, n);
  pthread_mutex_lock(&lmx);
  if (inject()) { pthread_mutex_unlock(&lmx); errno = ENOMEM; return 0; }
  void* p = __real_aligned_alloc(al, n);
  if (p) { memset(p, 0xff, n); UNDEFINED(p, n); ladd(p, n); }
  pthread_mutex_unlock(&lmx);
  return p;
}
void* __wrap_memalign(size_t al, size_t n) { return __wrap_aligned_alloc(al, (n + al - 1) / al * al); }
int __wrap_posix_memalign(void** o, size_t al, size_t n) { void* p = __wrap_aligned_alloc(al, (n + al - 1) / al * al); if (!p) return ENOMEM; *o = p; return 0; }
int __wrap_vasprintf(char** o, const char* f, va_list a) {
  va_list b; va_copy(b, a); int n = vsnprintf(0, 0, f, b); va_end(b); if (n < 0) return -1;
  char* p = __wrap_malloc((size_t)n + 1); if (!p) return -1;
  vsnprintf(p, (size_t)n + 1, f, a); *o = p; return n;
}
int __wrap_asprintf(char** o, const char* f, ...) { va_list a; va_start(a, f); int n = __wrap_vasprintf(o, f, a); va_end(a); return n; }

int vf_near(double a, double b, double tol) {
  if (a == b) return 1;
  if (isnan(a) || isnan(b)) return 0;
  double d = fabs(a - b), m = fmax(fabs(a), fabs(b));
  return d <= tol || d <= tol * m;
}

/* ---------- driver */
int main(int argc, char** argv) {
  const char* out = 0; const char* prog = 0; const char* only = 0; long long only_case = -1; unsigned shard = 0, shards = 1, scale = 1;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--seed")) vf_seed = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--thorough")) vf_thorough = 1;
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--progress")) prog = argv[++i];
    else if (!strcmp(argv[i], "--suite")) only = argv[++i];
    else if (!strcmp(argv[i], "--case")) only_case = strtoll(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--shard")) shard = (unsigned)atoi(argv[++i]);
    else if (!strcmp(argv[i], "--shards")) shards = (unsigned)atoi(argv[++i]);
    else if (!strcmp(argv[i], "--scratch")) vf_scratch = argv[++i];
    else if (!strcmp(argv[i], "--scale")) scale = (unsigned)atoi(argv[++i]);
    else if (!strcmp(argv[i], "--build")) vf_build = argv[++i];
    else { fprintf(stderr, "HARNESS ERROR: argument %s\n", argv[i]); return 70; }
  }
  result_file = out ? fopen(out, "w") : stdout;
  if (!result_file) { fprintf(stderr, "HARNESS ERROR: open %s\n", out); return 70; }
  if (prog) {
    int fd = open(prog, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(vf_progress))) { fprintf(stderr, "HARNESS ERROR: progress\n"); return 70; }
    progress = mmap(0, sizeof(vf_progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else progress = __real_calloc(1, sizeof(vf_progress));
  snprintf(progress->suite, sizeof progress->suite, "setup");
  vf_setup();
  uint64_t ran = 0;
  for (vf_suite* s = vf_suites; s->name; s++) {
    if (only && strcmp(only, s->name)) continue;
    uint64_t n = vf_thorough ? s->thorough : s->quick * scale, mine = 0;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (uint64_t i = 0; i < n || (only_case >= 0 && i == (uint64_t)only_case); i++) {
      if (only_case >= 0) { i = (uint64_t)only_case; }
      else if (i % shards != shard) continue;
      vf_rng r; vf_rng_init(&r, vf_mix(vf_mix(vf_mix(vf_hash(s->name, strlen(s->name), 0), vf_seed), vf_hash(vf_build, strlen(vf_build), 0)), i));
      snprintf(progress->suite, sizeof progress->suite, "%s", s->name); progress->index = i; progress->in_case = 1;
      fails_in_case = 0;
      s->f(&r, i);
      progress->in_case = 0; progress->done++; mine++; ran++;
      if (only_case >= 0) break;
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (mine) fprintf(result_file, "SUITE\t%s\t%llu\t%.3f\n", s->name, (unsigned long long)mine, (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9);
  }
  fprintf(result_file, "EVALS\t%llu\nCASES\t%llu\n", (unsigned long long)evals, (unsigned long long)ran);
  for (int i = 0; i < counters_used; i++) fprintf(result_file, "COUNT\t%s\t%llu\n", counters[i].name, (unsigned long long)counters[i].n);
  for (size_t i = 0; i < sig_cap; i++) if (sigs[i]) fprintf(result_file, "SIG\t%llx\n", (unsigned long long)sigs[i]);
  fprintf(result_file, "DONE\n");
  fclose(result_file);
  fflush(stdout);
  _exit(0);
}
