/* common runtime of all harnesses: case driver, prng, verdicts, allocation ledger, fault injection */
#ifndef vf_h
#define vf_h
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdarg.h>
#include <sys/types.h>

/* ---- prng: every random choice of a case derives from (VERIF_SEED, suite, case) */
typedef struct { uint64_t s[4]; } vf_rng;
void vf_rng_init(vf_rng* r, uint64_t seed);
uint64_t vf_u64(vf_rng* r);
uint64_t vf_below(vf_rng* r, uint64_t n);               /* 0..n-1, n > 0 */
int64_t vf_range(vf_rng* r, int64_t lo, int64_t hi);    /* inclusive */
double vf_unit(vf_rng* r);                              /* 0..1 */
double vf_real(vf_rng* r, double lo, double hi);
int vf_chance(vf_rng* r, double p);
/* sizes with emphasis on small and boundary values, 1..max (lo..max) */
uint64_t vf_size(vf_rng* r, uint64_t lo, uint64_t max);
/* like vf_size, but in every period-th case a size beyond 16 bits */
uint64_t vf_size_big(vf_rng* r, uint64_t ix, uint64_t period, uint64_t lo, uint64_t max);

/* ---- suites */
typedef struct {
  const char* name;
  void (*f)(vf_rng* r, uint64_t i);
  uint64_t quick, thorough;   /* number of cases */
} vf_suite;
extern vf_suite vf_suites[];
void vf_setup(void);   /* called once per process, provided by the harness */

/* ---- verdicts and measurements. all thread safe */
void vf_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void vf_note_known(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void vf_error(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn)); /* harness failure */
void vf_eval(uint64_t n);                 /* oracle decisions made */
void vf_count(const char* name, uint64_t n);
void vf_sig(uint64_t h);                  /* a distinct nontrivial situation observed */
void vf_sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t vf_hash(const void* p, size_t n, uint64_t h);
uint64_t vf_mix(uint64_t h, uint64_t v);
int vf_failed_in_case(void);
extern int vf_thorough;
extern const char* vf_scratch;            /* private directory for files */
extern uint64_t vf_seed;
extern const char* vf_build;              /* name of the build variant: asan, rel, tsan */

/* ---- memory of the harness itself: never tracked, never failed */
void* vf_malloc(size_t n);
void* vf_calloc(size_t n);
void vf_free(void* p);
/* arrays with guard regions on both sides. guards are verified and freed with vf_guard_ok (returns 1 if intact) */
void* vf_guarded(size_t bytes);           /* content filled with junk */
int vf_guard_check(void* p);
void vf_guarded_free(void* p);

/* ---- allocation ledger over malloc/calloc/realloc/free of the code under test.
   active between begin and end, in all threads */
void vf_ledger_large(void);               /* for histories with very many allocations. before the first use */
void vf_ledger_begin(void);
int64_t vf_ledger_live(void);             /* number of live allocations made since begin */
int64_t vf_ledger_live_bytes(void);
uint64_t vf_ledger_allocs(void);          /* allocations since begin */
void vf_ledger_end(void);                 /* stop tracking. leftover entries are forgotten */
uint64_t vf_ledger_bad_frees(void);       /* frees of already freed tracked pointers since begin */
void vf_ledger_describe(char* out, size_t n); /* sizes of live allocations */
int vf_ledger_owns(void* p);
int vf_ledger_owns_range(void* p, size_t n); /* [p, p+n) within one live tracked allocation */
void vf_fault_at(int64_t n);              /* let the n-th (0 based) following allocation fail; -1 disables */
void vf_fault_all_from(int64_t n);        /* let it and all later ones fail */
int vf_fault_hit(void);                   /* whether an injected failure happened */
/* expects no live allocations, reports with key otherwise, ends the ledger */
int vf_ledger_end_empty(const char* key, const char* what);

int vf_near(double a, double b, double tol);          /* absolute or relative */
#define VF_LEN(a) (sizeof(a) / sizeof((a)[0]))
#endif
