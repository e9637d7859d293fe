/* shared value generators and checks for arrays of samples and times */
#ifndef gen_h
#define gen_h
#include "vf.h"
#include <sph-sp/sph-sp.h>

typedef sp_sample_t* gsamples;
typedef sp_time_t* gtimes;

/* a plain value with many repetitions, fractions, signs and zeros */
static inline double gen_value(vf_rng* r, double lo, double hi) {
  switch (vf_below(r, 8)) {
    case 0: return lo <= 0 && hi >= 0 ? 0 : lo;
    case 1: return vf_chance(r, .5) ? lo : hi;
    case 2: return floor(vf_real(r, lo, hi));
    case 3: { double a = floor(vf_real(r, lo, hi)) + 0.5; return a > hi ? hi : a < lo ? lo : a; }
    case 4: { double a = vf_real(r, lo, hi) * 1e-3; return a < lo || a > hi ? vf_real(r, lo, hi) : a; }
    default: return vf_real(r, lo, hi);
  }
}
static inline sp_sample_t* gen_samples(vf_rng* r, size_t n, double lo, double hi) {
  sp_sample_t* a = vf_guarded(n * sizeof(sp_sample_t));
  for (size_t i = 0; i < n; i++) a[i] = gen_value(r, lo, hi);
  return a;
}
static inline sp_time_t* gen_times(vf_rng* r, size_t n, uint64_t lo, uint64_t hi) {
  sp_time_t* a = vf_guarded(n * sizeof(sp_time_t));
  for (size_t i = 0; i < n; i++) {
    uint64_t k = vf_below(r, 6);
    a[i] = (sp_time_t)(k == 0 ? lo : k == 1 ? hi : k == 2 ? lo + vf_below(r, (hi - lo < 10 ? hi - lo : 10) + 1) : lo + vf_below(r, hi - lo + 1));
  }
  return a;
}
static inline sp_sample_t* out_samples(size_t n) { return vf_guarded(n * sizeof(sp_sample_t)); }
static inline sp_time_t* out_times(size_t n) { return vf_guarded(n * sizeof(sp_time_t)); }
static inline void* dup_mem(const void* a, size_t n) { void* b = vf_guarded(n); memcpy(b, a, n); return b; }
static inline sp_sample_t* dup_samples(const sp_sample_t* a, size_t n) { return dup_mem(a, n * sizeof *a); }
static inline sp_time_t* dup_times(const sp_time_t* a, size_t n) { return dup_mem(a, n * sizeof *a); }

/* guards intact and content unchanged */
static inline int same_mem(const char* key, const char* what, void* a, void* copy, size_t bytes) {
  vf_eval(1);
  if (!vf_guard_check(a)) { vf_fail(key, "%s: written outside of the array", what); return 0; }
  if (memcmp(a, copy, bytes)) { vf_fail(key, "%s: input was modified", what); return 0; }
  return 1;
}
static inline int guards_ok(const char* key, const char* what, void* a) {
  vf_eval(1);
  if (!vf_guard_check(a)) { vf_fail(key, "%s: written outside of the array", what); return 0; }
  return 1;
}
static inline int eq_samples(const char* key, const char* what, const sp_sample_t* got, const sp_sample_t* want, size_t n, double tol) {
  vf_eval(n);
  for (size_t i = 0; i < n; i++)
    if (!vf_near(got[i], want[i], tol)) { vf_fail(key, "%s: index %zu of %zu is %.17g, expected %.17g", what, i, n, got[i], want[i]); return 0; }
  return 1;
}
static inline int eq_times(const char* key, const char* what, const sp_time_t* got, const sp_time_t* want, size_t n) {
  vf_eval(n);
  for (size_t i = 0; i < n; i++)
    if (got[i] != want[i]) { vf_fail(key, "%s: index %zu of %zu is %u, expected %u", what, i, n, got[i], want[i]); return 0; }
  return 1;
}
/* rounded value of exact x, either neighbour accepted next to a tie */
static inline int is_rounded(double got, double x) {
  double d = got - x;
  return fabs(d) <= 0.5 + 1e-6;
}
#endif
