/* R02: random number generation is reproducible, in range and uniform */
#include "gen.h"
#include "chi.h"
void vf_setup(void) {}
#define K(f) "R02:" f
/* independent reference: splitmix64 seeding, xoshiro256** and xoshiro256+, lemire bounding */
typedef struct { uint64_t s[4]; } ref;
static uint64_t rl(uint64_t x, unsigned k) { return (x << k) | (x >> (64u - k)); }
static ref ref_new(uint64_t seed) { ref a; for (int i = 0; i < 4; i++) { uint64_t z = (seed += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; a.s[i] = z ^ (z >> 31); } return a; }
static void ref_step(ref* a) { uint64_t* s = a->s; uint64_t t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rl(s[3], 45); }
static uint64_t ref_u64(ref* a) { uint64_t x = rl(a->s[1] * 5, 7) * 9; ref_step(a); return x; }
static double ref_f(ref* a, double range) { uint64_t x = a->s[0] + a->s[3]; ref_step(a); return range * ((double)(x >> 11) / 9007199254740992.0); }
static uint64_t rejected;
static uint64_t ref_bounded(ref* a, uint64_t n) {
  if (!n) { ref_u64(a); return 0; }
  uint64_t reject = (0 - n) % n;
  for (;;) { __uint128_t m = (__uint128_t)ref_u64(a) * n; if ((uint64_t)m >= reject) return (uint64_t)(m >> 64); rejected++; }
}
/* a state whose next integer is x, and whose next float is the one made from y */
static uint64_t inverse(uint64_t n) { uint64_t x = n; for (int i = 0; i < 6; i++) x *= 2 - n * x; return x; }
static uint64_t state_of(uint64_t x) { x *= inverse(9); return rl(x, 57) * inverse(5); }
static void craft(vf_rng* r, ref* a, uint64_t range) {
  /* integers for which the low half of the product with the range is close to the border of rejection */
  uint64_t reject = (0 - range) % range; uint64_t x[2];
  for (int i = 0; i < 2; i++) { uint64_t low = vf_below(r, 4) == 0 ? vf_below(r, 3) : vf_chance(r, .5) ? reject + vf_below(r, 3) - 1 : vf_u64(r) % range; int z = __builtin_ctzll(range); uint64_t odd = range >> z; x[i] = z ? (low >> z) * inverse(odd) : low * inverse(range); if (z) x[i] = (x[i] & (UINT64_MAX >> z)) | vf_u64(r) << (64 - z); if (vf_chance(r, .05)) x[i] = vf_chance(r, .5) ? 0 : UINT64_MAX; }
  a->s[1] = state_of(x[0]); a->s[0] = a->s[1] ^ a->s[2] ^ state_of(x[1]); a->s[3] = (vf_chance(r, .3) ? UINT64_MAX : vf_chance(r, .3) ? vf_below(r, 5000) : vf_u64(r)) - a->s[0]; if (!a->s[2]) a->s[2] = 1;
}
static uint64_t some_range(vf_rng* r) {
  switch (vf_below(r, 7)) { case 0: return 1 + vf_below(r, 4); case 1: return 1ULL << vf_below(r, 64); case 2: return (1ULL << vf_below(r, 64)) + 1; case 3: return UINT64_MAX - vf_below(r, 3); case 4: return 3ULL << vf_below(r, 63); case 5: return 1 + vf_below(r, 1000); default: { uint64_t a = vf_u64(r); return a ? a : 1; } }
}
static void t_sequence(vf_rng* r, uint64_t ix) {
  uint64_t seed = vf_chance(r, .3) ? vf_below(r, 10) : vf_chance(r, .5) ? (uint32_t)vf_u64(r) : vf_u64(r);
  ref a = ref_new(seed); sph_random_state_t s = sph_random_state_new(seed); vf_eval(1);
  if (memcmp(&a, &s, sizeof a)) { vf_fail(K("state_new"), "state of seed %llu differs", (unsigned long long)seed); return; }
  ref other_ref = ref_new(seed + 1); sph_random_state_t other = sph_random_state_new(seed + 1);
  /* array and single draws of all kinds in random order on one state, with another state used in between */
  size_t steps = 1 + vf_below(r, 200);
  for (size_t k = 0; k < steps; k++) {
    size_t n = vf_chance(r, .5) ? 1 : vf_chance(r, .0006) ? 65530 + vf_below(r, 3000) : vf_size(r, 0, 100); uint64_t range = some_range(r); double fr = vf_chance(r, .3) ? 1 : vf_chance(r, .3) ? vf_real(r, 0, 1e-12) + 1e-300 : vf_real(r, 0, 1e9); uint32_t r32 = (uint32_t)range; if (!r32) r32 = 7;
    int kind = (int)vf_below(r, 16), arr = vf_chance(r, .5);
    if (vf_chance(r, .3)) { craft(r, &a, (kind == 3 || kind == 9) ? r32 : range); memcpy(s.data, a.s, sizeof a.s); vf_count("crafted states", 1); }
    uint64_t* o = vf_guarded(n * 8 + 8); uint32_t* o32 = (uint32_t*)o; double* of = (double*)o;
    memset(o, 0x5a, n * 8 + 8);
    const char* what = "?"; int ok = 1; size_t i = 0;
#define EACH(name, call1, calln, got, want, inrange) \
    what = name; if (arr) { calln; } else for (i = 0; i < n; i++) { got = call1; } \
    for (i = 0; i < n && ok; i++) { __typeof__(got) w = want; vf_eval(1); if (got != w) { ok = 0; break; } if (!(inrange)) { vf_fail(K("range"), "%s out of range", what); } }
    switch (kind) {
      case 0: EACH("u64", sph_random_u64(&s), sph_random_u64_array(&s, n, o), o[i], ref_u64(&a), 1) break;
      case 1: EACH("u64_bounded", sph_random_u64_bounded(&s, range), sph_random_u64_bounded_array(&s, range, n, o), o[i], ref_bounded(&a, range), o[i] < range) break;
      case 2: EACH("u32", sph_random_u32(&s), sph_random_u32_array(&s, n, o32), o32[i], (uint32_t)(ref_u64(&a) >> 32), 1) break;
      case 3: EACH("u32_bounded", sph_random_u32_bounded(&s, r32), sph_random_u32_bounded_array(&s, r32, n, o32), o32[i], (uint32_t)ref_bounded(&a, r32), o32[i] < r32) break;
      case 4: EACH("f64", sph_random_f64(&s), sph_random_f64_array(&s, n, of), of[i], (double)(ref_u64(&a) >> 11) / 9007199254740992.0, of[i] >= 0 && of[i] < 1) break;
      case 5: EACH("f64_bounded", sph_random_f64_bounded(&s, fr), sph_random_f64_bounded_array(&s, fr, n, of), of[i], ref_f(&a, fr), of[i] >= 0 && of[i] < fr) break;
      case 6: EACH("f64_1to1", sph_random_f64_1to1(&s), sph_random_f64_array_1to1(&s, n, of), of[i], ref_f(&a, 2) - 1, of[i] >= -1 && of[i] < 1) break;
      case 7: EACH("f64_0to1", sph_random_f64_0to1(&s), sph_random_f64_array_0to1(&s, n, of), of[i], ref_f(&a, 1), of[i] >= 0 && of[i] < 1) break;
      /* the same through the names of the library and the global state */
#define GLOBAL(...) sp_random_state = s; __VA_ARGS__ s = sp_random_state;
      case 8: GLOBAL(EACH("sp_times_random", sp_time_random(), sp_times_random(n, o32), o32[i], (uint32_t)(ref_u64(&a) >> 32), 1)) break;
      case 9: GLOBAL(EACH("sp_times_random_bounded", sp_time_random_bounded(r32), sp_times_random_bounded(r32, n, o32), o32[i], (uint32_t)ref_bounded(&a, r32), o32[i] < r32)) break;
      case 10: GLOBAL(EACH("sp_samples_random", sp_sample_random(), sp_samples_random(n, of), of[i], ref_f(&a, 2) - 1, of[i] >= -1 && of[i] < 1)) break;
      case 11: GLOBAL(what = "sp_samples_random_bounded"; sp_samples_random_bounded(fr, n, of); for (i = 0; i < n && ok; i++) { vf_eval(1); if (of[i] != ref_f(&a, fr)) ok = 0; }) break;
      case 12: GLOBAL(EACH("sp_units_random", sp_unit_random(), sp_units_random(n, of), of[i], ref_f(&a, 1), of[i] >= 0 && of[i] < 1)) break;
      case 14: GLOBAL(EACH("sp_sample_random_bounded", sp_sample_random_bounded(fr), sp_samples_random_bounded(fr, n, of), of[i], ref_f(&a, fr), of[i] >= 0 && of[i] < fr)) break;
      case 15: GLOBAL(what = "sp_units_random_bounded"; sp_units_random_bounded(fr, n, of); for (i = 0; i < n && ok; i++) { vf_eval(1); if (of[i] != ref_f(&a, fr)) ok = 0; }) break;
      case 13: { uint64_t w = ref_u64(&other_ref), g = sph_random_u64(&other); what = "other state"; vf_eval(1); if (w != g) ok = 0; break; }
    }
    size_t used = kind == 2 || kind == 3 || kind == 8 || kind == 9 ? n * 4 : n * 8; if (kind == 13) used = 0;
    int clean = vf_guard_check(o); for (size_t j = used; j < n * 8 + 8; j++) if (((uint8_t*)o)[j] != 0x5a) clean = 0;
    if (!clean) vf_fail(K("array"), "%s wrote outside of its %zu elements", what, n);
    vf_guarded_free(o); vf_count(what, n); if (n > 65536) vf_count("arrays beyond 16 bits", 1);
    if (!ok) { vf_fail(K("sequence"), "%s%s differs from the reference at draw %zu of %zu, seed %llu, range %llu %g", what, arr ? " array" : "", i, n, (unsigned long long)seed, (unsigned long long)range, fr); return; }
  }
  { sp_random_state_t w = sp_random_state_new((sp_time_t)seed); ref q = ref_new((sp_time_t)seed); ref_u64(&q); ref_u64(&q); vf_eval(1); if (memcmp(&w, &q, sizeof q)) vf_fail(K("sp_random_state_new"), "seed %u", (sp_time_t)seed); }
  vf_sig(seed); vf_count("integers rejected to be unbiased", rejected); rejected = 0;
  if (ix < 2) vf_sample("seed %llu: %zu mixed single and array draws equal to the reference", (unsigned long long)seed, steps);
}
static void t_uniform(vf_rng* r, uint64_t ix) {
  sph_random_state_t s = sph_random_state_new(vf_u64(r)); size_t n = 40000; uint64_t c[64] = {0}, c2[64] = {0}; double z; size_t cells = 2 + vf_below(r, 40);
  uint64_t range = ix % 3 == 0 ? cells : ix % 3 == 1 ? (3ULL << 62) : some_range(r);
  /* bounded integers: buckets over the whole range and residues */
  for (size_t i = 0; i < n; i++) { uint64_t x = sph_random_u64_bounded(&s, range); if (x >= range) { vf_fail(K("range"), "%llu of range %llu", (unsigned long long)x, (unsigned long long)range); return; } c[(size_t)(((__uint128_t)x * cells) / range)]++; c2[x % 2]++; }
  vf_eval(4);
  if (range > 1000000 || range == cells) if (!chi_fits(c, 0, cells, &z)) vf_fail(K("uniform"), "bounded integers of range %llu are not uniform in %zu buckets, z %g", (unsigned long long)range, cells, z);
  { double w[2] = {(double)(range / 2 + (range & 1)), (double)(range / 2)}; if (!chi_fits(c2, w, 2, &z)) vf_fail(K("uniform"), "parity of bounded integers of range %llu, z %g", (unsigned long long)range, z); }
  memset(c, 0, sizeof c); memset(c2, 0, sizeof c2); uint32_t r32 = (uint32_t)(1 + vf_below(r, 60));
  for (size_t i = 0; i < n; i++) { c[sph_random_u32_bounded(&s, r32)]++; double f = sph_random_f64_1to1(&s); c2[(size_t)((f + 1) / 2 * 50)]++; }
  if (r32 > 1 && !chi_fits(c, 0, r32, &z)) vf_fail(K("uniform"), "u32 of range %u is not uniform, z %g", r32, z);
  if (!chi_fits(c2, 0, 50, &z)) vf_fail(K("uniform"), "f64_1to1 is not uniform, z %g", z);
  vf_sig(vf_mix(range, cells)); vf_count("uniformity draws", 3 * n);
  if (ix < 2) vf_sample("range %llu uniform over %zu buckets, z %.2f", (unsigned long long)range, cells, z);
}
/* around the middle of the range in the shape of a bell */
static void t_normal(vf_rng* r, uint64_t ix) {
  sp_time_t lo = vf_chance(r, .3) ? 0 : (sp_time_t)vf_below(r, 100000), range = vf_chance(r, .1) ? 0 : vf_chance(r, .2) ? 1 + (sp_time_t)vf_below(r, 5) : 50 + (sp_time_t)vf_below(r, vf_chance(r, .5) ? 1000 : 100000000), hi = lo + range; size_t n = 4000, inner = 0, low = 0; double sum = 0, sq = 0, sd = range / sqrt(12. * 32), mid = lo + (range ? (range - 1) / 2. : 0); sp_random_state = sp_random_state_new((sp_time_t)vf_u64(r));
  for (size_t i = 0; i < n; i++) { sp_time_t x = sp_normal_random(lo, hi); vf_eval(1); if (x < lo || x > hi) { vf_fail(K("normal"), "%u of the range %u..%u", x, lo, hi); return; } double d = (double)x + (range ? .5 : 0) - mid; sum += d; sq += d * d; inner += fabs(d) < sd; low += d < 0; }
  double mean = sum / n, dev = sqrt(sq / n - mean * mean); vf_eval(4);
  if (fabs(mean) > .6 + 6 * sd / sqrt(n)) vf_fail(K("normal"), "range %u..%u: mean is off the middle by %g, standard deviation %g", lo, hi, mean, sd);
  if (range >= 50) { if (fabs(dev - sd) > .6 + sd * .08) vf_fail(K("normal"), "range %u..%u: standard deviation is %g, expected %g", lo, hi, dev, sd); if (fabs((double)inner / n - .683) > .05 + .5 / sd) vf_fail(K("normal"), "range %u..%u: %g within one standard deviation", lo, hi, (double)inner / n); if (fabs((double)low / n - .5) > .06 + .4 / sd) vf_fail(K("normal"), "range %u..%u: %g below the middle", lo, hi, (double)low / n); }
  vf_sig(vf_mix(lo, range)); vf_count("normally distributed draws", n); if (ix < 1) vf_sample("range %u..%u: mean off by %g, standard deviation %g of expected %g", lo, hi, mean, dev, sd);
}
vf_suite vf_suites[] = {{"sequence", t_sequence, 3000, 100000}, {"uniform", t_uniform, 60, 2000}, {"normal", t_normal, 100, 3000}, {0}};
