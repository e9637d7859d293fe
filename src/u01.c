/* U01: conversions, interpolation and small helpers follow their definitions */
#define _GNU_SOURCE
#include <stdint.h>
static uint32_t def_rate;
#define _sp_rate def_rate
#include "gen.h"
#define K(f) "U01:" f
void vf_setup(void) { if (sp_initialize(0, 2, 960).id) vf_error("initialize"); }
static void expect(const char* key, double got, double want, double tol, const char* fmt, ...) {
  vf_eval(1); if (vf_near(got, want, tol)) return;
  char b[200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  vf_fail(key, "%s is %.17g, expected %.17g", b, got, want);
}
static uint32_t some_rate(vf_rng* r) { static const uint32_t c[] = {8000, 11025, 22050, 44100, 48000, 96000, 192000, 960, 1}; return vf_chance(r, .5) ? c[vf_below(r, VF_LEN(c))] : 1 + (uint32_t)vf_below(r, vf_chance(r, .5) ? 1000 : 1000000); }
static void t_units(vf_rng* r, uint64_t ix) {
  sp_rate = def_rate = some_rate(r);
  for (int k = 0; k < 30; k++) {
    { sp_time_t x = 1 + (sp_time_t)vf_below(r, vf_chance(r, .3) ? 3 * (uint64_t)sp_rate : sp_rate); expect(K("hz_to_samples"), sp_hz_to_samples(x), (double)(sp_rate / x), 0, "the wavelength of %u hz at rate %u", x, sp_rate); expect(K("samples_to_hz"), sp_samples_to_hz(x), (double)(sp_rate / x), 0, "the frequency of the wavelength %u at rate %u", x, sp_rate); }
    { double x = vf_chance(r, .3) ? (double)vf_below(r, sp_rate) : vf_real(r, 0, sp_rate); sp_time_t t = (sp_time_t)x; expect(K("hz_to_factor"), sp_hz_to_factor(x), x / sp_rate, 1e-12, "the factor of %g hz at rate %u", x, sp_rate); expect(K("hz_to_factor"), sp_hz_to_factor(t), (double)t / sp_rate, 1e-12, "the factor of %u hz at rate %u", t, sp_rate); double f = x / sp_rate, y = f * sp_rate, w = sp_factor_to_hz(f); vf_eval(1); if (w != floor(y) && fabs(w - y) > 1e-6 * (1 + y)) vf_fail(K("factor_to_hz"), "the factor %g at rate %u is %g hz", f, sp_rate, w); }
    { double x = vf_real(r, 0, vf_chance(r, .5) ? 1 : 50000), y = sp_hz_to_rad(x); expect(K("hz_to_rad"), y, 2 * M_PI * x, 1e-12, "%g hz in radians", x); expect(K("rad_to_hz"), sp_rad_to_hz(y), x, 1e-9, "hz of the %g radians of %g hz", y, x); }
    { sp_time_t n = (sp_time_t)vf_below(r, 20), d = 1 + (sp_time_t)vf_below(r, vf_chance(r, .5) ? 8 : 1000); expect(K("rate_duration"), sp_rate_duration(n, d), (double)((uint64_t)(sp_rate / d) * n), 0, "%u/%u of a second at rate %u", n, d, sp_rate); expect(K("rate_duration"), sprd(n, d), (double)((uint64_t)(sp_rate / d) * n), 0, "%u/%u of a second at rate %u (sprd)", n, d, sp_rate); expect(K("duration"), sp_duration(n, d), (double)((uint64_t)(def_rate / d) * n), 0, "%u/%u of a second at rate %u (constant)", n, d, def_rate); expect(K("duration"), spd(n, d), (double)((uint64_t)(def_rate / d) * n), 0, "%u/%u of a second at rate %u (spd)", n, d, def_rate);
      if (sp_rate % d == 0) expect(K("rate_duration"), sp_rate_duration(n, d), (double)sp_rate * n / d, 0, "%u/%u of a second at rate %u", n, d, sp_rate); }
    { double x = vf_real(r, -1, 1); expect(K("sample_to_unit"), sp_sample_to_unit(x), (x + 1) / 2, 1e-12, "%g as a unit", x); }
    expect(K("max_frq"), sp_max_frq, sp_rate / 2, 0, "the maximum frequency at rate %u", sp_rate);
  }
  vf_sig(vf_mix(1, vf_mix(sp_rate, ix))); vf_count("rates", 1); if (ix < 2) vf_sample("conversions at rate %u", sp_rate); sp_rate = 960;
}
static void t_numbers(vf_rng* r, uint64_t ix) {
  for (int k = 0; k < 30; k++) {
    { double x = vf_chance(r, .3) ? (double)vf_below(r, 100) + (double)vf_below(r, 5) / 4 : vf_real(r, 0, vf_chance(r, .5) ? 10 : 4e9); sp_time_t t = (sp_time_t)vf_u64(r);
      expect(K("cheap_round"), sp_cheap_round_positive(x), (double)(sp_time_t)floor(x + 0.5), 0, "%.17g rounded", x); expect(K("cheap_round"), sp_sample_to_time(x), (double)(sp_time_t)floor(x + 0.5), 0, "%.17g as time", x); expect(K("cheap_floor"), sp_cheap_floor_positive(x), floor(x), 0, "the floor of %.17g", x); expect(K("cheap_ceiling"), sp_cheap_ceiling_positive(x), ceil(x), 0, "the ceiling of %.17g", x); expect(K("time_to_sample"), sp_time_to_sample(t), t, 0, "%u as sample", t); expect(K("odd"), !!sp_time_odd_p(t), t % 2, 0, "%u is odd", t); }
    { double a = gen_value(r, -100, 100), b = vf_chance(r, .2) ? a : gen_value(r, -100, 100), lo = a < b ? a : b, hi = a < b ? b : a, x = gen_value(r, -200, 200); sp_time_t c = (sp_time_t)vf_u64(r), d = vf_chance(r, .2) ? c : (sp_time_t)vf_u64(r) >> vf_below(r, 32);
      expect(K("max"), sp_inline_max(a, b), hi, 0, "maximum of %g and %g", a, b); expect(K("min"), sp_inline_min(a, b), lo, 0, "minimum of %g and %g", a, b); expect(K("limit"), sp_inline_limit(x, lo, hi), x < lo ? lo : x > hi ? hi : x, 0, "%g limited to %g..%g", x, lo, hi);
      expect(K("max"), sp_inline_max(c, d), c > d ? c : d, 0, "maximum of %u and %u", c, d); expect(K("min"), sp_inline_min(c, d), c < d ? c : d, 0, "minimum of %u and %u", c, d);
      expect(K("absolute_difference"), sp_inline_absolute_difference(a, b), hi - lo, 1e-12, "difference of %g and %g", a, b); expect(K("absolute_difference"), sp_inline_absolute_difference(c, d), c > d ? c - d : d - c, 0, "difference of %u and %u", c, d); expect(K("abs"), sp_inline_abs(a), fabs(a), 0, "absolute value of %g", a); expect(K("no_underflow"), sp_inline_no_underflow_subtract(c, d), c > d ? c - d : 0, 0, "%u - %u", c, d); expect(K("no_underflow"), sp_inline_no_underflow_subtract(a, b), a > b ? a - b : 0, 1e-12, "%g - %g", a, b);
      expect(K("subtract"), sp_subtract(a, b), a - b, 1e-12, "%g - %g", a, b);
      expect(K("no_zero_divide"), sp_inline_no_zero_divide(a, b), b == 0 ? 0 : a / b, 1e-12, "%g / %g or zero", a, b); { sp_time_t z = vf_chance(r, .3) ? 0 : d; expect(K("no_zero_divide"), sp_inline_no_zero_divide(c, z), z ? (double)(c / z) : 0, 0, "%u / %u or zero", c, z); }
      { sp_time_t o = vf_chance(r, .5) ? 0 : c; expect(K("optional"), sp_inline_optional(o, d), o ? o : d, 0, "%u or %u", o, d); sp_time_t q = o; sp_inline_default(q, d); expect(K("default"), q, o ? o : d, 0, "%u with default %u", o, d); }
      { sp_time_t arr[5], i = (sp_time_t)vf_below(r, 5); for (int j = 0; j < 5; j++) arr[j] = (sp_time_t)vf_u64(r); sp_time_t* p = vf_chance(r, .5) ? arr : 0; expect(K("optional_array"), sp_optional_array_get(p, d, i), p ? arr[i] : d, 0, "optional array at %u", i); } }
    { double a = gen_value(r, -100, 100), b = gen_value(r, -100, 100), t = vf_chance(r, .2) ? 0 : vf_chance(r, .2) ? 1 : vf_unit(r); expect(K("interpolate"), sp_sample_interpolate_linear(a, b, t), a + (b - a) * t, 1e-9, "%g to %g at %g", a, b, t);
      sp_time_t c = (sp_time_t)vf_below(r, vf_chance(r, .5) ? 20 : 2000000000), d = (sp_time_t)vf_below(r, vf_chance(r, .5) ? 20 : 2000000000), v = sp_time_interpolate_linear(c, d, t); vf_eval(1); if (!is_rounded(v, c + ((double)d - c) * t)) vf_fail(K("interpolate"), "%u to %u at %g is %u", c, d, t, v); if (t == 0 && v != c) vf_fail(K("interpolate"), "%u to %u at 0 is %u", c, d, v); if (t == 1 && v != d) vf_fail(K("interpolate"), "%u to %u at 1 is %u", c, d, v); }
    { sp_time_t n = 1 + (sp_time_t)vf_below(r, 6); size_t *dv = vf_guarded(n * sizeof *dv), index = vf_chance(r, .8) ? vf_below(r, 60) : vf_u64(r), w = n - 1; for (sp_time_t i = 0; i < n; i++) dv[i] = 1 + vf_below(r, 9); for (sp_time_t i = n; i > 0; i--) if (index % dv[i - 1] == 0) w = i - 1; expect(K("modulo_match"), (double)sp_modulo_match(index, dv, n), (double)w, 0, "divisor of %zu among %u", index, n); guards_ok(K("modulo_match"), "divisors", dv); vf_guarded_free(dv); }
    { uint8_t bytes[8]; uint64_t x = vf_u64(r) << 8 * vf_below(r, 8), w = 0; memcpy(bytes, &x, 8); sp_time_t c = 1 + (sp_time_t)vf_below(r, 8); for (sp_time_t i = 0; i < c; i++) w |= (uint64_t)bytes[i] << 8 * i; uint8_t* q = dup_mem(bytes, c); uint64_t g = sp_u64_from_array(q, c); vf_eval(1); if (g != w) vf_fail(K("u64_from_array"), "%u bytes: %llx, expected %llx", c, (unsigned long long)g, (unsigned long long)w); vf_guarded_free(q); }
    { /* rounding to multiples */
      sp_time_t base = 1 + (sp_time_t)vf_below(r, vf_chance(r, .5) ? 12 : 100000), a = (sp_time_t)vf_below(r, vf_chance(r, .5) ? 50 : 100000000); double amount = vf_chance(r, .3) ? 1 : vf_chance(r, .3) ? 0 : vf_unit(r);
      sp_time_t v = sp_time_harmonize(a, base, amount); double best = 1e300; for (int s = 0; s < 2; s++) { double m = (double)(a / base + s) * base, d = fabs(m - a); if (d < best) best = d; } int ok = 0;
      for (int s = 0; s < 2; s++) { double m = (double)(a / base + s) * base; if (fabs(fabs(m - a) - best) < 1.5 && fabs(a + (m - a) * amount - v) < 1.0001) ok = 1; } vf_eval(1);
      if (!ok) vf_fail(K("harmonize"), "%u with base %u and amount %g becomes %u", a, base, amount, v); if (amount == 1 && v % base) vf_fail(K("harmonize"), "%u fully harmonized to the base %u is %u", a, base, v); if (amount == 0 && v != a) vf_fail(K("harmonize"), "%u with amount 0 becomes %u", a, v);
      if (base > 3) { sp_random_state = sp_random_state_new((sp_time_t)vf_u64(r)); v = sp_time_deharmonize(a + base, base, amount); double d = fabs((double)v - (a + base)); vf_eval(1); if (d > amount * (1 + base / 2) + 1.0001) vf_fail(K("deharmonize"), "%u with base %u and amount %g becomes %u, further away than half of the base", a + base, base, amount, v); if (amount == 0 && v != a + base) vf_fail(K("deharmonize"), "%u with amount 0 becomes %u", a + base, v);
        /* values move away from the multiple, randomly up to half of the base weighted by the nearness to the multiple */
        if (ix % 4 == 0 && base > 9 && base < 1000000) {
          sp_time_t m = base * (2 + (sp_time_t)vf_below(r, 1000)); int64_t dist = vf_chance(r, .25) ? 0 : vf_range(r, -(int64_t)(base - 1) / 2 + 1, (int64_t)(base - 1) / 2 - 1); sp_time_t from = (sp_time_t)((int64_t)m + dist); double ratio = 1 - fabs((double)dist) / base, limit = amount * ratio * (1 + (base / 2 - 1)), far = 0; int up = 0, down = 0; enum { N = 120 };
          for (int k = 0; k < N; k++) { sp_time_t g = sp_time_deharmonize(from, base, amount); double e = (double)g - from; vf_eval(1); if (fabs(e) > limit + 1.0001) { vf_fail(K("deharmonize"), "%u with base %u and amount %g becomes %u, further than %g", from, base, amount, g, limit); break; } if (e > 1) up++; if (e < -1) down++; if (fabs(e) > far) far = fabs(e); }
          if ((dist > 0 && down) || (dist < 0 && up)) vf_fail(K("deharmonize"), "%u with base %u moves towards the multiple %u", from, base, m); if (limit > 20 && far < .75 * limit - 1) vf_fail(K("deharmonize"), "%u with base %u and amount %g is moved by at most %g of %g in %d draws", from, base, amount, far, limit, N); if (limit > 20 && dist == 0 && (up < 20 || down < 20)) vf_fail(K("deharmonize"), "%u with base %u moves up %d and down %d times", from, base, up, down);
          vf_count("deharmonized values", N);
        } }
      if (a) { v = sp_time_round_to_multiple(a, base); vf_eval(1); if (v % base || (v > a ? v - a : a - v) > base) vf_fail(K("round_to_multiple"), "%u to a multiple of %u: %u", a, base, v); double x = vf_real(r, .001, 1e6), y = vf_chance(r, .5) ? vf_real(r, .01, 100) : (double)(1 + vf_below(r, 20)), z = sp_sample_round_to_multiple(x, y), q = z / y; vf_eval(1); if (fabs(q - round(q)) > 1e-6 || fabs(z - x) > y * 1.000001) vf_fail(K("round_to_multiple"), "%.12g to a multiple of %.12g: %.12g", x, y, z); } }
  }
  vf_sig(vf_mix(2, vf_u64(r))); if (ix < 1) vf_sample("rounding, limits, interpolation and selection of random numbers");
}
vf_suite vf_suites[] = {{"units", t_units, 4000, 100000}, {"numbers", t_numbers, 4000, 100000}, {0}};
