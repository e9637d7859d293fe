/* P01: paths and envelopes pass through their points with bounded curves */
#include "gen.h"
#define K(f) "P01:" f
void vf_setup(void) {}
typedef struct { size_t length; int n; double x[24], y[24], c[24]; int curved, whole; } shape; /* x includes both ends */
static double point_y(vf_rng* r, int times) { return times ? (vf_chance(r, .5) ? (double)vf_below(r, 2000) : vf_real(r, 0, vf_chance(r, .5) ? 50 : 40000)) : vf_chance(r, .3) ? (double)vf_range(r, -2, 2) : vf_real(r, -1, 1) * (vf_chance(r, .3) ? 300 : 1); }
static int large;
static void shape_new(vf_rng* r, shape* s, int n, int times, int curve) {
  memset(s, 0, sizeof *s); s->n = n ? n : 2 + (int)vf_below(r, vf_chance(r, .2) ? 23 : 8); s->length = vf_chance(r, .2) ? 1 + vf_below(r, 12) : vf_size(r, 2, 600); if (large) s->length = vf_size_big(r, 0, 1, 0, 0); s->whole = vf_chance(r, .6);
  for (int i = 1; i < s->n - 1; i++) { s->x[i] = vf_chance(r, .1) ? (double)(vf_chance(r, .5) ? 0 : s->length) : vf_unit(r) * (double)s->length; if (s->whole) s->x[i] = floor(s->x[i]); }
  for (int i = 1; i < s->n - 1; i++) for (int j = i; j > 1 && s->x[j] < s->x[j - 1]; j--) { double t = s->x[j]; s->x[j] = s->x[j - 1]; s->x[j - 1] = t; }
  s->x[s->n - 1] = (double)s->length; for (int i = 0; i < s->n; i++) s->y[i] = i && vf_chance(r, .15) ? s->y[i - 1] : point_y(r, times);
  s->curved = curve; if (curve) for (int i = 0; i < s->n - 1; i++) s->c[i] = vf_chance(r, .2) ? 0 : vf_chance(r, .2) ? (vf_chance(r, .5) ? 1 : -1) : vf_real(r, -1, 1);
}
static double quad(double a, double b, double c, double t) { double m = 1 - t; return a * m * m + 2 * b * m * t + c * t * t; }
/* compares a sampled path with the definition */
static int expect(const shape* s, const double* got, const char* what) {
  for (int k = 0; k < s->n - 1; k++) {
    double x0 = s->x[k], x1 = s->x[k + 1], y0 = s->y[k], y1 = s->y[k + 1], dx = x1 - x0, dy = y1 - y0, c = s->curved ? s->c[k] : 0, lo = y0 < y1 ? y0 : y1, hi = y0 < y1 ? y1 : y0; int whole = x0 == floor(x0) && x1 == floor(x1), line = fabs(c) < 1e-5 || dy == 0 || dx == 0;
    double slack = 1e-9 * (1 + fabs(lo) + fabs(hi)), slope = whole ? 0 : dx < 1 ? fabs(dy) / dx : fabs(dy) / dx; size_t a = (size_t)x0, b = (size_t)x1; if (a >= b) continue;
    double cx = 0, cy = 0; if (!line) { double p = dx / (2 * fabs(dy)), q = fabs(dy) / (2 * dx), m = p < q ? p : q; cx = (x0 + x1) / 2 + c * m * fabs(dy); cy = (y0 + y1) / 2 - (dy > 0 ? 1 : -1) * c * m * dx; }
    for (size_t i = a; i < b; i++) {
      vf_eval(1);
      if (line) { double w = y0 + dy * ((double)i - x0) / dx; if (!(fabs(got[i] - w) <= slack + slope * 1.01)) { vf_fail(K("line"), "%s: index %zu of %zu, segment %d from (%g %g) to (%g %g): %.12g, expected %.12g", what, i, s->length, k, x0, y0, x1, y1, got[i], w); return 0; } if (i == a && whole && got[i] != y0 && fabs(got[i] - y0) > slack) { vf_fail(K("point"), "%s: point %d is %.12g instead of %.12g", what, k, got[i], y0); return 0; } continue; }
      if (!(got[i] >= lo - slack && got[i] <= hi + slack)) { vf_fail(K("bounds"), "%s: index %zu of %zu, segment %d from (%g %g) to (%g %g) curvature %g: %.12g is outside of the rectangle", what, i, s->length, k, x0, y0, x1, y1, c, got[i]); return 0; }
      if (i > a && (dy > 0 ? got[i] < got[i - 1] - slack : got[i] > got[i - 1] + slack)) { vf_fail(K("monotone"), "%s: index %zu of %zu, segment %d from (%g %g) to (%g %g) curvature %g: %.12g after %.12g", what, i, s->length, k, x0, y0, x1, y1, c, got[i], got[i - 1]); return 0; }
      /* the exact curve within the resolution of its sampling */
      double u = 1e300, v = -1e300, px = 0, py = 0, tol = slack + 1e-9; int steps = (int)dx * 8 + 64; double t0 = 0;
      /* x(t) is monotone: find the first t */
      double l = 0, h = 1; for (int q = 0; q < 50; q++) { double m = (l + h) / 2; if (quad(x0, cx, x1, m) < (double)i - 1.7) l = m; else h = m; } t0 = l;
      for (int q = 0; q <= steps; q++) { double t = t0 + (double)q / steps * 1.0; if (t > 1) t = 1; double bx = quad(x0, cx, x1, t), by = quad(y0, cy, y1, t); if (q) { double e = by < py ? by : py, f = by < py ? py : by; if (e < u) u = e; if (f > v) v = f; if (f - e > tol) tol = f - e; } px = bx; py = by; if (bx > (double)i + 1.7 || t >= 1) break; }
      (void)px; if (!(got[i] >= u - tol && got[i] <= v + tol)) { vf_fail(K("curve"), "%s: index %zu of %zu, segment %d from (%g %g) to (%g %g) curvature %g: %.12g, expected %.12g..%.12g", what, i, s->length, k, x0, y0, x1, y1, c, got[i], u, v); return 0; }
    }
    vf_count(line ? "straight segments" : c > 0 ? "segments with positive curvature" : "segments with negative curvature", 1); if (fabs(dy) > dx && dy < 0 && !line) vf_count("steep descending curves", 1);
  }
  return 1;
}
static int ok(status_t s, const char* what) { vf_eval(1); if (s.id) { vf_fail(K("status"), "%s: status %d", what, s.id); return 0; } return 1; }
static int owned(void* p, size_t bytes, const char* what) { vf_eval(1); if (!vf_ledger_owns_range(p, bytes)) { vf_fail(K("length"), "%s: the result has not the requested length", what); return 0; } return 1; }
static status_t fixed(int times, void* o, const shape* s) {
  sp_time_t l = (sp_time_t)s->length; const double *x = s->x, *y = s->y, *c = s->c;
  if (times) { sp_time_t** out = o; switch (s->n + 10 * s->curved) {
    case 2: return sp_path_times2(out, l, y[0], y[1]); case 3: return sp_path_times3(out, l, x[1], y[0], y[1], y[2]); case 4: return sp_path_times4(out, l, x[1], x[2], y[0], y[1], y[2], y[3]); case 5: return sp_path_times5(out, l, x[1], x[2], x[3], y[0], y[1], y[2], y[3], y[4]);
    case 12: return sp_path_times_c2(out, l, y[0], y[1], c[0]); case 13: return sp_path_times_c3(out, l, x[1], y[0], y[1], y[2], c[0], c[1]); case 14: return sp_path_times_c4(out, l, x[1], x[2], y[0], y[1], y[2], y[3], c[0], c[1], c[2]); default: return sp_path_times_c5(out, l, x[1], x[2], x[3], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]); } }
  sp_sample_t** out = o; switch (s->n + 10 * s->curved) {
    case 2: return sp_path_samples2(out, l, y[0], y[1]); case 3: return sp_path_samples3(out, l, x[1], y[0], y[1], y[2]); case 4: return sp_path_samples4(out, l, x[1], x[2], y[0], y[1], y[2], y[3]); case 5: return sp_path_samples5(out, l, x[1], x[2], x[3], y[0], y[1], y[2], y[3], y[4]);
    case 12: return sp_path_samples_c2(out, l, y[0], y[1], c[0]); case 13: return sp_path_samples_c3(out, l, x[1], y[0], y[1], y[2], c[0], c[1]); case 14: return sp_path_samples_c4(out, l, x[1], x[2], y[0], y[1], y[2], y[3], c[0], c[1], c[2]); default: return sp_path_samples_c5(out, l, x[1], x[2], x[3], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]); }
}
static int rounded(const sp_time_t* t, const double* d, size_t n, const char* what) { for (size_t i = 0; i < n; i++) { vf_eval(1); if (!is_rounded(t[i], d[i])) { vf_fail(K("rounded"), "%s: index %zu is %u, expected %.12g rounded", what, i, t[i], d[i]); return 0; } } return 1; }
static void t_paths(vf_rng* r, uint64_t ix) {
  shape s; int times = vf_chance(r, .4), curve = vf_chance(r, .65); if (ix % 2000 == 1999) { curve = 0; large = 1; } shape_new(r, &s, vf_chance(r, .4) ? 2 + (int)vf_below(r, 4) : 0, times, curve); large = 0; char w[80]; snprintf(w, sizeof w, "%s path of %d points%s", times ? "time" : "sample", s.n, curve ? " with curvature" : "");
  double *x = dup_samples(s.x + 1, (size_t)s.n - 2), *y = dup_samples(s.y, (size_t)s.n), *c = dup_samples(s.c, (size_t)s.n - 1), *xc = dup_samples(x, (size_t)s.n - 2); double* out = 0; sp_time_t* tout = 0;
  vf_ledger_begin();
  if (ok(sp_path_samples(&out, (sp_time_t)s.length, (sp_path_point_count_t)s.n, x, y, curve ? c : 0), w) && owned(out, s.length * 8, w)) {
    expect(&s, out, w);
    same_mem(K("input"), w, x, xc, ((size_t)s.n - 2) * 8); same_mem(K("input"), w, y, s.y, (size_t)s.n * 8); same_mem(K("input"), w, c, s.c, ((size_t)s.n - 1) * 8);
    if (times && ok(sp_path_times(&tout, (sp_time_t)s.length, (sp_path_point_count_t)s.n, x, y, curve ? c : 0), w) && owned(tout, s.length * 4, w)) rounded(tout, out, s.length, w);
    free(tout); tout = 0;
    if (s.n <= 5) { double* o2 = 0; if (times) { if (ok(fixed(1, &tout, &s), w) && owned(tout, s.length * 4, w)) rounded(tout, out, s.length, w); } else if (ok(fixed(0, &o2, &s), w) && owned(o2, s.length * 8, w)) eq_samples(K("fixed"), w, o2, out, s.length, 1e-12); free(o2); free(tout); vf_count("fixed point count functions", 1); }
    vf_sig(vf_hash(out, s.length * 8, 1)); if (ix < 2) vf_sample("%s, length %zu", w, s.length);
  }
  free(out); vf_ledger_end_empty(K("leak"), w); vf_guarded_free(x); vf_guarded_free(y); vf_guarded_free(c); vf_guarded_free(xc);
}
/* opposite curvatures bend to opposite sides by the same amount in the middle */
static void t_opposite(vf_rng* r, uint64_t ix) {
  size_t n = 20 + vf_size(r, 0, 500); double y0 = point_y(r, 0), y1 = point_y(r, 0), c = vf_real(r, .05, 1); if (fabs(y1 - y0) < .01) y1 = y0 + 1; double *a = 0, *b = 0; char w[80]; snprintf(w, sizeof w, "%g to %g in %zu, curvature %g", y0, y1, n, c);
  if (ok(sp_path_samples_c2(&a, (sp_time_t)n, y0, y1, c), w) && ok(sp_path_samples_c2(&b, (sp_time_t)n, y0, y1, -c), w)) {
    double slope = fabs(y1 - y0) / (double)n, sa = 0, sb = 0, tol = 2 * slope; for (size_t i = 0; i < n; i++) { double l = y0 + (y1 - y0) * (double)i / (double)n; sa += a[i] - l; sb += b[i] - l; vf_eval(2); double sgn = y1 > y0 ? -1 : 1; (void)tol; if (sgn * (a[i] - l) < -3 * slope || sgn * (b[i] - l) > 3 * slope) { vf_fail(K("side"), "%s: index %zu: %.9g and %.9g around %.9g", w, i, a[i], b[i], l); break; } }
    double p = (double)n / (2 * fabs(y1 - y0)), q = fabs(y1 - y0) / (2 * (double)n), m = p < q ? p : q; /* area between curve and line: a third of the parallelogram of control point offset and line */
    double off = c * m * ((double)n * (double)n + (y1 - y0) * (y1 - y0)), want = off / 3 * (y1 > y0 ? -1 : 1); vf_eval(2); double at = .75 * fabs(y1 - y0) + 1e-6 + fabs(want) * .02;
    if (fabs(sa - want) > at || fabs(sb + want) > at) vf_fail(K("side"), "%s: areas %.9g and %.9g, expected %.9g and opposite", w, sa, sb, want);
    vf_sig(vf_hash(a, n * 8, 2)); vf_count("opposite curvatures", 1); if (ix < 1) vf_sample("%s", w);
  }
  free(a); free(b);
}
static void t_envelopes(vf_rng* r, uint64_t ix) {
  shape s; int scaled = vf_chance(r, .5), curve = vf_chance(r, .6); int n = vf_chance(r, .6) ? 3 + (int)vf_below(r, 3) : 2 + (int)vf_below(r, 10); size_t length = 1 + vf_size(r, 0, 600); memset(&s, 0, sizeof s); s.n = n; s.length = length; s.curved = curve;
  double dx[24], y[24], c[24], scalar = scaled ? (vf_chance(r, .3) ? 1 : vf_real(r, .1, 300)) : 1; double rest = 1; for (int i = 0; i < n - 2; i++) { dx[i] = vf_chance(r, .1) ? 0 : vf_chance(r, .2) && rest >= .25 ? .25 : rest * vf_real(r, .05, .8); rest -= dx[i]; }
  for (int i = 0; i < n; i++) y[i] = scaled ? vf_real(r, 0, 50) : point_y(r, 0);
  for (int i = 0; i < n - 1; i++) c[i] = curve ? vf_real(r, -1, 1) : 0;
  double sum = 0; s.x[0] = 0; for (int i = 1; i < n - 1; i++) { sum += dx[i - 1] * (double)length; s.x[i] = sum; } s.x[n - 1] = (double)length;
  for (int i = 0; i < n; i++) s.y[i] = scaled ? y[i] * scalar : i == 0 || i == n - 1 ? 0 : y[i - 1];
  memcpy(s.c, c, sizeof s.c); char w[80]; snprintf(w, sizeof w, "%s envelope of %d points%s", scaled ? "scaled" : "zero", n, curve ? " with curvature" : "");
  size_t ny = (size_t)(scaled ? n : n - 2); double *gx = dup_samples(dx, (size_t)n - 2), *gy = dup_samples(y, ny), *gc = dup_samples(c, (size_t)n - 1); sp_time_t l = (sp_time_t)length; double* out = 0; sp_time_t* tout = 0;
  vf_ledger_begin();
  if (scaled) {
    double* ref = 0; /* the path that the envelope is the rounded version of */
    if (ok(sp_path_samples(&ref, l, (sp_path_point_count_t)n, s.x + 1, s.y, curve ? s.c : 0), w) && expect(&s, ref, w)) {
      if (ok(sp_envelope_scaled(&tout, l, (sp_path_point_count_t)n, scalar, gx, gy, curve ? gc : 0), w) && owned(tout, length * 4, w)) { for (size_t i = 0; i < length; i++) { vf_eval(1); if (fabs(tout[i] - ref[i]) > .5 + 1e-6 * (1 + fabs(ref[i]))) { vf_fail(K("scaled"), "%s: index %zu of %zu is %u, expected %.12g rounded", w, i, length, tout[i], ref[i]); break; } } }
      free(tout); tout = 0; int f = n >= 3 && n <= 5; status_t e = {0}; if (f) switch (n + 10 * curve) { case 13: e = sp_envelope_scaled_c3(&tout, l, scalar, dx[0], y[0], y[1], y[2], c[0], c[1]); break; case 14: e = sp_envelope_scaled_c4(&tout, l, scalar, dx[0], dx[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]); break; case 15: e = sp_envelope_scaled_c5(&tout, l, scalar, dx[0], dx[1], dx[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]); break;
        case 3: e = sp_envelope_scaled3(&tout, l, scalar, dx[0], y[0], y[1], y[2]); break; case 4: e = sp_envelope_scaled4(&tout, l, scalar, dx[0], dx[1], y[0], y[1], y[2], y[3]); break; case 5: e = sp_envelope_scaled5(&tout, l, scalar, dx[0], dx[1], dx[2], y[0], y[1], y[2], y[3], y[4]); break; }
      if (f && ok(e, w) && owned(tout, length * 4, w)) { for (size_t i = 0; i < length; i++) { vf_eval(1); if (fabs(tout[i] - ref[i]) > .5 + 1e-6 * (1 + fabs(ref[i]))) { vf_fail(K("scaled"), "%s with fixed count: index %zu of %zu is %u, expected %.12g rounded", w, i, length, tout[i], ref[i]); break; } } vf_count("fixed point count functions", 1); }
      free(tout);
    }
    free(ref);
  } else {
    if (ok(sp_envelope_zero(&out, l, (sp_path_point_count_t)n, gx, gy, curve ? gc : 0), w) && owned(out, length * 8, w)) expect(&s, out, w);
    free(out); out = 0; int f = n >= 3 && n <= 5; status_t e = {0}; if (f) switch (n + 10 * curve) { case 3: e = sp_envelope_zero3(&out, l, dx[0], y[0]); break; case 4: e = sp_envelope_zero4(&out, l, dx[0], dx[1], y[0], y[1]); break; case 5: e = sp_envelope_zero5(&out, l, dx[0], dx[1], dx[2], y[0], y[1], y[2]); break;
      case 13: e = sp_envelope_zero_c3(&out, l, dx[0], y[0], c[0], c[1]); break; case 14: e = sp_envelope_zero_c4(&out, l, dx[0], dx[1], y[0], y[1], c[0], c[1], c[2]); break; case 15: e = sp_envelope_zero_c5(&out, l, dx[0], dx[1], dx[2], y[0], y[1], y[2], c[0], c[1], c[2], c[3]); break; }
    if (f && ok(e, w) && owned(out, length * 8, w)) { expect(&s, out, w); vf_count("fixed point count functions", 1); }
    free(out);
  }
  same_mem(K("input"), w, gx, dx, ((size_t)n - 2) * 8); same_mem(K("input"), w, gy, y, ny * 8); same_mem(K("input"), w, gc, c, ((size_t)n - 1) * 8);
  vf_ledger_end_empty(K("leak"), w); vf_sig(vf_hash(y, sizeof(double) * (size_t)n, length)); vf_count(scaled ? "scaled envelopes" : "zero envelopes", 1); if (ix < 2) vf_sample("%s, length %zu", w, length);
  vf_guarded_free(gx); vf_guarded_free(gy); vf_guarded_free(gc);
}
/* paths registered with events are freed with them */
static status_t event_paths(sp_event_t* e, int kind, double* sum) {
  status_declare; double* d = 0; sp_time_t* t = 0; double x[1] = {.5}, y[3] = {1, 3, 2};
  switch (kind) {
    case 0: sp_event_path_samples3_srq(e, &d, 100, 10, 0, 1, 10); *sum = d[10]; break;
    case 1: sp_event_path_samples4_srq(e, &d, 100, 10, 20, 0, 1, 10, 4); *sum = d[10]; break;
    case 2: sp_event_path_samples5_srq(e, &d, 100, 10, 20, 30, 0, 1, 10, 4, 2); *sum = d[10]; break;
    case 3: sp_event_path_samples_c3_srq(e, &d, 100, 10, 0, 1, 10, .5, .5); *sum = d[0] + 1; break;
    case 4: sp_event_path_times3_srq(e, &t, 100, 10, 0, 1, 10); *sum = t[10]; break;
    case 5: sp_event_path_times5_srq(e, &t, 100, 10, 20, 30, 0, 1, 10, 4, 2); *sum = t[10]; break;
    case 6: sp_event_envelope_zero3_srq(e, &d, 100, .1, 1); *sum = d[10]; break;
    case 7: sp_event_envelope_zero5_srq(e, &d, 100, .1, .1, .1, 1, 2, 3); *sum = d[10]; break;
    case 8: sp_event_envelope_scaled3_srq(e, &t, 100, 1, .1, 5, 1, 3); *sum = t[10]; break;
    case 9: sp_event_envelope_zero_srq(e, &d, 100, 3, x, y, 0); *sum = d[50]; break;
    default: sp_event_envelope_scaled_srq(e, &t, 100, 3, 1, x, y, 0); *sum = t[50] - 2; break;
  }
exit:
  status_return;
}
static void t_events(vf_rng* r, uint64_t ix) {
  vf_ledger_begin(); sp_event_t e; sp_event_reset(e); int k = 1 + (int)vf_below(r, 20); char w[60]; snprintf(w, sizeof w, "%d paths of an event", k);
  for (int i = 0; i < k; i++) { int kind = (int)vf_below(r, 11); double v = 0; if (!ok(event_paths(&e, kind, &v), w)) break; vf_eval(1); if (fabs(v - 1) > 1e-9) vf_fail(K("event"), "%s: kind %d has %g at the second point instead of 1", w, kind, v); vf_sig(vf_mix((uint64_t)k * 100 + (uint64_t)kind, (uint64_t)i)); }
  sp_event_memory_free(&e); vf_ledger_end_empty(K("leak"), w); vf_count("paths of events", (uint64_t)k); if (ix < 1) vf_sample("%s", w);
}
/* the point that bends arcs: on the perpendicular through the middle, inside the rectangle, on its border for the distances 1 and -1 */
static void t_point(vf_rng* r, uint64_t ix) {
  spline_path_point_t p, q; memset(&p, 0, sizeof p); memset(&q, 0, sizeof q); double sc = vf_chance(r, .5) ? 1 : vf_chance(r, .5) ? 1e6 : 1e-3; p.x = vf_real(r, -100, 100) * sc; p.y = vf_real(r, -100, 100); q.x = vf_real(r, -100, 100) * sc; q.y = vf_real(r, -100, 100); if (vf_chance(r, .1)) q.y = p.y; if (vf_chance(r, .1)) q.x = p.x; if (vf_chance(r, .3)) { p.x = round(p.x); p.y = round(p.y); q.x = round(q.x); q.y = round(q.y); }
  double d = vf_chance(r, .2) ? 0 : vf_chance(r, .3) ? (vf_chance(r, .5) ? 1 : -1) : vf_real(r, -1, 1), cx = (p.x + q.x) / 2, cy = (p.y + q.y) / 2, dx = fabs(q.x - p.x) / 2, dy = fabs(q.y - p.y) / 2, tol = 1e-9 * (1 + fabs(cx) + fabs(cy) + dx + dy);
  spline_path_point_t a = spline_path_perpendicular_point(p, q, d), b = spline_path_perpendicular_point(p, q, -d), e = spline_path_perpendicular_point(q, p, d); double ax = a.x - cx, ay = a.y - cy; vf_eval(4); char w[160]; snprintf(w, sizeof w, "(%.9g %.9g) to (%.9g %.9g), distance %.9g: (%.9g %.9g)", p.x, p.y, q.x, q.y, d, a.x, a.y);
  if (!(fabs(ax) <= dx + tol && fabs(ay) <= dy + tol)) vf_fail(K("perpendicular"), "%s is outside of the rectangle", w);
  if (!(fabs(ax * (q.x - p.x) + ay * (q.y - p.y)) <= 1e-9 * (dx + dy) * (dx + dy) + tol * (dx + dy))) vf_fail(K("perpendicular"), "%s is not on the perpendicular", w);
  /* the nearer border of the rectangle times the distance */
  double k = dx > 0 && dy > 0 ? (dy / dx < dx / dy ? dy / dx : dx / dy) : 0, want = (dx < dy ? dx : dy) * fabs(d); if (!k) want = 0; double reach = dx < dy ? fabs(ax) : fabs(ay); if (!(fabs(reach - want) <= tol)) vf_fail(K("perpendicular"), "%s reaches %.9g of %.9g to the border", w, reach, want);
  if (!(fabs(b.x - cx + ax) <= tol && fabs(b.y - cy + ay) <= tol)) vf_fail(K("perpendicular"), "%s is not opposite to the point for the negative distance, (%.9g %.9g)", w, b.x, b.y);
  if (!(fabs(fabs(e.x - cx) - fabs(ax)) <= tol && fabs(fabs(e.y - cy) - fabs(ay)) <= tol)) vf_fail(K("perpendicular"), "%s differs for exchanged points, (%.9g %.9g)", w, e.x, e.y);
  vf_count("perpendicular points", 1); vf_sig(vf_hash(&a, sizeof a, 3)); (void)ix;
}
vf_suite vf_suites[] = {{"point", t_point, 6000, 200000}, {"paths", t_paths, 12000, 400000}, {"opposite", t_opposite, 3000, 100000}, {"envelopes", t_envelopes, 8000, 300000}, {"events", t_events, 400, 4000}, {0}};
