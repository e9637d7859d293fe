/* P02: sections of spline paths equal slices of the whole path */
#include "gen.h"
void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_value_t* out);
#define K(f) "P02:" f
#define FILL 91827.5
void vf_setup(void) {}
spline_path_segment_t spline_path_bezier_arc(spline_path_value_t x, spline_path_value_t y, spline_path_value_t curvature);
enum { MOVE, LINE, CONSTANT, BEZIER1, BEZIER2, PATH, ARC, KINDS };
static const char* kinds[] = {"move", "line", "constant", "bezier1", "bezier2", "path", "arc"};
typedef struct pth pth;
typedef struct { int kind; double x[4], y[4]; int points; pth* sub; int loose; } seg;
struct pth { seg s[12]; int n; spline_path_segment_t segments[12]; spline_path_t path; double end_x, end_y; int set; };
static int huge;
static double value(vf_rng* r) { return vf_chance(r, .3) ? (double)vf_range(r, -5, 5) : vf_real(r, -100, 100); }
static double bez(const double* p, int n, double t) { double m = 1 - t; return n == 3 ? p[0] * m * m + 2 * p[1] * m * t + p[2] * t * t : p[0] * m * m * m + 3 * p[1] * m * m * t + 3 * p[2] * m * t * t + p[3] * t * t * t; }
/* a random path. integral: the end is at an integer */
static pth* path_new(vf_rng* r, int depth, int integral, int loose) {
  pth* p = vf_calloc(sizeof *p); int n = 1 + (int)vf_below(r, depth ? 4 : 10), fractional = vf_chance(r, .3); double x = 0, y = 0;
  for (int i = 0; i < n; i++) {
    seg* s = p->s + i; s->x[0] = x; s->y[0] = y; int last = i == n - 1;
    s->kind = (int)vf_below(r, KINDS); if (s->kind == CONSTANT && (!last || vf_chance(r, .3))) s->kind = LINE; if (s->kind == PATH && (depth >= 2 || x != floor(x) || vf_chance(r, .5))) s->kind = BEZIER2;
    double len = vf_chance(r, .1) ? 0 : vf_chance(r, .2) ? (double)vf_range(r, 1, 3) : (double)vf_size(r, 1, depth ? 20 : 90); if (huge && vf_chance(r, .6)) len = (double)vf_range(r, 20000, 140000); if (fractional && !(integral && last)) len += vf_unit(r); if (integral && last) len = ceil(x + len) - x;
    double nx = x + len, ny = value(r); s->points = 2;
    switch (s->kind) {
      case MOVE: case LINE: s->x[1] = nx; s->y[1] = ny; p->segments[i] = s->kind == MOVE ? spline_path_move(nx, ny) : spline_path_line(nx, ny); break;
      case CONSTANT: s->x[1] = nx = x; s->y[1] = ny = y; p->segments[i] = spline_path_constant(); break;
      case BEZIER1: s->points = 3; s->x[1] = vf_real(r, x, nx); s->y[1] = value(r); s->x[2] = nx; s->y[2] = ny; if (loose && vf_chance(r, .5)) { s->loose = 1; s->x[1] = vf_real(r, x - 20, nx + 20); if (s->x[1] < 0) s->x[1] = 0; } p->segments[i] = spline_path_bezier1(s->x[1], s->y[1], nx, ny); break;
      case BEZIER2: s->points = 4; s->x[1] = vf_real(r, x, nx); s->y[1] = value(r); s->x[2] = vf_real(r, x, nx); s->y[2] = value(r); s->x[3] = nx; s->y[3] = ny; if (loose && vf_chance(r, .5)) { s->loose = 1; s->x[2] = vf_real(r, x - 20, nx + 20); } p->segments[i] = spline_path_bezier2(s->x[1], s->y[1], s->x[2], s->y[2], nx, ny); break;
      case ARC: { double c = vf_chance(r, .2) ? 0 : vf_chance(r, .2) ? (vf_chance(r, .5) ? 1 : -1) : vf_real(r, -1, 1), dx = nx - x, dy = ny - y; p->segments[i] = spline_path_bezier_arc(nx, ny, c); s->points = 3; s->x[1] = (x + nx) / 2; s->y[1] = (y + ny) / 2; s->x[2] = nx; s->y[2] = ny;
        if (c == 0) { s->kind = LINE; s->points = 2; s->x[1] = nx; s->y[1] = ny; } else if (dx != 0 && dy != 0) { double a = dx / (2 * fabs(dy)), b = fabs(dy) / (2 * dx), m = a < b ? a : b; s->x[1] += c * m * fabs(dy); s->y[1] -= (dy > 0 ? 1 : -1) * c * m * dx; } break; }
      case PATH: s->sub = path_new(r, depth + 1, 1, loose); s->x[1] = nx = x + s->sub->end_x; s->y[1] = ny = s->sub->end_y; if (spline_path_set(&s->sub->path, s->sub->segments, (spline_path_segment_count_t)s->sub->n)) vf_fail(K("set"), "setting a path failed"); p->segments[i] = spline_path_path(s->sub->path); break;
    }
    x = nx; y = ny; p->n++;
  }
  p->end_x = x; p->end_y = y; return p;
}
static void path_del(pth* p, int top) { for (int i = 0; i < p->n; i++) if (p->s[i].sub) path_del(p->s[i].sub, 0); if (!top) spline_path_free(p->path); vf_free(p); }
/* bounds of the value at index x of the whole path. returns 0 if nothing is drawn there */
static int bounds(pth* p, size_t x, double* lo, double* hi, double* tol, const char** kind, int* free_form) {
  for (int i = 0; i < p->n; i++) {
    seg* s = p->s + i; int e = s->points - 1; if (s->kind != CONSTANT && (x < (size_t)s->x[0] || x >= (size_t)s->x[e])) continue; if (s->kind == CONSTANT && x < (size_t)s->x[0]) continue;
    *kind = kinds[s->kind]; *tol = 1e-9; double len = s->x[e] - s->x[0]; int whole = s->x[0] == floor(s->x[0]) && s->x[e] == floor(s->x[e]);
    switch (s->kind) {
      case MOVE: *lo = *hi = 0; return 1;
      case CONSTANT: *lo = *hi = s->y[0]; return 1;
      case LINE: *lo = *hi = s->y[0] + (s->y[1] - s->y[0]) * ((double)x - s->x[0]) / len; *tol = 1e-9 * (1 + fabs(*lo)); if (!whole) *tol += fabs(s->y[1] - s->y[0]) / (len < 1 ? 1 : len) + (len < 1 ? fabs(s->y[1] - s->y[0]) / len : 0); return 1;
      case PATH: return bounds(s->sub, x - (size_t)s->x[0], lo, hi, tol, kind, free_form);
      default: {
        if (s->loose) *free_form = 1;
        *tol = 1e-6; *lo = 1e300; *hi = -1e300; int steps = (int)(len * 8) + 64; if (steps > 30000) steps = 30000; double px = 0, py = 0;
        for (int k = 0; k <= steps; k++) { double t = (double)k / steps, bx = bez(s->x, s->points, t), by = bez(s->y, s->points, t); double a = bx < px ? bx : px, b = bx < px ? px : bx;
          if (k && b >= (double)x - 1.7 && a <= (double)x + 1.7) { double u = by < py ? by : py, v = by < py ? py : by; if (u < *lo) *lo = u; if (v > *hi) *hi = v; if ((v - u) / 2 > *tol) *tol = (v - u) / 2; }
          px = bx; py = by; }
        return 1; }
    }
  }
  return 0;
}
static void sections(vf_rng* r, uint64_t ix) {
  vf_ledger_begin(); int loose = vf_chance(r, .1); pth* p = path_new(r, 0, 0, loose); int how = (int)vf_below(r, 3); spline_path_t path, *q = &path; uint8_t e = 0;
  int open_end = p->s[p->n - 1].kind == CONSTANT; size_t size = (size_t)p->end_x + 1 + vf_below(r, 20), got; double* whole = out_samples(size);
  for (size_t i = 0; i < size; i++) whole[i] = FILL;
  if (how == 2) { e = spline_path_set_copy(q, p->segments, (spline_path_segment_count_t)p->n); memset(p->segments, 0x55, sizeof p->segments); } else e = spline_path_set(q, p->segments, (spline_path_segment_count_t)p->n);
  vf_eval(1); if (e) vf_fail(K("set"), "setting the path returned %d", e);
  got = spline_path_size(path); spline_path_point_t a = spline_path_start(path), b = spline_path_end(path); vf_eval(3); if (got != (size_t)p->end_x) vf_fail(K("size"), "size is %zu, expected %.12g", got, p->end_x); if (a.x != 0 || a.y != 0 || fabs(b.x - p->end_x) > 1e-9 || fabs(b.y - p->end_y) > 1e-9) vf_fail(K("ends"), "path from (%g %g) to (%g %g), expected end (%g %g)", a.x, a.y, b.x, b.y, p->end_x, p->end_y);
  char what[100]; int w = 0; for (int i = 0; i < p->n && w < 80; i++) w += snprintf(what + w, sizeof what - (size_t)w, "%s%s", i ? " " : "", kinds[p->s[i].kind]);
  spline_path_get(q, 0, size, whole); guards_ok(K("range"), what, whole);
  for (size_t i = 0, step = 1; i < size; i += step) { if (huge) { int kd = -1; for (int g = 0; g < p->n; g++) if (i >= (size_t)p->s[g].x[0] && i < (size_t)p->s[g].x[p->s[g].points - 1]) kd = p->s[g].kind; step = kd == BEZIER1 || kd == BEZIER2 || kd == ARC || kd == PATH ? 1 + vf_below(r, 6000) : 1 + vf_below(r, 20); } double lo = 0, hi = 0, tol = 0; const char* kind = ""; int ff = 0, drawn = bounds(p, i, &lo, &hi, &tol, &kind, &ff); vf_eval(1);
    if (!drawn) { if (whole[i] != FILL) { vf_fail(K("after-end"), "%s: index %zu after the end (%.9g) was written", what, i, p->end_x); break; } }
    else if (!ff && !(whole[i] >= lo - tol && whole[i] <= hi + tol)) { char key[40]; snprintf(key, sizeof key, "P02:%s", kind); vf_fail(key, "%s: index %zu is %.12g, expected %.12g..%.12g", what, i, whole[i], lo, hi); break; } }
  if (how == 1 && !vf_chance(r, .5)) { /* directly from segments */ for (int i = 0; i < p->n; i++) if (p->s[i].sub) goto skip; size_t s0 = vf_below(r, size), s1 = s0 + vf_below(r, size - s0 + 1); double* o = out_samples(s1 - s0); for (size_t i = 0; i < s1 - s0; i++) o[i] = FILL; vf_eval(1); if (spline_path_segments_get(p->segments, (spline_path_segment_count_t)p->n, s0, s1, o)) vf_fail(K("set"), "segments_get failed"); guards_ok(K("range"), what, o); eq_samples(K("segments-get"), what, o, whole + s0, s1 - s0, 1e-9); vf_guarded_free(o); }
  skip:;
  /* sections: forward blocks, then any order */
  int queries = 3 + (int)vf_below(r, 12), mode = (int)vf_below(r, 3); size_t at = 0;
  for (int k = 0; k < queries && !vf_failed_in_case(); k++) {
    size_t s0, s1; if (mode == 0) { s0 = at; s1 = at + 1 + vf_below(r, size / 3 + 1); at = s1; if (at >= size) at = 0; } else { s0 = vf_below(r, size); s1 = s0 + (vf_chance(r, .1) ? 0 : vf_chance(r, .3) ? 1 : vf_below(r, size - s0 + 1)); if (mode == 2 && k % 2) { s0 = 0; s1 = size; } }
    if (s1 > size) s1 = size; double* o = out_samples(s1 - s0); for (size_t i = 0; i < s1 - s0; i++) o[i] = FILL;
    spline_path_get(q, s0, s1, o); guards_ok(K("range"), what, o); vf_eval(s1 - s0);
    for (size_t i = 0; i < s1 - s0; i++) if (!vf_near(o[i], whole[s0 + i], 1e-9)) { vf_fail(K("section"), "%s: section %zu..%zu, query %d: index %zu is %.12g, in the whole path %.12g", what, s0, s1, k, i, o[i], whole[s0 + i]); break; }
    vf_guarded_free(o); vf_count(mode == 0 ? "forward sections" : "sections in any order", 1);
  }
  for (int i = 0; i < p->n; i++) vf_count(kinds[p->s[i].kind], 1);
  if (open_end) vf_count("paths with an open end", 1);
  vf_sig(vf_hash(whole, size * 8, 0)); if (ix < 3) vf_sample("%s, size %zu, %d queries", what, size, queries);
  spline_path_free(path); if (how == 2) free(path.segments); path_del(p, 1); vf_ledger_end_empty(K("leak"), what); vf_guarded_free(whole);
}
static void t_sections(vf_rng* r, uint64_t ix) { huge = 0; sections(r, ix); }
/* positions beyond 16 bits */
static void t_long(vf_rng* r, uint64_t ix) { huge = 1; sections(r, ix); vf_count("long paths", 1); }
/* positions beyond 24 and 32 bits: windows of paths that are far too long to be drawn as a whole */
static void t_far(vf_rng* r, uint64_t ix) {
  vf_ledger_begin(); pth p, sub; memset(&p, 0, sizeof p); memset(&sub, 0, sizeof sub); double x = 0, y = 0; static const double lens[] = {1, 300, 70000, 16777216, 20000000, 2147483648.0, 4294967296.0, 5e9}; int n = 1 + (int)vf_below(r, 8);
  for (int i = 0; i < n; i++) {
    seg* s = p.s + i; s->points = 2; s->x[0] = x; s->y[0] = y; double nx = x + lens[vf_below(r, 8)] - 1 + (double)vf_below(r, 300), ny = value(r); int k = (int)vf_below(r, 5);
    if (k == 0) { s->kind = MOVE; p.segments[i] = spline_path_move(nx, ny); }
    else if (k == 1 && i == n - 1) { s->kind = CONSTANT; nx = x; ny = y; p.segments[i] = spline_path_constant(); }
    else if (k == 2 && !sub.n) { s->kind = PATH; s->sub = &sub; sub.n = 2; double m = 1 + lens[vf_below(r, 8)]; sub.s[0] = (seg){.kind = LINE, .points = 2, .x = {0, m}, .y = {0, value(r)}}; sub.s[1] = (seg){.kind = LINE, .points = 2, .x = {m, m + lens[vf_below(r, 8)]}, .y = {sub.s[0].y[1], value(r)}}; for (int q = 0; q < 2; q++) sub.segments[q] = spline_path_line(sub.s[q].x[1], sub.s[q].y[1]); sub.end_x = sub.s[1].x[1]; if (spline_path_set(&sub.path, sub.segments, 2)) vf_fail(K("set"), "setting a path failed"); nx = x + sub.end_x; ny = sub.s[1].y[1]; p.segments[i] = spline_path_path(sub.path); }
    else { s->kind = LINE; p.segments[i] = spline_path_line(nx, ny); }
    s->x[1] = nx; s->y[1] = ny; x = nx; y = ny; p.n++;
  }
  p.end_x = x; p.end_y = y; spline_path_t path; vf_eval(3); if (spline_path_set(&path, p.segments, (spline_path_segment_count_t)n)) vf_fail(K("set"), "setting the path failed");
  spline_path_point_t b = spline_path_end(path); if (spline_path_size(path) != (size_t)x || b.x != x || b.y != y) vf_fail(K("size"), "size is %zu, expected %.12g, end (%.12g %.12g), expected %.12g", spline_path_size(path), x, b.x, b.y, y);
  for (int k = 0; k < 6 && !vf_failed_in_case(); k++) {
    size_t w = 1 + vf_below(r, 200), at; seg* s = p.s + vf_below(r, (uint64_t)n); at = (size_t)(vf_chance(r, .5) ? s->x[0] : vf_chance(r, .5) ? s->x[1] : s->x[0] + vf_unit(r) * (s->x[1] - s->x[0])); if (vf_chance(r, .5)) { size_t d = vf_below(r, w + 1); at = at > d ? at - d : 0; }
    double* o = out_samples(w); for (size_t i = 0; i < w; i++) o[i] = FILL; spline_path_get(&path, at, at + w, o); guards_ok(K("range"), "far window", o);
    for (size_t i = 0; i < w; i++) { double lo = 0, hi = 0, tol = 0; const char* kind = ""; int ff = 0, drawn = bounds(&p, at + i, &lo, &hi, &tol, &kind, &ff); vf_eval(1); tol = 3e-13 * (1 + fabs(lo) + 200); if (drawn ? !(o[i] >= lo - tol && o[i] <= hi + tol) : o[i] != FILL) { char key[40]; snprintf(key, sizeof key, "P02:%s", drawn ? kind : "after-end"); vf_fail(key, "window %zu..%zu of a path of length %.12g: index %zu is %.17g, expected %.17g", at, at + w, x, at + i, o[i], drawn ? lo : FILL); break; } }
    if (at > 0xffffffffu) vf_count("windows beyond 32 bits", 1); vf_sig(vf_hash(o, w * 8, at)); vf_guarded_free(o);
  }
  vf_count("far paths", 1); if (ix < 2) vf_sample("path of %d segments and length %.12g", n, x); spline_path_free(path); vf_ledger_end_empty(K("leak"), "far path");
}
/* segments with functions of the user, that can fail to be prepared, and more segments than 8 bits count */
typedef struct { int id, prepared, freed, fails, points; double x0, x1, y0, y1; } own_t;
static own_t own[700]; static int own_n; static size_t own_drawn;
static uint8_t own_prepare(spline_path_segment_t* s) {
  own_t* o = s->data; if (o < own || o >= own + own_n) { vf_fail(K("custom"), "preparing: the data of the segment is not passed"); return 9; }
  if (!o->prepared++ && (s->points[0].x != o->x0 || s->points[0].y != o->y0)) vf_fail(K("custom"), "segment %d is prepared starting at (%g %g), expected (%g %g)", o->id, s->points[0].x, s->points[0].y, o->x0, o->y0);
  s->points[o->points - 1].x = o->x1; s->points[o->points - 1].y = o->y1; return (uint8_t)o->fails;
}
static void own_generate(size_t start, size_t end, spline_path_segment_t* s, spline_path_value_t* out) {
  own_t* o = s->data; if (o < own || o >= own + own_n) { vf_fail(K("custom"), "generating: the data of the segment is not passed"); return; }
  if (o->freed) vf_fail(K("custom"), "segment %d is used after it was freed", o->id);
  if (start < (size_t)o->x0 || end > (size_t)o->x1 || start > end) { vf_fail(K("custom"), "segment %d from %g to %g is asked for %zu..%zu", o->id, o->x0, o->x1, start, end); return; }
  for (size_t i = start; i < end; i++) out[i - start] = (double)o->id * 1e7 + (double)i; own_drawn += end - start;
}
static void own_free(void* p) { own_t* o = p; if (o < own || o >= own + own_n) { vf_fail(K("custom"), "freeing: other data"); return; } o->freed++; }
static void t_custom(vf_rng* r, uint64_t ix) {
  static char w[120]; spline_path_segment_t s[700]; int many = vf_chance(r, .03); own_n = many ? 250 + (int)vf_below(r, 450) : 1 + (int)vf_below(r, 8); double x = 0, y = 0; int how = (int)vf_below(r, 3), fail = vf_chance(r, .25) ? (int)vf_below(r, (uint64_t)own_n) : -1; memset(s, 0, sizeof s);
  for (int i = 0; i < own_n; i++) { own_t* o = own + i; o->id = i; o->prepared = o->freed = 0; o->fails = i == fail ? 1 + (int)vf_below(r, 255) : 0; o->points = 2 + (int)vf_below(r, 3); o->x0 = x; o->y0 = y; o->x1 = x += (double)vf_below(r, many ? 4 : 60); o->y1 = y = (double)vf_range(r, -9, 9); s[i].points_count = (uint8_t)o->points; s[i].generate = own_generate; s[i].prepare = own_prepare; s[i].free = own_free; s[i].data = o; if (vf_chance(r, .2)) { s[i].prepare = o->fails ? own_prepare : 0; s[i].points[o->points - 1].x = x; s[i].points[o->points - 1].y = y; } }
  snprintf(w, sizeof w, "%d segments of the user, length %g%s%s", own_n, x, how == 1 ? ", copied" : how == 2 ? ", drawn directly" : "", fail >= 0 ? ", one can not be prepared" : ""); vf_ledger_begin();
  size_t size = (size_t)x + vf_below(r, 5); spline_path_t path; memset(&path, 0x33, sizeof path); int e; vf_eval(3); own_drawn = 0;
  size_t s0 = vf_below(r, size + 1), s1 = s0 + vf_below(r, size - s0 + 1); double* out = out_samples(size); for (size_t i = 0; i < size; i++) out[i] = FILL;
  if (how == 2) e = spline_path_segments_get(s, (spline_path_segment_count_t)own_n, s0, s1, out); else e = how ? spline_path_set_copy(&path, s, (spline_path_segment_count_t)own_n) : spline_path_set(&path, s, (spline_path_segment_count_t)own_n);
  if ((fail >= 0) != (e != 0)) vf_fail(K("custom-status"), "%s: status %d", w, e);
  for (int i = 0; i < own_n; i++) { int expect = fail >= 0 && i > fail ? 0 : s[i].prepare == own_prepare; vf_eval(1); if (own[i].prepared != expect) { vf_fail(K("custom"), "%s: segment %d was prepared %d times, expected %d", w, i, own[i].prepared, expect); break; } }
  if (fail < 0 && !e) {
    for (int k = 0; k < 8 && !vf_failed_in_case(); k++) {
      if (how < 2) { s0 = k ? vf_below(r, size + 1) : 0; s1 = k ? s0 + vf_below(r, size - s0 + 1) : size; for (size_t i = 0; i < size; i++) out[i] = FILL; own_drawn = 0; if (how == 1 && !k) memset(s, 0x44, sizeof s); spline_path_get(&path, s0, s1, out); }
      guards_ok(K("range"), w, out); size_t expected = 0;
      for (size_t i = 0, g = 0; i < size; i++) { double v = FILL; if (i < s1 - s0 && (double)(s0 + i) < x) { while (own[g].x1 <= (double)(s0 + i)) g++; v = (double)g * 1e7 + (double)(s0 + i); expected++; } vf_eval(1); if (out[i] != v) { vf_fail(K("custom-range"), "%s: section %zu..%zu: index %zu is %.12g, expected %.12g", w, s0, s1, i, out[i], v); break; } }
      if (own_drawn != expected) vf_fail(K("custom-range"), "%s: section %zu..%zu: %zu values were drawn", w, s0, s1, own_drawn); vf_count("sections of custom segments", 1); if (how == 2) break;
    }
    if (how < 2) spline_path_free(path); for (int i = 0; i < own_n; i++) if (own[i].freed != 1) { vf_fail(K("custom-free"), "%s: segment %d was freed %d times", w, i, own[i].freed); break; }
    if (how == 1) free(path.segments);
  } else { for (size_t i = 0; i < size; i++) if (out[i] != FILL) { vf_fail(K("custom-range"), "%s: drawn", w); break; } vf_count("failing preparations", 1); }
  vf_guarded_free(out); vf_ledger_end_empty(K("leak"), w); vf_count(many ? "paths of more than 249 segments" : "custom paths", 1); vf_sig(vf_mix(vf_mix((uint64_t)own_n, (uint64_t)x), (uint64_t)(fail + 1) * 3 + (uint64_t)how)); if (ix < 3) vf_sample("%s", w);
}
vf_suite vf_suites[] = {{"custom", t_custom, 3000, 60000}, {"far", t_far, 3000, 60000}, {"sections", t_sections, 20000, 600000}, {"long", t_long, 60, 2000}, {0}};
