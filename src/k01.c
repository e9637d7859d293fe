/* K01: growable arrays, registers and queues hold exactly what was put into them */
#include "gen.h"
#include <sph-sp/queue.h>
#define K(f) "K01:" f
void vf_setup(void) {}

/* ---- arrays with a used length, compared with a model after every operation */
typedef struct { uint64_t a; double b; uint8_t c; } wide_t;
static int custom_allocs;
static void* custom_malloc(size_t n) { custom_allocs++; return malloc(n); }
static void* custom_realloc(void* p, size_t n) { custom_allocs++; return realloc(p, n); }
array3_declare_type(k_bytes, uint8_t)
array3_declare_type(k_times, uint32_t)
array3_declare_type(k_wides, wide_t)
array3_declare_type_custom(k_custom, double, custom_malloc, custom_realloc)
typedef struct { uint64_t v[400]; size_t size, used; } model_t;
static uint8_t make_byte(uint64_t x) { return (uint8_t)x; }
static uint32_t make_time(uint64_t x) { return (uint32_t)x; }
static wide_t make_wide(uint64_t x) { wide_t w; memset(&w, 0, sizeof w); w.a = x; w.b = (double)(x % 1000003); w.c = (uint8_t)(x >> 7); return w; }
static double make_double(uint64_t x) { return (double)(x % 1000003) / 8; }
static int same_byte(uint8_t a, uint64_t x) { return a == (uint8_t)x; }
static int same_time(uint32_t a, uint64_t x) { return a == (uint32_t)x; }
static int same_wide(wide_t a, uint64_t x) { wide_t w = make_wide(x); return a.a == w.a && a.b == w.b && a.c == w.c; }
static int same_double(double a, uint64_t x) { return a == make_double(x); }
#define DEFINE_ARRAY(NAME, TYPE, MAKE, SAME, CUSTOM) \
static int NAME##_check(NAME##_t* a, model_t* m, const char* w) { \
  vf_eval(7 + m->used); \
  if (a->size != m->size || a->used != m->used || array3_size((*a)) != m->used || array3_max_size((*a)) != m->size || array3_unused_size((*a)) != m->size - m->used) { vf_fail(K("length"), "%s: length %zu of %zu, expected %zu of %zu", w, a->used, a->size, m->used, m->size); return 0; } \
  if (!!(array3_full((*a))) != (m->used == m->size) || !!(array3_not_full((*a))) != (m->used < m->size)) { vf_fail(K("full"), "%s: %zu of %zu used is not seen as %s", w, m->used, m->size, m->used == m->size ? "full" : "not full"); return 0; } \
  if (m->size && !vf_ledger_owns_range(a->data, m->size * sizeof(TYPE))) { vf_fail(K("memory"), "%s: no memory of %zu elements", w, m->size); return 0; } \
  for (size_t i = 0; i < m->used; i++) if (!SAME(array3_get((*a), i), m->v[i])) { vf_fail(K("content"), "%s: element %zu of %zu changed", w, i, m->used); return 0; } \
  return 1; \
} \
static void NAME##_case(vf_rng* r, uint64_t ix) { \
  NAME##_t store, other, *a = &store; model_t m; memset(&m, 0, sizeof m); char w[100]; snprintf(w, sizeof w, #NAME " %llu", (unsigned long long)ix); memset(a, 0xab, sizeof *a); uint64_t sig = 1; int allocs = 0; custom_allocs = 0; \
  vf_ledger_begin(); size_t n = 1 + (size_t)vf_size(r, 0, 60); \
  if (vf_chance(r, .2)) { vf_fault_at(0); uint8_t e = NAME##_new(n, a); vf_fault_at(-1); vf_eval(1); allocs++; if (!e) vf_fail(K("fault"), "%s: no error after a failed allocation", w); vf_count("failed allocations", 1); } \
  allocs++; vf_eval(1); if (NAME##_new(n, a)) { vf_fail(K("status"), "%s: new array of %zu", w, n); vf_ledger_end(); return; } m.size = n; \
  for (int step = 0, steps = 20 + (int)vf_below(r, 120); step < steps && NAME##_check(a, &m, w); step++) { \
    uint64_t x = vf_u64(r), k = vf_below(r, 20); sig = vf_mix(sig, k); vf_count("operations on arrays", 1); \
    if (k < 9) { if (array3_not_full((*a))) { array3_add((*a), MAKE(x)); m.v[m.used++] = x; } } \
    else if (k < 12) { if (m.used) { array3_remove((*a)); m.used--; } } \
    else if (k < 14) { if (m.used) { size_t i = vf_below(r, m.used); array3_get((*a), i) = MAKE(x); m.v[i] = x; } } \
    else if (k < 18) { \
      size_t to = vf_chance(r, .3) ? m.used + !m.used : 1 + vf_below(r, vf_chance(r, .1) ? 400 : 2 * m.size > 400 ? 400 : 2 * m.size); int fault = vf_chance(r, .2); if (fault) vf_fault_at(0); uint8_t e = NAME##_resize(a, to); vf_fault_at(-1); allocs++; vf_eval(1); \
      if (!!e != fault) { vf_fail(K("fault"), "%s: resizing to %zu returns %d%s", w, to, e, fault ? " after a failed allocation" : ""); break; } \
      if (fault) vf_count("failed allocations", 1); else { m.size = to; if (m.used > to) { m.used = to; vf_count("arrays cut", 1); } } \
    } \
    else if (k == 18) { if (vf_chance(r, .3)) { array3_clear((*a)); m.used = 0; } else { /* all of the memory can be used */ while (array3_not_full((*a))) { uint64_t y = vf_u64(r); array3_add((*a), MAKE(y)); m.v[m.used++] = y; } vf_eval(1); if (!SAME(array3_data_last((*a)), m.v[m.size - 1])) vf_fail(K("last"), "%s: last element of %zu", w, m.size); } } \
    else { /* handed over to another */ NAME##_t* b = a == &store ? &other : &store; { __typeof__(a->data) data = a->data; size_t size = a->size, used = a->used; array3_take(b, data, size, used); } array3_set_null((*a)); vf_eval(1); if (a->data || a->size || a->used) vf_fail(K("null"), "%s: not empty after reset", w); a = b; vf_count("arrays handed over", 1); } \
  } \
  if (CUSTOM && custom_allocs != allocs) vf_fail(K("custom"), "%s: %d calls of the allocator of the type, expected %d", w, custom_allocs, allocs); \
  array3_free((*a)); if (vf_ledger_bad_frees()) vf_fail(K("free"), "%s: freed more than once", w); vf_ledger_end_empty(K("leak"), w); vf_sig(vf_mix(sig, n)); if (ix < 2) vf_sample("%s: %zu of %zu elements at the end", w, m.used, m.size); \
}
DEFINE_ARRAY(k_bytes, uint8_t, make_byte, same_byte, 0)
DEFINE_ARRAY(k_times, uint32_t, make_time, same_time, 0)
DEFINE_ARRAY(k_wides, wide_t, make_wide, same_wide, 0)
DEFINE_ARRAY(k_custom, double, make_double, same_double, 1)
static void t_arrays(vf_rng* r, uint64_t ix) {
  switch (ix % 4) { case 0: k_bytes_case(r, ix); break; case 1: k_times_case(r, ix); break; case 2: k_wides_case(r, ix); break; default: k_custom_case(r, ix); }
  /* declared ones */
  array3_declare(null, k_wides_t); vf_eval(1); if (null.data || null.size || null.used) vf_fail(K("null"), "a declared array is not empty");
  array3_declare_stack(local, 7, k_times_t, uint32_t); array3_clear(local); size_t n = 0; uint32_t v[7]; while (array3_not_full(local) && n < 8) { uint32_t x = (uint32_t)vf_u64(r); if (n < 7) v[n] = x; array3_add(local, x); n++; } vf_eval(2);
  if (n != 7 || local.used != 7) vf_fail(K("stack"), "an array of 7 on the stack takes %zu", n); else if (memcmp(local_data, v, sizeof v) || array3_data_last(local) != v[6]) vf_fail(K("stack"), "content of an array on the stack");
}

/* ---- registers of memory */
static int handled[60]; static int handler_order[64], handler_n;
static void handler_a(void* p) { int i = (int)((int*)p - handled); vf_eval(1); if (i < 0 || i >= 60) { vf_fail(K("handler"), "a handler was called with another address"); return; } handled[i]++; if (handler_n < 64) handler_order[handler_n++] = i; }
static void handler_b(void* p) { int i = (int)((int*)p - handled); vf_eval(1); if (i < 0 || i >= 60) { vf_fail(K("handler"), "a handler was called with another address"); return; } handled[i] += 100; if (handler_n < 64) handler_order[handler_n++] = i; }
#define LIMIT(r, n) (vf_chance(r, .3) ? (n) : vf_below(r, (n) + 1))
static void t_registers(vf_rng* r, uint64_t ix) {
  double q = vf_unit(r); size_t size = q < .004 ? 65500 + vf_below(r, 1500) : q < .05 ? 250 + vf_below(r, 300) : 1 + vf_below(r, 30), na = LIMIT(r, size), nb = LIMIT(r, size), nc = LIMIT(r, size), nd = LIMIT(r, size); char w[120]; snprintf(w, sizeof w, "registers of %zu with %zu, %zu, %zu and %zu", size, na, nb, nc, nd);
  memset(handled, 0, sizeof handled); handler_n = 0; int kind[60] = {0}; vf_ledger_begin();
  memreg_init(size); memreg_init_named(second, size); memreg2_init_named(third, size); memreg2_init_named(fourth, size); vf_eval(4);
  size_t a = 0, b = 0, c = 0, d = 0; int at = 0; void* p;
  while (a < na || b < nb || c < nc || d < nd) {
    switch (vf_below(r, 4)) {
      case 0: if (a < na) { p = malloc(1 + vf_below(r, 50)); memreg_add(p); a++; } break;
      case 1: if (b < nb) { p = malloc(1 + vf_below(r, 50)); memreg_add_named(second, p); b++; } break;
      case 2: if (c < nc) { if (vf_chance(r, .5)) { p = malloc(8); memreg2_add_named(third, p, free); } else if (at < 60) { int q = 1 + (int)vf_below(r, 2); memreg2_add_named(third, handled + at, q == 1 ? handler_a : handler_b); kind[at++] = q; } else { memreg2_add_named(third, 0, free); } c++; } break;
      default: if (d < nd) { if (at < 60) { memreg2_add_named(fourth, handled + at, handler_a); kind[at++] = 3; } else { memreg2_add_named(fourth, 0, free); } d++; }
    }
  }
  if (memreg_index != na || memreg_index_second != nb) vf_fail(K("count"), "%s: %u and %u registered", w, memreg_index, memreg_index_second);
  int64_t live = vf_ledger_live(); memreg_free; vf_eval(2); if (vf_ledger_live() != live - (int64_t)na) vf_fail(K("register"), "%s: freeing the first leaves %lld of %lld", w, (long long)vf_ledger_live(), (long long)live); if (handler_n) vf_fail(K("handler"), "%s: handler of another register called", w);
  memreg2_free_named(fourth); for (int i = 0; i < at; i++) { vf_eval(1); if (handled[i] != (kind[i] == 3)) { vf_fail(K("handler"), "%s: after freeing one register handler %d was called %d times", w, i, handled[i]); break; } }
  memreg2_free_named(third); for (int i = 0; i < at; i++) { vf_eval(1); if (handled[i] != (kind[i] == 2 ? 100 : 1)) { vf_fail(K("handler"), "%s: handler %d was called %d times", w, i, handled[i]); break; } }
  memreg_free_named(second); vf_eval(1); if (vf_ledger_bad_frees()) vf_fail(K("free"), "%s: freed more than once", w); vf_ledger_end_empty(K("leak"), w);
  /* freed registers are empty and can be used again */
  vf_ledger_begin(); p = malloc(3); memreg_add(p); memreg_free; memreg_free; memreg2_free_named(third); memreg_free_named(second); if (vf_ledger_bad_frees()) vf_fail(K("free"), "%s: freed again", w); vf_ledger_end_empty(K("leak"), w);
  vf_count("registered addresses", na + nb + nc + nd); if (na > 65535 || nb > 65535 || nc > 65535 || nd > 65535) vf_count("registers beyond 16 bits", 1); else if (na > 255 || nb > 255 || nc > 255 || nd > 255) vf_count("registers beyond 8 bits", 1); vf_sig(vf_mix(vf_mix(size, na * 40 + nb), nc * 40 + nd)); if (ix < 2) vf_sample("%s", w);
}

/* ---- queue, compared with an array */
typedef struct { int id; sph_queue_node_t node; char pad[9]; } item_t;
typedef struct { sph_queue_node_t node; int id; } item2_t;
static int queue_check(sph_queue_t* q, void** m, size_t n, const char* w) {
  vf_eval(3 + n); if (q->size != n) { vf_fail(K("queue-size"), "%s: size %u, expected %zu", w, q->size, n); return 0; }
  sph_queue_node_t* e = q->first; for (size_t i = 0; i < n; i++) { if (e != m[i]) { vf_fail(K("queue-order"), "%s: element %zu of %zu is another", w, i, n); return 0; } e = e->next; }
  if (e) { vf_fail(K("queue-end"), "%s: not ended after %zu", w, n); return 0; } if (n && q->last != m[n - 1]) { vf_fail(K("queue-end"), "%s: the last of %zu is another", w, n); return 0; } return 1;
}
static void t_queue(vf_rng* r, uint64_t ix) {
  enum { N = 40 }; item_t a[N / 2]; item2_t b[N / 2]; void* m[N]; uint8_t in[N]; memset(a, 0xab, sizeof a); memset(b, 0xab, sizeof b); memset(in, 0, sizeof in); size_t n = 0; sph_queue_t q; memset(&q, 0xab, sizeof q); sph_queue_init(&q);
  for (int i = 0; i < N / 2; i++) { a[i].id = i; b[i].id = N / 2 + i; } char w[60]; snprintf(w, sizeof w, "queue %llu", (unsigned long long)ix); uint64_t sig = 3; double grow = vf_real(r, .25, .6);
#define NODE(i) ((i) < N / 2 ? &a[i].node : &b[(i) - N / 2].node)
#define ID(p) ((char*)(p) >= (char*)a && (char*)(p) < (char*)(a + N / 2) ? sph_queue_get(p, item_t, node)->id : sph_queue_get(p, item2_t, node)->id)
  for (int step = 0, steps = 30 + (int)vf_below(r, 200); step < steps && queue_check(&q, m, n, w); step++) {
    int i = (int)vf_below(r, N); vf_count("operations on queues", 1);
    if (vf_chance(r, grow)) { if (!in[i]) { sph_queue_enq(&q, NODE(i)); m[n++] = NODE(i); in[i] = 1; sig = vf_mix(sig, 1); } }
    else if (vf_chance(r, .55)) { if (n) { sph_queue_node_t* e = sph_queue_deq(&q); vf_eval(1); if (e != m[0]) { vf_fail(K("queue-fifo"), "%s: not the first of %zu was returned", w, n); return; } int id = ID(e); if (id < 0 || id >= N || NODE(id) != e || !in[id]) { vf_fail(K("queue-get"), "%s: not the struct of the node", w); return; } in[id] = 0; memmove(m, m + 1, --n * sizeof *m); sig = vf_mix(sig, 2); } }
    else if (vf_chance(r, .96)) { uint8_t x = sph_queue_remove(&q, NODE(i)); vf_eval(1); if (!!x != in[i]) { vf_fail(K("queue-remove"), "%s: removing an element that is%s contained returns %d", w, in[i] ? "" : " not", x); return; } if (in[i]) { size_t j = 0; while (m[j] != NODE(i)) j++; vf_count(j == 0 ? "removed first" : j == n - 1 ? "removed last" : "removed inside", 1); memmove(m + j, m + j + 1, (--n - j) * sizeof *m); in[i] = 0; } sig = vf_mix(sig, 3); }
    else { sph_queue_init(&q); n = 0; memset(in, 0, sizeof in); sig = vf_mix(sig, 4); }
  }
  vf_sig(sig); if (ix < 2) vf_sample("%s: %zu left", w, n);
}

/* ---- memory helpers, comparison and sums of floats */
static void t_values(vf_rng* r, uint64_t ix) {
  (void)ix; size_t n = 1 + vf_below(r, 3000), n2 = 1 + vf_below(r, 3000); uint8_t* p = 0; vf_ledger_begin(); vf_eval(8);
  status_t s = sph_helper_malloc(n, &p); if (s.id || !vf_ledger_owns_range(p, n)) { vf_fail(K("malloc"), "no memory of %zu", n); vf_ledger_end(); return; } for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(i * 7 + 1);
  uint8_t* before = p; vf_fault_at(0); s = sph_helper_realloc(n2, &p); vf_fault_at(-1); if (!s.id || p != before) vf_fail(K("realloc"), "failed realloc: status %d or another pointer", s.id);
  s = sph_helper_realloc(n2, &p); if (s.id || !vf_ledger_owns_range(p, n2)) vf_fail(K("realloc"), "no memory of %zu", n2); else for (size_t i = 0; i < n && i < n2; i++) if (p[i] != (uint8_t)(i * 7 + 1)) { vf_fail(K("realloc"), "byte %zu changed from %zu to %zu", i, n, n2); break; } free(p);
  p = 0; s = sph_helper_calloc(n, &p); if (s.id || !vf_ledger_owns_range(p, n)) vf_fail(K("calloc"), "no memory of %zu", n); else for (size_t i = 0; i < n; i++) if (p[i]) { vf_fail(K("calloc"), "byte %zu of %zu is not zero", i, n); break; } free(p);
  p = 0; s = sph_helper_malloc_string(n - 1, &p); if (s.id || !vf_ledger_owns_range(p, n) || p[n - 1]) vf_fail(K("string"), "no terminated memory for a string of %zu", n - 1); free(p); vf_ledger_end_empty(K("leak"), "memory helpers");
  /* arrays of types */
  { typedef struct { double a; uint32_t b; } rec; rec* q = 0; size_t m = n / 10 + 1, m2 = n2 / 10 + 1; vf_ledger_begin(); vf_eval(4); s = sp_calloc_type(m, rec, &q); if (s.id || !vf_ledger_owns_range(q, m * sizeof(rec))) vf_fail(K("calloc"), "no memory of %zu records", m); else for (size_t i = 0; i < m; i++) if (q[i].a != 0 || q[i].b) { vf_fail(K("calloc"), "record %zu is not zero", i); break; } if (q) for (size_t i = 0; i < m; i++) q[i].b = (uint32_t)i + 5;
    s = sp_realloc_type(m2, rec, &q); if (s.id || !vf_ledger_owns_range(q, m2 * sizeof(rec))) vf_fail(K("realloc"), "no memory of %zu records", m2); else for (size_t i = 0; i < m && i < m2; i++) if (q[i].b != i + 5) { vf_fail(K("realloc"), "record %zu changed", i); break; } free(q); q = 0;
    s = sp_malloc_type(m, rec, &q); if (s.id || !vf_ledger_owns_range(q, m * sizeof(rec))) vf_fail(K("malloc"), "no memory of %zu records", m); free(q); vf_ledger_end_empty(K("leak"), "memory of records");
    sp_sample_t za[20]; sp_time_t zt[20]; for (int i = 0; i < 20; i++) za[i] = zt[i] = 3; size_t zn = vf_below(r, 20); sp_samples_zero(za, zn); sp_times_zero(zt, zn); for (size_t i = 0; i < 20; i++) if ((za[i] != 0) != (i >= zn) || (zt[i] != 0) != (i >= zn)) { vf_fail(K("zero"), "zeroing %zu: index %zu", zn, i); break; } }
  /* nearly equal */
  double x = vf_real(r, -100, 100), margin = vf_chance(r, .3) ? 1e-6 : vf_real(r, .01, 3), off = vf_real(r, 0, 2) * margin; if (fabs(off - margin) > 1e-9 + margin * 1e-4) {
    double y = vf_chance(r, .5) ? x + off : x - off; int want = off < margin; vf_eval(2); if (!!sph_f64_nearly_equal(x, y, margin) != want || !!sph_f64_nearly_equal(y, x, margin) != want) vf_fail(K("near"), "%.12g and %.12g within %g", x, y, margin);
    float fx = (float)x, fy = (float)y, fm = (float)margin; double fd = fabs((double)fx - fy); if (margin > .009 && fabs(fd - fm) > 1e-4) { vf_eval(1); if (!!sph_f32_nearly_equal(fx, fy, fm) != (fd < fm)) vf_fail(K("near"), "%.8g and %.8g within %g", fx, fy, fm); }
  }
  size_t k = 1 + vf_below(r, 40), at = vf_chance(r, .4) ? k - 1 : vf_below(r, k); double* a = gen_samples(r, k, -10, 10), *b = dup_samples(a, k); float fa[40], fb[40]; for (size_t i = 0; i < k; i++) { b[i] += vf_real(r, -.009, .009); fa[i] = (float)a[i]; fb[i] = (float)b[i]; } vf_eval(6);
  if (!sp_samples_nearly_equal(a, k, b, k, .01) || !sph_f32_array_nearly_equal(fa, k, fb, k, .0101f)) vf_fail(K("near-array"), "arrays of %zu are not nearly equal", k);
  if (sp_samples_nearly_equal(a, k, b, k - 1, .01) || sp_samples_nearly_equal(a, k - 1, b, k, .01) || sph_f32_array_nearly_equal(fa, k, fb, k - 1, .1f)) vf_fail(K("near-array"), "arrays of different length are nearly equal");
  if (!sp_samples_nearly_equal(a, 0, b, 0, .01)) vf_fail(K("near-array"), "empty arrays differ");
  b[at] = a[at] + (vf_chance(r, .5) ? .02 : -.02); fb[at] = (float)b[at]; if (sp_samples_nearly_equal(a, k, b, k, .01) || sph_f32_array_nearly_equal(fa, k, fb, k, .01f)) vf_fail(K("near-array"), "difference at %zu of %zu is not seen", at, k);
  guards_ok(K("near-array"), "array", a); guards_ok(K("near-array"), "array", b);
  /* sums */
  long double sum = 0, abs = 0; for (size_t i = 0; i < k; i++) { sum += a[i]; abs += fabsl(a[i]); } double g = sp_samples_sum(a, k); vf_eval(2); if (fabsl(g - sum) > 1e-14L * abs + 1e-300L) vf_fail(K("sum"), "sum of %zu samples is %.17g, expected %.17Lg", k, g, sum);
  sum = abs = 0; for (size_t i = 0; i < k; i++) { sum += fa[i]; abs += fabsl((long double)fa[i]); } float fg = sph_f32_sum(fa, k); if (fabsl(fg - sum) > 4e-6L * abs + 1e-30L) vf_fail(K("sum"), "sum of %zu floats is %.9g, expected %.9Lg", k, fg, sum);
  vf_guarded_free(a); vf_guarded_free(b); vf_count("comparisons and sums", 1); vf_sig(vf_mix(vf_mix(n, n2), k * 64 + at));
}
/* ---- more elements than fit into small integers */
typedef struct { long v; sph_queue_node_t node; } item3_t;
static void t_large(vf_rng* r, uint64_t ix) {
  size_t n = 65530 + vf_below(r, 6000), n2 = 65530 + vf_below(r, 6000); vf_ledger_begin(); vf_eval(12); char w[60]; snprintf(w, sizeof w, "%zu and %zu elements", n, n2);
  k_times_t a; memset(&a, 0xab, sizeof a); if (k_times_new(1 + vf_below(r, 50), &a)) { vf_fail(K("status"), "%s: new", w); vf_ledger_end(); return; }
  uint32_t salt = (uint32_t)vf_u64(r); for (size_t i = 0; i < n; i++) { if (array3_full(a) && k_times_resize(&a, a.size * 2)) { vf_fail(K("status"), "%s: resize", w); break; } array3_add(a, (uint32_t)i * 2654435761u + salt); }
  if (a.used != n || array3_size(a) != n || array3_max_size(a) < n || array3_unused_size(a) != a.size - n) vf_fail(K("length"), "%s: length %zu of %zu", w, array3_size(a), array3_max_size(a));
  size_t to = n2 < n ? n2 : n; if (k_times_resize(&a, n2) || a.size != n2 || a.used != to) vf_fail(K("length"), "%s: length %zu of %zu after resizing", w, a.used, a.size);
  for (size_t i = 0; i < to; i++) if (array3_get(a, i) != (uint32_t)i * 2654435761u + salt) { vf_fail(K("content"), "%s: element %zu changed", w, i); break; }
  for (size_t i = 0; i < 20; i++) array3_remove(a); if (array3_size(a) != to - 20) vf_fail(K("length"), "%s: length %zu after removing 20 of %zu", w, array3_size(a), to); if (array3_data_last(a) != (uint32_t)(n2 - 1) * 2654435761u + salt && n2 <= n) vf_fail(K("last"), "%s: last element", w); array3_free(a);
  /* queue */
  item3_t* q = vf_malloc(n * sizeof *q); sph_queue_t e; memset(&e, 0xab, sizeof e); sph_queue_init(&e); for (size_t i = 0; i < n; i++) { q[i].v = (long)i; sph_queue_enq(&e, &q[i].node); } if (e.size != n) vf_fail(K("queue-size"), "%s: size %u", w, e.size);
  if (!sph_queue_remove(&e, &q[n - 1].node) || e.last != &q[n - 2].node || !sph_queue_remove(&e, &q[n - 3].node) || sph_queue_remove(&e, &q[n - 3].node)) vf_fail(K("queue-remove"), "%s: removing", w);
  for (size_t i = 0; i < n - 3; i++) { if (e.size != n - 2 - i) { vf_fail(K("queue-size"), "%s: size %u instead of %zu", w, e.size, n - 2 - i); break; } item3_t* x = sph_queue_get(sph_queue_deq(&e), item3_t, node); if (x != q + i) { vf_fail(K("queue-fifo"), "%s: not the element %zu", w, i); break; } } if (sph_queue_deq(&e) != &q[n - 2].node || e.size || e.first || e.last) vf_fail(K("queue-end"), "%s: not empty at the end", w); vf_free(q);
  /* memory helpers and sums */
  uint8_t* p = 0; if (sph_helper_calloc(n, &p).id || !vf_ledger_owns_range(p, n)) vf_fail(K("calloc"), "%s: no memory", w); else for (size_t i = 0; i < n; i++) if (p[i]) { vf_fail(K("calloc"), "%s: byte %zu is not zero", w, i); break; } if (p) memset(p, 7, n);
  if (sph_helper_realloc(n2, &p).id || !vf_ledger_owns_range(p, n2)) vf_fail(K("realloc"), "%s: no memory", w); else for (size_t i = 0; i < n && i < n2; i++) if (p[i] != 7) { vf_fail(K("realloc"), "%s: byte %zu changed", w, i); break; } free(p); p = 0;
  if (sph_helper_malloc(n, &p).id || !vf_ledger_owns_range(p, n)) vf_fail(K("malloc"), "%s: no memory", w); free(p); p = 0; if (sph_helper_malloc_string(n, &p).id || !vf_ledger_owns_range(p, n + 1) || p[n]) vf_fail(K("string"), "%s: no terminated memory", w); free(p); vf_ledger_end_empty(K("leak"), w);
  double* d = gen_samples(r, n, -1, 1), *d2 = dup_samples(d, n); float* f = vf_malloc(n * sizeof *f), *f2 = vf_malloc(n * sizeof *f2); long double sum = 0, fsum = 0, fabs_sum = 0; for (size_t i = 0; i < n; i++) { f[i] = f2[i] = (float)d[i]; sum += d[i]; fsum += f[i]; fabs_sum += fabsl(d[i]); }
  double g = sp_samples_sum(d, n); if (fabsl(g - sum) > 1e-14L * fabs_sum) vf_fail(K("sum"), "%s: sum is %.17g, expected %.17Lg", w, g, sum); float fg = sph_f32_sum(f, n); if (fabsl(fg - fsum) > 4e-6L * fabs_sum) vf_fail(K("sum"), "%s: sum of floats is %.9g, expected %.9Lg", w, fg, fsum);
  /* the sum of numbers that are not negative is compensated: its error does not grow with their count */
  for (size_t i = 0; i < n; i++) { d[i] = fabs(d[i]) * (i % 7 ? 1 : 1e5); f[i] = (float)d[i]; } sum = fsum = 0; for (size_t i = 0; i < n; i++) { sum += d[i]; fsum += f[i]; } vf_eval(2);
  g = sp_samples_sum(d, n); if (fabsl(g - sum) > 1e-15L * sum) vf_fail(K("sum-exact"), "%s: sum of positive samples is %.17g, expected %.17Lg", w, g, sum); fg = sph_f32_sum(f, n); if (fabsl(fg - fsum) > 4e-7L * fsum) vf_fail(K("sum-exact"), "%s: sum of positive floats is %.9g, expected %.9Lg", w, fg, fsum);
  for (size_t i = 0; i < n; i++) { d[i] = d2[i]; f[i] = f2[i]; }
  size_t at = vf_chance(r, .5) ? n - 1 : 65536 > n - 1 ? n - 1 : 65536; if (!sp_samples_nearly_equal(d, n, d2, n, .01) || !sph_f32_array_nearly_equal(f, n, f2, n, .01f)) vf_fail(K("near-array"), "%s: equal arrays differ", w); d2[at] += .1; f2[at] += .1f; if (sp_samples_nearly_equal(d, n, d2, n, .01) || sph_f32_array_nearly_equal(f, n, f2, n, .01f)) vf_fail(K("near-array"), "%s: difference at %zu is not seen", w, at);
  if (sp_samples_nearly_equal(d, n, d2, n - 65536 + (n < 65536 ? 65536 : 0), .5)) vf_fail(K("near-array"), "%s: arrays of different length are equal", w);
  vf_guarded_free(d); vf_guarded_free(d2); vf_free(f); vf_free(f2); vf_count("large containers", 1); vf_sig(vf_mix(n, n2)); if (ix < 2) vf_sample("%s", w);
}
/* ---- sorting of a range of any array */
__attribute__((weak)) void quicksort(uint8_t (*less)(void*, ssize_t, ssize_t), void (*swap)(void*, ssize_t, ssize_t), void* array, ssize_t left, ssize_t right);
static ssize_t sort_left, sort_right, sort_bad; static int sort_down;
static uint8_t sort_less(void* p, ssize_t i, ssize_t j) { item_t* a = p; if (i < sort_left || i > sort_right || j < sort_left || j > sort_right) { sort_bad++; return 0; } return sort_down ? a[j].id < a[i].id : a[i].id < a[j].id; }
static void sort_swap(void* p, ssize_t i, ssize_t j) { item_t* a = p; if (i < sort_left || i > sort_right || j < sort_left || j > sort_right) { sort_bad++; return; } item_t t = a[i]; a[i] = a[j]; a[j] = t; }
static void t_sort(vf_rng* r, uint64_t ix) {
  if (!quicksort) return; size_t n = vf_chance(r, .003) ? 65600 + vf_below(r, 2000) : vf_chance(r, .02) ? 2000 + vf_below(r, 3000) : 1 + vf_size(r, 0, 90); item_t* a = vf_malloc(n * sizeof *a), *b = vf_malloc(n * sizeof *b); int values = 1 + (int)vf_below(r, vf_chance(r, .5) ? 5 : 2 * n); sort_left = (ssize_t)(vf_chance(r, .6) ? 0 : vf_below(r, n)); sort_right = vf_chance(r, .6) ? (ssize_t)n - 1 : sort_left + (ssize_t)vf_below(r, n - (size_t)sort_left); if (vf_chance(r, .03)) sort_right = sort_left - 1; sort_down = vf_chance(r, .5); sort_bad = 0;
  memset(a, 0, n * sizeof *a); for (size_t i = 0; i < n; i++) { a[i].id = (int)vf_below(r, (uint64_t)values); memcpy(a[i].pad, &i, 8); } memcpy(b, a, n * sizeof *a); quicksort(sort_less, sort_swap, a, sort_left, sort_right); char* seen = vf_calloc(n); vf_eval(2 + n); char w[90]; snprintf(w, sizeof w, "sorting %zd..%zd of %zu %s", sort_left, sort_right, n, sort_down ? "down" : "up");
  if (sort_bad) vf_fail(K("sort-range"), "%s: elements outside of the range were used", w);
  for (size_t i = 0; i < n; i++) { size_t o; memcpy(&o, a[i].pad, 8); if (o >= n || seen[o]++ || a[i].id != b[o].id) { vf_fail(K("sort"), "%s: elements were lost or repeated", w); break; } if (((ssize_t)i < sort_left || (ssize_t)i > sort_right) && o != i) { vf_fail(K("sort-range"), "%s: element %zu was moved", w, i); break; } if ((ssize_t)i > sort_left && (ssize_t)i <= sort_right && (sort_down ? a[i - 1].id < a[i].id : a[i].id < a[i - 1].id)) { vf_fail(K("sort"), "%s: elements %zu and %zu are not in order", w, i - 1, i); break; } }
  vf_sig(vf_hash(b, n * sizeof *b, (uint64_t)sort_left)); vf_count("sorted ranges", 1); vf_free(a); vf_free(b); vf_free(seen); if (ix < 2) vf_sample("%s", w);
}
vf_suite vf_suites[] = {{"arrays", t_arrays, 6000, 60000}, {"registers", t_registers, 6000, 60000}, {"queue", t_queue, 6000, 60000}, {"values", t_values, 6000, 60000}, {"sort", t_sort, 6000, 60000}, {"large", t_large, 24, 400}, {0}};
