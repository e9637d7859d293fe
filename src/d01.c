/* D01: every failure status has a readable description and name */
#include "gen.h"
void vf_setup(void) {}
#define K(f) "D01:" f
typedef struct { const char* group; int id; const char* description; const char* name; } known_t;
static const known_t known[] = {
  {"sp", sp_s_id_file_write, "invalid file write", "invalid-file-write"}, {"sp", sp_s_id_file_read, "invalid file read", "invalid-file-read"},
  {"sp", sp_s_id_file_not_implemented, "unsupported format (only 32 bit float supported)", "not-implemented"}, {"sp", sp_s_id_file_eof, "end of file", "end-of-file"},
  {"sp", sp_s_id_eof, "end of file", 0}, {"sp", sp_s_id_input_type, "input argument is of wrong type", "input-type"}, {"sp", sp_s_id_memory, "memory allocation error", "memory"},
  {"sp", sp_s_id_invalid_argument, "invalid argument", "invalid-argument"}, {"sp", sp_s_id_not_implemented, "not implemented", "not-implemented"},
};
static void compare(const char* key, status_t s, const char* want_d, const char* want_n) {
  const char* d = (const char*)sp_status_description(s); const char* n = (const char*)sp_status_name(s);
  vf_eval(2);
  if (!d) { vf_fail(key, "description of %s %d is null", s.group, s.id); return; }
  if (!n) { vf_fail(key, "name of %s %d is null", s.group, s.id); return; }
  size_t dl = strnlen(d, 300), nl = strnlen(n, 100); uint64_t h = vf_hash(d, dl, 1); h = vf_hash(n, nl, h); /* reads under asan */
  if (want_d && strcmp(d, want_d)) vf_fail(key, "description of %s %d is \"%.80s\", expected \"%s\"", s.group, s.id, d, want_d);
  if (want_n && strcmp(n, want_n)) vf_fail(key, "name of %s %d is \"%.80s\", expected \"%s\"", s.group, s.id, n, want_n);
  vf_sig(h);
}
static void t_ids(vf_rng* r, uint64_t ix) {
  status_t s; char group[40];
  for (size_t k = 0; k < VF_LEN(known); k++) {
    /* groups are compared by content, not by address */
    snprintf(group, sizeof group, "%s", known[k].group); s.group = (uint8_t*)group; s.id = known[k].id;
    compare(K("known"), s, known[k].description, known[k].name);
  }
  for (size_t k = 0; k < VF_LEN(known); k++) { vf_eval(2); if (!known[k].id || known[k].id == sp_s_id_undefined || !sp_s_id_undefined) vf_fail(K("ids"), "status id %zu is %d, undefined is %d", k, known[k].id, sp_s_id_undefined); for (size_t j = 0; j < k; j++) if (known[j].id == known[k].id) vf_fail(K("ids"), "status ids %zu and %zu are both %d", j, k, known[k].id); }
  s.group = (uint8_t*)"sp"; s.id = sp_s_id_undefined; compare(K("other"), s, "", "unknown");
  for (int k = 0; k < 20; k++) {
    /* all other ids and groups get the generic or empty text */
    static const char* groups[] = {"sp", "libc", "", "s", "spx", "SP", "other"}; size_t g = vf_below(r, VF_LEN(groups));
    int id = vf_chance(r, .5) ? (int)vf_range(r, 11, 300) : (int)(int32_t)vf_u64(r); if (g == 0 && id > 0 && id < 11) id += 100; if (g == 0 && id == 0) id = -1;
    s.group = (uint8_t*)groups[g]; s.id = id; compare(K("other"), s, "", "unknown"); vf_count("other ids", 1);
  }
  s.group = sph_helper_status_group; s.id = sph_helper_status_id_memory;
  compare(K("helper"), s, "not enough memory or other memory allocation error", "memory");
  for (int k = 0; k < 5; k++) { s.id = (int)vf_range(r, 100, 100000); compare(K("helper-other"), s, "", "unknown"); }
  vf_sig(vf_mix(7, ix)); vf_count("known ids", VF_LEN(known) + 1);
}
static void check_memory_status(const char* what, status_t s) {
  vf_eval(1);
  if (!s.id) { vf_fail(K("allocation"), "%s: failed allocation reported as success", what); return; }
  if (!s.group) { vf_fail(K("allocation"), "%s: no group", what); return; }
  compare(K("allocation"), s, !strcmp((char*)s.group, "sp") ? "memory allocation error" : "not enough memory or other memory allocation error", "memory");
  vf_count("failed allocations described", 1); if (vf_seed) { static int n; if (n++ < 2) vf_sample("%s: group %s id %d \"%s\"", what, s.group, s.id, sp_status_description(s)); }
}
/* statuses that the library really returns */
static void t_returned(vf_rng* r, uint64_t ix) {
  void* p = 0; uint8_t* str = 0; size_t n = 1 + vf_below(r, 5000); sp_block_t b = {0}; sp_sample_t* sa = 0; sp_time_t* ta = 0; sp_event_t e = {0}; sp_wave_event_config_t* w; sp_noise_event_config_t* nc; sp_map_event_config_t* mc;
#define FAILING(what, expr) vf_ledger_begin(); vf_fault_at(0); { status_t s_ = expr; if (vf_fault_hit()) check_memory_status(what, s_); else vf_error("no allocation in %s", what); } vf_ledger_end_empty(K("leak"), what);
  FAILING("malloc", sph_helper_malloc(n, &p)) FAILING("calloc", sph_helper_calloc(n, &p)) FAILING("malloc_string", sph_helper_malloc_string(n, &str))
  { void* q = 0; vf_ledger_begin(); status_t s = sph_helper_malloc(n, &q); if (s.id) vf_fail(K("success"), "malloc failed with %d", s.id); void* q0 = q; vf_fault_at(0); s = sph_helper_realloc(2 * n, &q); check_memory_status("realloc", s); vf_eval(1); if (q != q0) vf_fail(K("allocation"), "pointer changed by failed realloc"); free(q0); vf_ledger_end_empty(K("leak"), "realloc"); }
  FAILING("sp_block_new", sp_block_new(2, n, &b)) FAILING("sp_samples_new", sp_samples_new(n, &sa)) FAILING("sp_times_new", sp_times_new(n, &ta))
  FAILING("sp_event_memory_ensure", sp_event_memory_ensure(&e, 1 + n % 20))
  FAILING("sp_wave_event_config_new", sp_wave_event_config_new_n(1, &w)) FAILING("sp_noise_event_config_new", sp_noise_event_config_new_n(1, &nc)) FAILING("sp_map_event_config_new", sp_map_event_config_new_n(1, &mc))
  { sp_sample_t* ir; sp_time_t len; FAILING("sp_windowed_sinc_lp_hp_ir", sp_windowed_sinc_lp_hp_ir(.2, .1, 0, &ir, &len)) }
  { sp_event_list_t* l = 0; FAILING("sp_event_list_add", sp_event_list_add(&l, e)) }
  { sp_file_t f = {0}; status_t s = sp_file_open_write((uint8_t*)"/nonexistent-directory/x", 1, 8000, &f); vf_eval(1); if (!s.id) vf_fail(K("file"), "open_write in a missing directory succeeded"); else compare(K("file"), s, !strcmp((char*)s.group, "sp") && s.id == 2 ? "invalid file write" : 0, 0); }
  { vf_ledger_begin(); status_t s = sph_helper_malloc(n, &p); vf_eval(1); if (s.id || !p) vf_fail(K("success"), "malloc"); free(p); s = sph_helper_calloc(n, &p); for (size_t i = 0; i < n; i++) if (((char*)p)[i]) { vf_fail(K("success"), "calloc not zero"); break; } free(p); s = sph_helper_malloc_string(n, &str); if (s.id || str[n]) vf_fail(K("success"), "string not terminated"); free(str); vf_ledger_end_empty(K("leak"), "success"); }
  vf_sig(vf_mix(9, n)); (void)ix;
}
/* the control flow of the status macros */
static int flow_calls; static status_t flow_inner(int id, const char* group) { status_declare; flow_calls++; if (id) { status_set(group, id); } status_return; }
static status_t flow_require(const int* ids, const char** groups, int n, int* done, int* left) { status_declare; for (int i = 0; i < n; i++) { status_require((flow_inner(ids[i], groups[i]))); *done += 1; } exit: *left += 1; status_return; }
static status_t flow_return(const int* ids, const char** groups, int n, int* done, int* left) { status_declare; for (int i = 0; i < n; i++) { status_require_return((flow_inner(ids[i], groups[i]))); *done += 1; } *left += 1; status_return; }
static status_t flow_number(const int* ids, const char** groups, int n, int* done, int* left) { status_declare; status.group = (uint8_t*)groups[0]; for (int i = 0; i < n; i++) { status_i_require((flow_calls++, ids[i])); *done += 1; } exit: *left += 1; status_return; }
static status_t flow_set_goto(const int* ids, const char** groups, int n, int* done, int* left) { status_declare; for (int i = 0; i < n; i++) { flow_calls++; if (ids[i]) { status_set_goto(groups[i], ids[i]); } *done += 1; } exit: *left += 1; status_return; }
static status_t flow_sp(const int* ids, const char** groups, int n, int* done, int* left) { status_declare; (void)groups; for (int i = 0; i < n; i++) { flow_calls++; if (ids[i]) { sp_status_set_goto(ids[i]); } *done += 1; } exit: *left += 1; status_return; }
static status_t flow_srq(const int* ids, const char** groups, int n, int* done, int* left) { status_declare; for (int i = 0; i < n; i++) { srq((flow_inner(ids[i], groups[i]))); *done += 1; } exit: *left += 1; status_return; }
static status_t flow_memory(const int* ids, const char** groups, int n, int* done, int* left) { status_declare; (void)groups; for (int i = 0; i < n; i++) { flow_calls++; if (ids[i]) { sp_memory_error; } *done += 1; } exit: *left += 1; status_return; }
static int flow_declared(void) { sp_status_declare; return !status.id && status.group && !strcmp((char*)status.group, "sp"); }
static int flow_id(int id) { status_declare; status.id = id; status_i_return; }
static void t_flow(vf_rng* r, uint64_t ix) {
  static const char* names[] = {"sp", "libc", "other", "sph"}; int ids[12], n = 1 + (int)vf_below(r, 12), fail = vf_chance(r, .3) ? n : (int)vf_below(r, (uint64_t)n), kind = (int)(ix % 7); const char* groups[12];
  for (int i = 0; i < n; i++) { groups[i] = names[vf_below(r, 4)]; ids[i] = i < fail ? 0 : i > fail && vf_chance(r, .5) ? 0 : vf_chance(r, .3) ? -1 - (int)vf_below(r, 100) : 1 + (int)vf_below(r, 1000000); }
  typedef status_t (*flow_t)(const int*, const char**, int, int*, int*); static const flow_t flows[] = {flow_require, flow_return, flow_number, flow_set_goto, flow_sp, flow_srq, flow_memory}; static const char* kinds[] = {"status_require", "status_require_return", "status_i_require", "status_set_goto", "sp_status_set_goto", "srq", "sp_memory_error"};
  int done = 0, left = 0; flow_calls = 0; status_t s = flows[kind](ids, groups, n, &done, &left); vf_eval(6); int want = fail < n ? ids[fail] : 0; const char* group = fail < n ? groups[fail] : 0; if (kind == 2) group = groups[0]; if (kind == 4 && fail < n) group = "sp"; if (kind == 6 && fail < n) { group = "sp"; want = 8; }
  char w[120]; snprintf(w, sizeof w, "%s, %d of %d steps fail with %d", kinds[kind], fail, n, want);
  if (s.id != want) vf_fail(K("flow"), "%s: id %d", w, s.id); if (!s.group || (group && strcmp((char*)s.group, group)) || (!group && *s.group)) vf_fail(K("flow"), "%s: group \"%s\"", w, s.group ? (char*)s.group : "null");
  if (done != fail || flow_calls != fail + (fail < n)) vf_fail(K("flow"), "%s: %d steps begun and %d finished", w, flow_calls, done); if (left != !(kind == 1 && fail < n)) vf_fail(K("flow"), "%s: the exit was reached %d times", w, left);
  if (flow_id(want) != want) vf_fail(K("flow"), "%s: returned number", w); { status_t status = s; if (!!(status_is_failure) != (want != 0) || !!(status_is_success) != (want == 0)) vf_fail(K("flow"), "%s: seen as %s", w, want ? "success" : "failure"); sp_status_set(ids[0]); if (status.id != ids[0] || strcmp((char*)status.group, "sp")) vf_fail(K("flow"), "sp_status_set"); }
  vf_eval(1); if (!flow_declared()) vf_fail(K("flow"), "sp_status_declare"); vf_sig(vf_mix(vf_mix((uint64_t)kind, (uint64_t)fail), (uint64_t)n)); vf_count("status sequences", 1); if (ix < 2) vf_sample("%s", w);
}
vf_suite vf_suites[] = {{"ids", t_ids, 200, 20000}, {"returned", t_returned, 400, 20000}, {"flow", t_flow, 4000, 100000}, {0}};
