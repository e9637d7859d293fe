/* K02: string, directory and display helpers produce exactly the expected text */
#include "gen.h"
#include "wavf.h"
#include <sph-sp/string.h>
/* directories are only created and looked for below the scratch directory */
static int mkdirs, escapes, mkdir_fail_at, mkdir_race_at; static char outside[300];
static int k_inside(const char* p) { char c[1000]; if (p[0] != '/') { if (strstr(p, "..")) return 0; return 1; /* the working directory is in the scratch directory */ } snprintf(c, sizeof c, "%s/", vf_scratch); return !strncmp(p, c, strlen(c)) && !strstr(p, ".."); }
static int k_mkdir(const char* p, mode_t m) { if (!k_inside(p)) { escapes++; snprintf(outside, sizeof outside, "%s", p); errno = EACCES; return -1; } int k = mkdirs++; if (k == mkdir_fail_at) { errno = ENOSPC; return -1; } int x = mkdir(p, m); if (k == mkdir_race_at && !x) { /* another process was faster */ errno = EEXIST; return -1; } return x; }
#define mkdir k_mkdir
#include <sph-sp/filesystem.h>
#undef mkdir
#define K(f) "K02:" f
void vf_setup(void) { if (sp_initialize(0, 2, 960).id) vf_error("initialize"); }

/* ---- strings */
static char* text(vf_rng* r, size_t n, int slashes) { char* s = vf_guarded(n + 1); for (size_t i = 0; i < n; i++) { s[i] = (char)(1 + vf_below(r, 255)); if (!slashes && s[i] == '/') s[i] = 'x'; } s[n] = 0; return s; }
static size_t text_len(vf_rng* r) { return vf_chance(r, .2) ? 0 : vf_chance(r, .03) ? 60000 + vf_below(r, 20000) : vf_below(r, 40); }
static void same_text(const char* what, const uint8_t* got, const char* want, size_t n) {
  vf_eval(2); if (!got) { vf_fail(K("string"), "%s: no string", what); return; }
  if (!vf_ledger_owns_range((void*)got, n + 1)) { vf_fail(K("string"), "%s: no new string of length %zu", what, n); return; }
  if (memcmp(got, want, n) || got[n]) { size_t i = 0; while (i < n && got[i] == (uint8_t)want[i]) i++; vf_fail(K("string"), "%s: differs at %zu of %zu", what, i, n); }
}
static void t_strings(vf_rng* r, uint64_t ix) {
  size_t la = text_len(r), lb = text_len(r); char *a = text(r, la, 1), *b = text(r, lb, 1), *ac = dup_mem(a, la + 1), *bc = dup_mem(b, lb + 1), *want = vf_malloc(la + lb + 2); memcpy(want, a, la); memcpy(want + la, b, lb); int fault = vf_chance(r, .2); uint8_t* o;
  vf_ledger_begin(); if (fault) vf_fault_at(0); o = string_append((uint8_t*)a, (uint8_t*)b); int fh = vf_fault_hit(); vf_fault_at(-1); vf_eval(1); if (fault && fh) { if (o) vf_fail(K("fault"), "append returns a string after a failed allocation"); } else { same_text("append", o, want, la + lb); free(o); }
  if (fault) vf_fault_at(0); o = string_clone((uint8_t*)a); fh = vf_fault_hit(); vf_fault_at(-1); vf_eval(1); if (fault && fh) { if (o) vf_fail(K("fault"), "clone returns a string after a failed allocation"); } else { same_text("clone", o, a, la); free(o); }
  { o = (uint8_t*)b; if (fault) vf_fault_at(0); uint8_t x = ensure_trailing_slash((uint8_t*)a, &o); int hit = vf_fault_hit(); vf_fault_at(-1); vf_eval(2); int has = !la || a[la - 1] == '/'; char* t = vf_malloc(la + 2); memcpy(t, a, la); t[la] = '/';
    if (has) { if (x || o != (uint8_t*)a) vf_fail(K("slash"), "a string of %zu that needs no slash: result %d", la, x); } else if (fault && hit) { if (x != 1) vf_fail(K("fault"), "trailing slash: result %d after a failed allocation", x); } else { if (x != 2) vf_fail(K("slash"), "a string of %zu that needs a slash: result %d", la, x); else { same_text("trailing slash", o, t, la + 1); free(o); } } vf_free(t); vf_count(has ? "strings with slash" : "slashes added", 1); }
  { enum { N = 12 }; size_t n = vf_below(r, N + 1), total = 0, len = 77; char* s[N]; uint8_t* g[N]; for (size_t i = 0; i < n; i++) { size_t l = vf_below(r, 2) ? vf_below(r, 20) : 0; s[i] = text(r, l, 1); g[i] = (uint8_t*)s[i]; total += l + lb; }
    if (n) total -= lb; char* t = vf_malloc(total + 1); size_t at = 0; for (size_t i = 0; i < n; i++) { if (i) { memcpy(t + at, b, lb); at += lb; } size_t l = strlen(s[i]); memcpy(t + at, s[i], l); at += l; }
    if (fault) vf_fault_at(0); o = string_join(g, n, (uint8_t*)b, &len); fh = vf_fault_hit(); vf_fault_at(-1); vf_eval(2); if (!n || (fault && fh)) { if (o) vf_fail(n ? K("fault") : K("join"), "joining %zu strings%s returns a string", n, n ? " after a failed allocation" : ""); } else { if (len != total) vf_fail(K("join"), "%zu strings joined have the length %zu, expected %zu", n, len, total); same_text("join", o, t, total); free(o); }
    vf_free(t); for (size_t i = 0; i < n; i++) { guards_ok(K("join"), "joined string", s[i]); vf_guarded_free(s[i]); } vf_count("joined strings", n); }
  if (ix % 1500 == 3) { /* many strings */ size_t n = 65530 + vf_below(r, 3000), total = 0, len = 0, ld = vf_below(r, 3); uint8_t** g = vf_malloc(n * sizeof *g); static char part_long[70001]; memset(part_long, 'x', 70000); const char* parts[5] = {"", "a", "bc", "d/e", " "}; for (size_t i = 0; i < n; i++) { const char* q = i == 5 || i == n - 1 ? part_long : parts[(i * 2654435761u >> 7) % 5]; g[i] = (uint8_t*)q; total += strlen(q) + (i ? ld : 0); }
    char* t = vf_malloc(total + 1); size_t at = 0; for (size_t i = 0; i < n; i++) { if (i) { memcpy(t + at, ", ", ld); at += ld; } size_t l = strlen((char*)g[i]); memcpy(t + at, g[i], l); at += l; } char d[3] = {',', ' ', 0}; d[ld] = 0; o = string_join(g, n, (uint8_t*)d, &len); vf_eval(2); if (len != total) vf_fail(K("join"), "%zu strings joined have the length %zu, expected %zu", n, len, total); same_text("join of many", o, t, total); free(o); vf_free(t); vf_free(g); vf_count("joined strings", n); }
  vf_ledger_end_empty(K("leak"), "strings"); same_mem(K("input"), "strings", a, ac, la + 1); same_mem(K("input"), "strings", b, bc, lb + 1); vf_sig(vf_hash(want, la + lb, 4)); if (ix < 2) vf_sample("strings of %zu and %zu", la, lb); vf_guarded_free(a); vf_guarded_free(b); vf_guarded_free(ac); vf_guarded_free(bc); vf_free(want); if (fault) vf_count("failed allocations", 1);
}

/* ---- directories. everything happens in a new directory below the scratch directory */
static void wipe(const char* p) { DIR* d = opendir(p); if (d) { struct dirent* e; while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char q[1200]; snprintf(q, sizeof q, "%s/%s", p, e->d_name); wipe(q); } closedir(d); rmdir(p); } else unlink(p); }
static int is_dir(const char* p) { struct stat s; return !stat(p, &s) && S_ISDIR(s.st_mode); }
static void t_directories(vf_rng* r, uint64_t ix) {
  char base[400], path[900], w[1000]; snprintf(base, sizeof base, "%s/dirs", vf_scratch); wipe(base); if (mkdir(base, 0700)) vf_error("scratch"); int cwd = open(".", O_RDONLY | O_DIRECTORY); if (cwd < 0 || chdir(base)) vf_error("chdir");
  int relative = vf_chance(r, .35), depth = 1 + (int)vf_below(r, 6), have = (int)vf_below(r, (uint64_t)depth + 1), blocked = vf_chance(r, .15) ? (int)vf_below(r, (uint64_t)depth) : -1; if (blocked >= 0) have = blocked; size_t n = 0; if (!relative) n = (size_t)snprintf(path, sizeof path, "%s", base);
  size_t end[8]; for (int i = 0; i < depth; i++) { if (n) path[n++] = '/'; if (vf_chance(r, .05) && n) path[n++] = '/'; int l = 1 + (int)vf_below(r, 12); for (int k = 0; k < l; k++) path[n++] = "abcXYZ0-_ é"[vf_below(r, 10)]; path[n] = 0; end[i] = n; if (i < have) { if (mkdir(path, 0700) && errno != EEXIST) vf_error("mkdir"); } else if (i == blocked) { w_spit(path, (uint8_t*)"x", 1); } }
  if (vf_chance(r, .2)) { path[n++] = '/'; path[n] = 0; } mkdirs = escapes = 0; mkdir_fail_at = vf_chance(r, .15) ? (int)vf_below(r, (uint64_t)depth) : -1; mkdir_race_at = vf_chance(r, .3) ? (int)vf_below(r, (uint64_t)depth) : -1; int stale = (int)vf_below(r, 3); snprintf(w, sizeof w, "%s path of %d directories, %d exist%s%s", relative ? "relative" : "absolute", depth, have, blocked >= 0 ? ", a file is in the way" : "", stale == 1 ? ", after an earlier error" : "");
  char copy[900]; memcpy(copy, path, n + 1); int fd = w_fds(); vf_ledger_begin(); errno = stale == 1 ? EEXIST : stale == 2 ? ENOENT : 0; uint8_t x = ensure_directory_structure((uint8_t*)path, 0700); vf_eval(4);
  if (escapes) vf_fail(K("directory"), "%s: tried to create %s", w, outside); if (strcmp(copy, path)) vf_fail(K("input"), "%s: the path was changed", w);
  int failed = mkdir_fail_at >= 0 && mkdirs > mkdir_fail_at; struct stat st; int there = !stat(path, &st); (void)end;
  if (!!x != there) vf_fail(K("directory"), "%s: returns %d, but the path does%s exist", w, x, there ? "" : " not"); if (!failed && blocked < 0 && !is_dir(path)) vf_fail(K("directory"), "%s: not created", w);
  vf_ledger_end_empty(K("leak"), w); if (w_fds() != fd) vf_fail(K("leak"), "%s: open files", w); if (mkdir_race_at >= 0 && mkdirs > mkdir_race_at) vf_count("directories created by others", 1); vf_count(failed ? "failed creations" : blocked >= 0 ? "paths with a file in the way" : "created paths", 1); if (relative) vf_count("relative paths", 1);
  /* the directory part */
  { char q[900]; snprintf(q, sizeof q, "%s", path); char c2[900]; snprintf(c2, sizeof c2, "%s", path); if (vf_chance(r, .3)) { static const char* fixed[] = {"/", "a", "", "/a", "a/", "a/b", "//a", ".", "..", "/a/b/", "a//b"}; snprintf(q, sizeof q, "%s", fixed[vf_below(r, 11)]); snprintf(c2, sizeof c2, "%s", q); } char q0[900]; snprintf(q0, sizeof q0, "%s", q); char* want = dirname(c2);
    vf_ledger_begin(); uint8_t* d = dirname_2((uint8_t*)q); vf_eval(3); /* "//" may stand for the root itself */ if (!d || (strcmp((char*)d, want) && !(!strcmp(want, "//") && !strcmp((char*)d, "/")))) vf_fail(K("dirname"), "\"%s\" has the directory \"%s\", expected \"%s\"", q0, d ? (char*)d : "", want); if (strcmp(q, q0)) vf_fail(K("input"), "dirname changed its argument"); if (d && !vf_ledger_owns(d)) vf_fail(K("dirname"), "\"%s\": not a new string", q0); else free(d); vf_ledger_end_empty(K("leak"), "dirname"); }
  vf_sig(vf_hash(path, n, (uint64_t)have)); if (ix < 3) vf_sample("%s", w); wipe(base); if (fchdir(cwd)) vf_error("chdir"); close(cwd);
}

/* ---- printed values */
static int saved_out; static char out_path[400];
static void capture(void) { fflush(stdout); w_name(out_path, sizeof out_path, "stdout"); saved_out = dup(1); int f = open(out_path, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (f < 0 || saved_out < 0) vf_error("capture"); dup2(f, 1); close(f); }
static wbuf captured(void) { fflush(stdout); dup2(saved_out, 1); close(saved_out); wbuf b = w_slurp(out_path); unlink(out_path); if (!b.p) vf_error("captured"); b.p[b.n] = 0; return b; }
static void t_display(vf_rng* r, uint64_t ix) {
  int kind = (int)(ix % 4); size_t n = 1 + vf_size(r, 0, 200); double* a = gen_samples(r, n, -1000, 1000), *ac = dup_samples(a, n); sp_time_t* t = gen_times(r, n, 0, UINT32_MAX), *tc = dup_times(t, n); static const char* names[] = {"times", "samples", "bits", "list"}; char w[60]; snprintf(w, sizeof w, "%zu %s", n, names[kind]);
  sp_event_list_t* l = 0; size_t ln = 1 + n % 9; sp_event_t e = sp_null_event; if (kind == 3) for (size_t i = 0; i < ln; i++) { e.start = t[i % n] % 5000; e.end = e.start + 1 + (sp_time_t)vf_below(r, 100000); if (sp_event_list_add(&l, e).id) vf_error("add"); }
  vf_ledger_begin(); capture(); switch (kind) { case 0: sp_times_display(t, n); break; case 1: sp_samples_display(a, n); break; case 2: sph_helper_display_bits(t, n * 4 - n % 4); break; default: sp_event_list_display(l); } wbuf b = captured(); vf_ledger_end(); char* p = (char*)b.p; vf_eval(n + 2);
  if (kind < 2) {
    for (size_t i = 0; i < n; i++) { char* end; if (i && *p == ' ') p++; else if (i) { vf_fail(K("display"), "%s: no space before value %zu", w, i); break; } if (*p == ' ' || *p == '\n' || !*p) { vf_fail(K("display"), "%s: only %zu values", w, i); break; } if (kind == 0) { unsigned long long v = strtoull(p, &end, 10); if (v != t[i]) { vf_fail(K("display"), "%s: value %zu is %llu, expected %u", w, i, v, t[i]); break; } } else { double v = strtod(p, &end); if (fabs(v - a[i]) > .51e-5) { vf_fail(K("display"), "%s: value %zu is %.8g, expected %.8g", w, i, v, a[i]); break; } } p = end; }
    if (!vf_failed_in_case() && strcmp(p, "\n")) vf_fail(K("display"), "%s: not one line that ends after the last value", w);
  } else if (kind == 2) {
    size_t bytes = n * 4 - n % 4; if (b.n != bytes * 8 + 1 || p[b.n - 1] != '\n') vf_fail(K("bits"), "%zu characters for %zu bytes", b.n, bytes); else for (size_t i = 0; i < bytes * 8; i++) if (p[i] != '0' + ((((uint8_t*)t)[i / 8] >> (i % 8)) & 1)) { vf_fail(K("bits"), "bit %zu of %zu is %c", i, bytes * 8, p[i]); break; }
  } else {
    for (sp_event_list_t* c = l; c; c = c->next) { unsigned long long pr, self, nx, s, en; int k = 0; if (sscanf(p, "%llu %llu %llu event %llu %llu\n%n", &pr, &self, &nx, &s, &en, &k) != 5 || !k) { vf_fail(K("list"), "%s: \"%.60s\" is no list element", w, p); break; } if (pr != (uintptr_t)c->previous || self != (uintptr_t)c || nx != (uintptr_t)c->next || (uint32_t)s != c->event.start || (uint32_t)en != c->event.end) { vf_fail(K("list"), "%s: another element displayed: %.80s", w, p); break; } p += k; }
    if (!vf_failed_in_case() && *p) vf_fail(K("list"), "%s: more than the elements displayed", w); sp_event_list_free(&l);
  }
  same_mem(K("input"), w, a, ac, n * 8); same_mem(K("input"), w, t, tc, n * 4); vf_sig(vf_hash(b.p, b.n, (uint64_t)kind)); vf_count(names[kind], 1); if (ix < 4) vf_sample("%s: %.60s", w, (char*)b.p); vf_guarded_free(a); vf_guarded_free(ac); vf_guarded_free(t); vf_guarded_free(tc); vf_free(b.p);
}

/* ---- information about renderings */
static status_t ev_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) { status_declare; (void)e; for (sp_time_t i = 0; i < end - start; i++) for (int c = 0; c < out.channel_count; c++) out.samples[c][i] += .1; status_return; }
int __wrap_system(const char* c) { (void)c; return 0; }
FILE* __real_fopen(const char* path, const char* mode); static int tracked;
FILE* __wrap_fopen(const char* path, const char* mode) { char q[600]; if (!tracked || !strncmp(path, vf_scratch, strlen(vf_scratch))) return __real_fopen(path, mode); const char* b = strrchr(path, '/'); snprintf(q, sizeof q, "%s/%s", vf_scratch, b ? b + 1 : path); FILE* f = __real_fopen(q, mode); unlink(q); return f; }
static void t_reports(vf_rng* r, uint64_t ix) {
  int kind = (int)(ix % 3); sp_rate = 1 + (sp_time_t)vf_below(r, 300); sp_channel_count = (sp_channel_count_t)(1 + vf_below(r, 2)); sp_event_t e = sp_null_event; e.end = 1 + (sp_time_t)vf_below(r, vf_chance(r, .4) ? sp_rate : 9 * sp_rate); e.generate = ev_generate; char path[400], w[200]; w_name(path, sizeof path, "report.wav"); snprintf(w, sizeof w, "%s of %u samples with rate %u", kind == 0 ? "file" : kind == 1 ? "plot" : "range", e.end, sp_rate);
  sp_time_t block = sp_render_block_seconds * sp_rate, end = e.end; int progress = 1; capture(); tracked = 1; status_t s; if (kind == 0) s = sp_render_file(e, (uint8_t*)path); else if (kind == 1) s = sp_render_plot(e); else { block = 1 + (sp_time_t)vf_below(r, end + 20); progress = vf_chance(r, .7); s = sp_render_range_file(e, 0, end, sp_render_config(sp_channel_count, sp_rate, block, (sp_bool_t)progress), (uint8_t*)path); } tracked = 0; wbuf b = captured(); char* p = (char*)b.p; vf_eval(3); if (s.id) vf_fail(K("status"), "%s: status %d", w, s.id);
  if (kind < 2) {
    unsigned long long v; char unit[40] = "", rest[500] = ""; int k = 0; const char* form = kind ? "rendering %llu %30s to plot\n%n" : "rendering %llu %30s to file %400s\n%n"; if (sscanf(p, form, &v, unit, kind ? (char*)&k : rest, kind ? 0 : &k) < 2) vf_fail(K("report"), "%s: \"%.80s\"", w, p);
    else { double per = !strcmp(unit, "seconds") ? 1 : !strcmp(unit, "milliseconds") ? 1000 : 0, want = (double)end / sp_rate * per; if (!per) vf_fail(K("report"), "%s: unit \"%s\"", w, unit); else if (fabs((double)v - want) > 1) vf_fail(K("report"), "%s: \"%.80s\" instead of %g", w, p, want); if (!kind && strcmp(rest, path)) vf_fail(K("report"), "%s: the path is not shown", w); }
    p = strchr(p, '\n'); p = p ? p + 1 : (char*)b.p + b.n;
  }
  if (kind != 1) { /* the progress of each full block */ sp_time_t blocks = progress ? end / block : 0, i = 0; double last = -1; while (*p) { char* q; double v = strtod(p, &q); vf_eval(1); if (q == p) { vf_fail(K("progress"), "%s: \"%.50s\" is no progress", w, p); break; } if (i < blocks && fabs(v - 100.0 * i / blocks) > .11) { vf_fail(K("progress"), "%s: block %u of %u is at %g percent", w, i, blocks, v); break; } if (v <= last && blocks < 900) { vf_fail(K("progress"), "%s: progress decreases", w); break; } last = v; i++; p = strchr(q, '\n'); if (!p) break; p++; } vf_eval(1); if (!vf_failed_in_case() && i != blocks) vf_fail(K("progress"), "%s: progress shown %u times for %u blocks", w, i, blocks); }
  unlink(path); vf_sig(vf_mix(vf_mix(end, sp_rate), (uint64_t)kind)); vf_count(kind == 0 ? "files reported" : kind == 1 ? "plots reported" : "ranges reported", 1); if (ix < 3) vf_sample("%s: %.60s", w, (char*)b.p); vf_free(b.p); sp_rate = 960;
}
vf_suite vf_suites[] = {{"strings", t_strings, 6000, 60000}, {"directories", t_directories, 2500, 25000}, {"display", t_display, 4000, 40000}, {"reports", t_reports, 1500, 15000}, {0}};
