/* I02: file errors and malformed files are reported as failures */
#include "wavf.h"
#define K(f) "I02:" f
void vf_setup(void) { signal(SIGXFSZ, SIG_IGN); status_t s = sp_initialize(0, 2, 200); if (s.id) vf_error("init"); }
#define MAXCH 255
static int fds_before;
static void begin(void) { fds_before = w_fds(); vf_ledger_begin(); }
static void end(const char* w) { vf_ledger_end_empty(K("leak"), w); vf_eval(1); int k = w_fds() - fds_before; if (k) vf_fail(K("handles"), "%s: %d file handles left open", w, k); }
static int limited; static struct rlimit old_limit;
static void limit(long n) { if (n < 0) return; getrlimit(RLIMIT_FSIZE, &old_limit); struct rlimit l = old_limit; l.rlim_cur = (rlim_t)n; if (setrlimit(RLIMIT_FSIZE, &l)) vf_error("rlimit"); limited = 1; }
static void unlimit(void) { if (limited) { setrlimit(RLIMIT_FSIZE, &old_limit); limited = 0; } }
/* writes a file and returns the number of failing calls, with statuses in text */
static int write_all(vf_rng* r, const char* path, int ch, sp_time_t n, char* log, size_t log_n, int* opened) {
  sp_file_t f; memset(&f, 0x5a, sizeof f); int fails = 0, chunks = 0; status_t s = sp_file_open_write((uint8_t*)path, (sp_channel_count_t)ch, 8000, &f); *opened = !s.id; snprintf(log, log_n, "open %d", s.id); if (s.id) return 1;
  sp_sample_t* p[MAXCH]; for (int c = 0; c < ch; c++) { p[c] = vf_malloc((n + 1) * sizeof(double)); for (sp_time_t i = 0; i < n; i++) p[c][i] = (double)(i % 100) / 100; }
  for (sp_time_t at = 0; at < n && chunks < 40;) { sp_time_t k = chunks == 39 ? n - at : 1 + (sp_time_t)vf_below(r, n - at); sp_sample_t* q[MAXCH]; for (int c = 0; c < ch; c++) q[c] = p[c] + at; s = sp_file_write(&f, q, k); if (s.id) { fails++; size_t l = strlen(log); snprintf(log + l, log_n - l, ", write %d", s.id); if (vf_chance(r, .5)) break; } at += k; chunks++; }
  s = sp_file_close_write(&f); if (s.id) { fails++; size_t l = strlen(log); snprintf(log + l, log_n - l, ", close %d", s.id); }
  for (int c = 0; c < ch; c++) vf_free(p[c]);
  return fails;
}
static const char* bad_path(vf_rng* r, int kind, char* path, size_t n) {
  switch (kind) { case 0: w_name(path, n, "missing/file.wav"); return "missing directory"; case 1: snprintf(path, n, "%s", vf_scratch); return "a directory"; case 2: path[0] = 0; return "empty path"; case 3: { size_t l = 4000 + vf_below(r, 90); if (l >= n) l = n - 1; memset(path, 'a', l); path[0] = '/'; path[l] = 0; return "name too long"; } case 4: { char f[300]; w_name(f, sizeof f, "plain"); w_spit(f, (const uint8_t*)"x", 1); w_name(path, n, "plain/sub.wav"); return "below a file"; } default: { char f[300]; w_name(f, sizeof f, "loop"); if (symlink("loop", f) && errno != EEXIST) vf_error("symlink"); snprintf(path, n, "%s", f); return "symlink loop"; } }
}
static int ev_freed, ev_prepared, ev_generated, ev_memory; static sp_time_t ev_fail_at; static int ev_fail;
static void memory_free(void* p) { (void)p; ev_memory++; }
static status_t event_prepare(sp_event_t* e) { status_declare; ev_prepared++; if (ev_fail == 2) { status.id = 77; status.group = (uint8_t*)"i02"; return status; } if (!e->end) e->end = (sp_time_t)(uintptr_t)e->config; return status; }
static status_t event_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) { status_declare; (void)e; ev_generated++; for (int c = 0; c < out.channel_count; c++) for (sp_time_t t = start; t < end; t++) out.samples[c][t - start] += (double)(t % 50) / 50; if (ev_fail == 1 && start <= ev_fail_at && ev_fail_at < end) { status.id = 78; status.group = (uint8_t*)"i02"; } return status; }
static void event_free(sp_event_t* e) { ev_freed++; e->free = 0; sp_event_memory_free(e); }
static status_t render(vf_rng* r, const char* path, int ch, sp_time_t n, sp_time_t block, int how) {
  ev_freed = ev_prepared = ev_generated = ev_memory = 0; sp_declare_event(e); e.start = 0; e.end = how ? 0 : n; e.config = (void*)(uintptr_t)n; e.prepare = event_prepare; e.generate = event_generate; e.free = event_free; sp_event_t* p = &e; if (sp_event_memory_add_with_handler(p, path ? (void*)path : p, memory_free).id) vf_error("memory"); (void)r;
  if (how) { sp_channel_count = (sp_channel_count_t)ch; return sp_render_file(e, (uint8_t*)path); }
  return sp_render_range_file(e, 0, n, sp_render_config((sp_channel_count_t)ch, 8000, block, 0), (uint8_t*)path);
}
static void consumed(const char* w) { vf_eval(2); if (ev_freed != 1) vf_fail(K("event"), "%s: the event was freed %d times", w, ev_freed); if (ev_memory != 1) vf_fail(K("event"), "%s: memory of the event was freed %d times", w, ev_memory); }
static void t_paths(vf_rng* r, uint64_t ix) {
  char path[5000], w[200], log[300]; int kind = (int)(ix % 6), how = (int)vf_below(r, 3), opened; const char* what = bad_path(r, kind, path, sizeof path);
  if (how == 0) { /* read */
    snprintf(w, sizeof w, "reading: %s", what); begin(); sp_file_t f; memset(&f, 0x5a, sizeof f); f.file = 0; status_t s = sp_file_open_read((uint8_t*)path, &f); vf_eval(2); if (!s.id) { vf_fail(K("open-read"), "%s: succeeded", w); } else if (!s.group || !*sp_status_description(s)) { if (!s.group) vf_fail(K("group"), "%s: status %d without group", w, s.id); } end(w); vf_count("files that can not be opened to read", 1);
  } else if (how == 1) { snprintf(w, sizeof w, "writing: %s", what); begin(); int k = write_all(r, path, 1 + (int)vf_below(r, 3), 10, log, sizeof log, &opened); vf_eval(1); if (!k || opened) vf_fail(K("open-write"), "%s: %s", w, log); end(w); vf_count("files that can not be opened to write", 1); }
  else { int rf = vf_chance(r, .4); ev_fail = 0; snprintf(w, sizeof w, "rendering%s: %s", rf ? " the whole event" : "", what); begin(); status_t s = render(r, path, 1 + (int)vf_below(r, 2), 1 + (sp_time_t)vf_below(r, 300), 1 + (sp_time_t)vf_below(r, 100), rf); vf_eval(1); if (!s.id) vf_fail(K("render"), "%s: succeeded", w); consumed(w); end(w); vf_count("renderings to files that can not be opened", 1); }
  vf_sig(vf_mix((uint64_t)kind, (uint64_t)how)); if (ix < 3) vf_sample("%s", w);
}
/* files that can not be positioned: sizes can not be completed, so that writing has to fail */
static void t_pipe(vf_rng* r, uint64_t ix) {
  char path[300], w[200], log[300] = ""; int how = (int)vf_below(r, 3), opened; static uint8_t sink[70000]; w_name(path, sizeof path, "pipe"); unlink(path); if (mkfifo(path, 0600)) vf_error("mkfifo"); int fd = open(path, O_RDWR | O_NONBLOCK); if (fd < 0) vf_error("open pipe");
  if (how == 0) { snprintf(w, sizeof w, "reading a pipe"); uint8_t h[64] = "RIFF\x38\0\0\0WAVEfmt \x10\0\0\0\3\0\1\0\x40\x1f\0\0\0\x7d\0\0\4\0\x20\0" "data\x14\0\0\0"; size_t k = vf_chance(r, .3) ? 1 + vf_below(r, 64) : 64; if (write(fd, h, k) != (ssize_t)k) vf_error("write pipe"); int ro = open(path, O_RDONLY | O_NONBLOCK); if (ro < 0) vf_error("open pipe"); close(fd); fd = ro; begin(); sp_file_t f; memset(&f, 0x5a, sizeof f); f.file = 0; if (k == 64) { int keep = open(path, O_WRONLY | O_NONBLOCK); alarm(0); if (keep >= 0) { fds_before++; status_t s = sp_file_open_read((uint8_t*)path, &f); if (!s.id) sp_file_close_read(f); close(keep); fds_before--; } } end(w); }
  else if (how == 1) { snprintf(w, sizeof w, "writing to a pipe"); begin(); int k = write_all(r, path, 1 + (int)vf_below(r, 3), 1 + (sp_time_t)vf_below(r, 200), log, sizeof log, &opened); vf_eval(1); if (!k) vf_fail(K("open-write"), "%s: %s", w, log); end(w); }
  else { int rf = vf_chance(r, .4); ev_fail = 0; snprintf(w, sizeof w, "rendering%s to a pipe", rf ? " the whole event" : ""); begin(); status_t s = render(r, path, 1 + (int)vf_below(r, 2), 1 + (sp_time_t)vf_below(r, 300), 1 + (sp_time_t)vf_below(r, 100), rf); vf_eval(1); if (!s.id) vf_fail(K("render"), "%s: succeeded", w); consumed(w); end(w); }
  while (read(fd, sink, sizeof sink) > 0); close(fd); unlink(path); vf_count("pipes", 1); vf_sig(vf_mix((uint64_t)how, 4711)); if (ix < 3) vf_sample("%s", w);
}
/* full device, or a limit of the file size at any byte */
static void t_full(vf_rng* r, uint64_t ix) {
  char path[300], w[300], log[900] = ""; int how = (int)vf_below(r, 3), device = vf_chance(r, .15), ch = 1 + (int)vf_below(r, vf_chance(r, .9) ? 2 : 40), opened = 0, fails; if (how) ch = 1 + ch % 2; sp_time_t n = (sp_time_t)vf_size(r, 1, vf_chance(r, .15) ? 6000 : 300), block = 1 + (sp_time_t)vf_below(r, n + 10);
  size_t bytes = 44 + (size_t)n * (size_t)ch * 4; long at = device ? -1 : vf_chance(r, .2) ? (long)vf_below(r, 45) : vf_chance(r, .15) ? (long)bytes + (long)vf_below(r, 3) : (long)vf_below(r, bytes); if (device) snprintf(path, sizeof path, "/dev/full"); else { w_name(path, sizeof path, "full.wav"); unlink(path); }
  begin(); status_t s = {0}; ev_fail = 0; limit(at);
  if (how == 0) fails = write_all(r, path, ch, n, log, sizeof log, &opened); else { s = render(r, path, ch, n, block, how == 2); fails = s.id != 0; opened = 1; }
  unlimit(); snprintf(w, sizeof w, "%s %u samples, %d channels to %s", how == 0 ? "writing" : "rendering", n, ch, device ? "/dev/full" : "a file"); if (!device) { size_t l = strlen(w); snprintf(w + l, sizeof w - l, " limited to %ld of %zu bytes", at, bytes); }
  if (how) consumed(w); end(w); vf_eval(1);
  int must = device || (size_t)at < bytes;
  if (must && !fails) vf_fail(K("unreported"), "%s: every call succeeded", w);
  if (!must) { if (fails) vf_fail(K("status"), "%s: %s, status %d", w, log, s.id); wbuf b = w_slurp(path); vf_eval(1); if (b.n != bytes) vf_fail(K("status"), "%s: the file has %zu bytes", w, b.n); vf_free(b.p); }
  vf_count(device ? "writes to a full device" : must ? "writes beyond a limit" : "writes just within a limit", 1); if (!device) unlink(path); vf_sig(vf_mix(vf_mix(n, (uint64_t)at), (uint64_t)(how * 100 + ch))); if (ix < 4) vf_sample("%s: %s", w, how ? "" : log);
}
/* what is known about a file: 1 has to be readable, 0 has to be rejected, -1 undecided */
static int judge(const wbuf* b, int* ch, size_t* data, size_t* frames) {
  if (b->n < 36 || memcmp(b->p, "RIFF", 4) || memcmp(b->p + 8, "WAVE", 4)) return 0;
  if (memcmp(b->p + 12, "fmt ", 4)) return -1; /* other chunks before the format chunk */
  uint32_t fs = w_u32(b->p + 16); if (fs < 16) return 0;
  if (w_u16(b->p + 20) != 3 || w_u16(b->p + 34) != 32) return 0;
  *ch = w_u16(b->p + 22); if (!*ch || *ch > 255) return 0;
  size_t at = 20 + (size_t)fs + (fs & 1); int strict = w_u16(b->p + 32) == *ch * 4;
  for (;;) { if (at + 8 > b->n) return 0; uint32_t size = w_u32(b->p + at + 4); if (!memcmp(b->p + at, "data", 4)) { *data = at + 8; *frames = (b->n - at - 8) / 4 / (size_t)*ch; return strict && (size_t)size == b->n - at - 8 ? 1 : strict ? 2 : -1; } at += 8 + (size_t)size + (size & 1); }
}
static void t_malformed(vf_rng* r, uint64_t ix) {
  int ch = 1 + (int)vf_below(r, 3), extra = (int)vf_below(r, 3); sp_time_t n = (sp_time_t)vf_below(r, 40); wbuf b = {vf_malloc(6000), 0}; char path[300], w[300]; const char* what = "unchanged";
  w_put(&b, "RIFF", 4); w_put32(&b, 0); w_put(&b, "WAVEfmt ", 8); uint32_t fs = vf_chance(r, .7) ? 16 : 18; w_put32(&b, fs); w_put16(&b, 3); w_put16(&b, (uint16_t)ch); w_put32(&b, 8000); w_put32(&b, 8000 * (uint32_t)ch * 4); w_put16(&b, (uint16_t)(ch * 4)); w_put16(&b, 32); if (fs == 18) w_put16(&b, 0);
  for (int e = 0; e < extra; e++) { uint32_t size = (uint32_t)vf_below(r, 60); w_put(&b, "LIST", 4); w_put32(&b, size); for (uint32_t i = 0; i < size + (size & 1); i++) b.p[b.n++] = (uint8_t)vf_u64(r); }
  size_t dat = b.n; w_put(&b, "data", 4); w_put32(&b, n * (uint32_t)ch * 4); for (sp_time_t i = 0; i < n * (sp_time_t)ch; i++) { float x = (float)vf_real(r, -1, 1); w_put(&b, &x, 4); } uint32_t riff = (uint32_t)b.n - 8; memcpy(b.p + 4, &riff, 4);
  size_t header = dat + 8;
  switch (vf_below(r, 12)) {
    case 0: b.n = vf_below(r, header + 1); what = "truncated header"; break;
    case 1: b.n = vf_below(r, b.n + 1); what = "truncated"; break;
    case 2: b.p[vf_below(r, 4)] ^= (uint8_t)(1 + vf_below(r, 255)); what = "other container"; break;
    case 3: b.p[8 + vf_below(r, 4)] ^= (uint8_t)(1 + vf_below(r, 255)); what = "other form"; break;
    case 4: { static const uint16_t fmts[] = {0, 1, 2, 6, 7, 0x11, 0xfffe, 0x103, 0x300}; uint16_t f = fmts[vf_below(r, 9)]; memcpy(b.p + 20, &f, 2); what = "other sample format"; break; }
    case 5: { static const uint16_t bits[] = {0, 8, 16, 24, 64, 31, 33, 288, 8224}; uint16_t f = bits[vf_below(r, 9)]; memcpy(b.p + 34, &f, 2); what = "other sample size"; break; }
    case 6: { static const uint16_t chs[] = {0, 256, 257, 258, 512, 65535, 255, 100}; uint16_t c = chs[vf_below(r, 8)]; memcpy(b.p + 22, &c, 2); if (vf_chance(r, .5)) { uint16_t a = (uint16_t)(c * 4); memcpy(b.p + 32, &a, 2); } what = "other channel count"; break; }
    case 7: { uint32_t k = vf_chance(r, .5) ? (uint32_t)vf_below(r, 70) : (uint32_t)vf_u64(r); memcpy(b.p + 16, &k, 4); what = "other size of the format chunk"; break; }
    case 8: if (dat > 40) { uint32_t k = vf_chance(r, .5) ? (uint32_t)vf_below(r, 100) : (uint32_t)vf_u64(r); memcpy(b.p + 20 + fs + 4, &k, 4); what = "other size of a chunk"; } break;
    case 9: { int k = 1 + (int)vf_below(r, 6); for (int i = 0; i < k; i++) b.p[vf_below(r, header < b.n ? header : b.n)] = (uint8_t)vf_u64(r); what = "random bytes in the header"; break; }
    case 10: memcpy(b.p + dat, "dat\0", 4); what = "no data chunk"; break;
    default: break;
  }
  w_name(path, sizeof path, "malformed.wav"); w_spit(path, b.p, b.n); int jch = 0; size_t data = 0, frames = 0; int verdict = judge(&b, &jch, &data, &frames); snprintf(w, sizeof w, "%s file of %zu bytes", what, b.n);
  begin(); sp_file_t f; memset(&f, 0x5a, sizeof f); status_t s = sp_file_open_read((uint8_t*)path, &f); vf_eval(2);
  if (verdict == 0 && !s.id) vf_fail(K("accepted"), "%s: opened", w);
  if (verdict == 1 && s.id) vf_fail(K("rejected"), "%s: status %d for a well formed file", w, s.id);
  if (s.id && !s.group) vf_fail(K("group"), "%s: no group", w);
  if (!s.id) {
    size_t total = 0; int ended = 0, channels = f.channel_count; vf_eval(2); if (!channels) vf_fail(K("accepted"), "%s: no channels", w);
    if (verdict > 0 && channels != jch) vf_fail(K("channels"), "%s: %d channels, expected %d", w, channels, jch);
    sp_sample_t* out[MAXCH]; for (int k = 0; k < 4000 && !ended && channels; k++) {
      sp_time_t want = 1 + (sp_time_t)vf_below(r, 30); for (int c = 0; c < channels; c++) { out[c] = out_samples(want); for (sp_time_t i = 0; i < want; i++) out[c][i] = 4444.5; }
      s = sp_file_read(f, want, out); size_t got = 0; while (got < want && out[0][got] != 4444.5) got++;
      for (int c = 0; c < channels; c++) { guards_ok(K("outside"), w, out[c]); vf_guarded_free(out[c]); }
      if (s.id) { ended = 1; vf_eval(1); if (s.id != sp_s_id_file_eof && s.id != sp_s_id_file_read) vf_fail(K("end"), "%s: status %d", w, s.id); } else { total += got; if (!got) { vf_fail(K("end"), "%s: a read that returned nothing succeeded", w); break; } }
    }
    vf_eval(2); if (channels && !ended) vf_fail(K("end"), "%s: the end is never reported", w); if (verdict > 0 && total != frames && !(verdict == 2 && total < frames)) vf_fail(K("frames"), "%s: %zu samples read, the file has %zu", w, total, frames);
    sp_file_close_read(f);
  }
  end(w); unlink(path); vf_count(verdict == 0 ? "files that have to be rejected" : verdict == 1 ? "well formed files" : "files with contradicting sizes", 1); vf_sig(vf_hash(b.p, b.n, 3)); if (ix < 3) vf_sample("%s: %s", w, s.id ? "failure" : "readable"); vf_free(b.p);
}
/* handles that stop working while they are used */
static void t_broken(vf_rng* r, uint64_t ix) {
  char path[300], w[200], log[900] = ""; int ch = 1 + (int)vf_below(r, 2); w_name(path, sizeof path, "broken.wav"); sp_time_t n = 2000 + (sp_time_t)vf_below(r, 6000); int opened, how = (int)vf_below(r, 2);
  if (write_all(r, path, ch, n, log, sizeof log, &opened)) vf_error("writing");
  sp_sample_t* p[2]; for (int c = 0; c < 2; c++) { p[c] = vf_malloc(n * sizeof(double)); for (sp_time_t i = 0; i < n; i++) p[c][i] = 0.5; }
  begin(); sp_file_t f; memset(&f, 0x5a, sizeof f); int fails = 0; snprintf(w, sizeof w, "%s with a handle that fails", how ? "writing" : "reading");
  if (how == 0) { if (sp_file_open_read((uint8_t*)path, &f).id) vf_error("open"); sp_time_t k = 1 + (sp_time_t)vf_below(r, 100); if (vf_chance(r, .5)) { if (sp_file_read(f, k, p).id) vf_fail(K("broken"), "%s: failed before", w); } int d = open(vf_scratch, O_RDONLY); if (d < 0 || dup2(d, fileno(f.file)) < 0) vf_error("dup2"); close(d); /* reading a directory is an error */
    status_t s = {0}; for (int i = 0; i < 400 && !s.id; i++) s = sp_file_read(f, n, p); vf_eval(1); if (!s.id) vf_fail(K("broken"), "%s: succeeded", w); else if (s.id == sp_s_id_file_eof) vf_fail(K("broken"), "%s: reported as the end of the file", w); sp_file_close_read(f); }
  else { if (sp_file_open_write((uint8_t*)path, (sp_channel_count_t)ch, 8000, &f).id) vf_error("open"); sp_time_t k = 1 + (sp_time_t)vf_below(r, n); if (vf_chance(r, .5)) { if (sp_file_write(&f, p, k).id) vf_fail(K("broken"), "%s: failed before", w); } int d = open("/dev/full", O_WRONLY); if (d < 0 || dup2(d, fileno(f.file)) < 0) vf_error("dup2"); close(d); int writes = (int)vf_below(r, 3);
    for (int i = 0; i < writes; i++) if (sp_file_write(&f, p, 1 + (sp_time_t)vf_below(r, n)).id) fails++; if (sp_file_close_write(&f).id) fails++; vf_eval(1); if (!fails) vf_fail(K("broken"), "%s: every call succeeded", w); }
  end(w); unlink(path); for (int c = 0; c < 2; c++) vf_free(p[c]); vf_count("handles that failed", 1); vf_sig(vf_mix(n, (uint64_t)(how + ch * 10))); if (ix < 2) vf_sample("%s", w);
}
/* events that fail while they are rendered to a file */
static void t_events(vf_rng* r, uint64_t ix) {
  char path[300], w[200]; w_name(path, sizeof path, "event.wav"); int rf = vf_chance(r, .4), ch = 1 + (int)vf_below(r, 2); sp_time_t n = (sp_time_t)vf_size(r, 1, 900), block = 1 + (sp_time_t)vf_below(r, n + 10); ev_fail = (int)vf_below(r, 3); ev_fail_at = (sp_time_t)vf_below(r, n);
  snprintf(w, sizeof w, "rendering %u samples in blocks of %u, %s", n, block, ev_fail == 0 ? "no failure" : ev_fail == 1 ? "generate fails" : "prepare fails"); begin(); status_t s = render(r, path, ch, n, block, rf); vf_eval(2);
  int want = ev_fail == 0 ? 0 : ev_fail == 1 ? 78 : 77; if (s.id != want) vf_fail(K("status"), "%s: status %d, expected %d", w, s.id, want); if (ev_prepared != 1) vf_fail(K("event"), "%s: prepared %d times", w, ev_prepared); consumed(w); end(w);
  if (!ev_fail) { wbuf b = w_slurp(path); vf_eval(1); if (b.n != 44 + (size_t)n * (size_t)ch * 4) vf_fail(K("status"), "%s: %zu bytes written", w, b.n); vf_free(b.p); }
  if (vf_chance(r, .3)) { ev_fail = ev_fail ? ev_fail : 1; begin(); sp_block_t out; memset(&out, 0x5a, sizeof out); ev_freed = ev_prepared = ev_generated = ev_memory = 0; sp_declare_event(e); e.end = n; e.prepare = event_prepare; e.generate = event_generate; e.free = event_free; sp_event_t* p = &e; if (sp_event_memory_add_with_handler(p, p, memory_free).id) vf_error("memory"); s = sp_render_range_block(e, 0, n, sp_render_config((sp_channel_count_t)ch, 8000, block, 0), &out); vf_eval(1); if (s.id != (ev_fail == 1 ? 78 : 77)) vf_fail(K("status"), "rendering to a block: status %d", s.id); consumed("rendering to a block"); end("rendering to a block"); }
  unlink(path); vf_count("events rendered to files", 1); vf_sig(vf_mix(vf_mix(n, block), (uint64_t)ev_fail)); if (ix < 3) vf_sample("%s: status %d", w, s.id);
}
vf_suite vf_suites[] = {{"paths", t_paths, 600, 6000}, {"pipe", t_pipe, 300, 3000}, {"full", t_full, 6000, 200000}, {"malformed", t_malformed, 12000, 600000}, {"broken", t_broken, 500, 10000}, {"events", t_events, 3000, 60000}, {0}};
