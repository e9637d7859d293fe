/* I01: written wave files are well formed and read back identically */
#include "wavf.h"
#define K(f) "I01:" f
#define MAXCH 255
void vf_setup(void) {}
/* values that are near a float or exactly a float, of both signs and many magnitudes */
static double value(vf_rng* r) { switch (vf_below(r, 8)) { case 0: return 0; case 1: return vf_chance(r, .5) ? 1 : -1; case 2: return (double)(float)vf_real(r, -1, 1); case 3: return vf_real(r, -1e30, 1e30); case 4: return vf_real(r, -1e-30, 1e-30); case 5: return (double)vf_range(r, -32768, 32767) / 32768; default: return vf_real(r, -1, 1); } }
/* whole data as float, channel by channel */
typedef struct { int ch; sp_time_t n; double* s[MAXCH]; } data_t;
static data_t data_new(vf_rng* r, int ch, sp_time_t n) { data_t d = {.ch = ch, .n = n}; for (int c = 0; c < ch; c++) { d.s[c] = vf_malloc((n + 1) * sizeof(double)); for (sp_time_t i = 0; i < n; i++) d.s[c][i] = value(r); } return d; }
static void data_free(data_t* d) { for (int c = 0; c < d->ch; c++) vf_free(d->s[c]); }
static sp_time_t pick(vf_rng* r, sp_time_t rest) { sp_time_t n = vf_chance(r, .1) ? rest : vf_chance(r, .5) ? (sp_time_t)vf_below(r, 20) : (sp_time_t)vf_size(r, 0, rest + 10); return n; }
/* reads everything in pieces of any sizes and compares */
static void read_all(vf_rng* r, const char* path, data_t* d, const char* w) {
  sp_file_t f; memset(&f, 0x5a, sizeof f); status_t s = sp_file_open_read((uint8_t*)path, &f); vf_eval(2);
  if (s.id) { vf_fail(K("open-read"), "%s: opening failed with %d", w, s.id); return; }
  if (f.channel_count != d->ch) { vf_fail(K("channel-count"), "%s: channel count read is %d, the file has %d", w, f.channel_count, d->ch); sp_file_close_read(f); return; }
  sp_time_t at = 0; int ended = 0;
  for (int k = 0; k < 100000; k++) {
    sp_time_t want = k > 60 ? d->n + 1 : pick(r, d->n - at), have = want < d->n - at ? want : d->n - at; sp_sample_t* out[MAXCH]; for (int c = 0; c < d->ch; c++) { out[c] = out_samples(want); for (sp_time_t i = 0; i < want; i++) out[c][i] = 7777.25; }
    s = sp_file_read(f, want, out); vf_eval(2);
    int eof_expected = want && !have;
    if (eof_expected ? s.id != sp_s_id_file_eof : s.id != 0) { vf_fail(eof_expected ? K("end") : K("read"), "%s: reading %u at %u of %u returned status %d", w, want, at, d->n, s.id); ended = 1; }
    if (!s.id && !ended) for (int c = 0; c < d->ch && !vf_failed_in_case(); c++) { vf_eval(want); for (sp_time_t i = 0; i < want; i++) { double x = i < have ? (double)(float)d->s[c][at + i] : 7777.25; if (out[c][i] != x) { vf_fail(i < have ? K("samples") : K("beyond"), "%s: channel %d sample %u read as %.9g, expected %.9g", w, c, at + i, out[c][i], x); break; } } }
    for (int c = 0; c < d->ch; c++) { guards_ok(K("outside"), "reading", out[c]); vf_guarded_free(out[c]); }
    at += have; if (eof_expected || ended) { if (!vf_chance(r, .3)) break; }
    if (k > 70) break;
  }
  vf_eval(1); if (at != d->n && !vf_failed_in_case()) vf_fail(K("read"), "%s: only %u of %u read", w, at, d->n);
  sp_file_close_read(f);
}
static void check_bytes(const char* path, data_t* d, uint32_t rate, const char* w) {
  wbuf b = w_slurp(path); size_t bytes = (size_t)d->n * (size_t)d->ch * 4; vf_eval(14); const uint8_t* h = b.p;
  if (b.n != 44 + bytes) vf_fail(K("size"), "%s: the file has %zu bytes, expected %zu", w, b.n, 44 + bytes);
  else if (memcmp(h, "RIFF", 4) || memcmp(h + 8, "WAVE", 4) || memcmp(h + 12, "fmt ", 4) || memcmp(h + 36, "data", 4)) vf_fail(K("header"), "%s: chunk identifiers", w);
  else if (w_u32(h + 4) != 36 + bytes || w_u32(h + 40) != bytes) vf_fail(K("header"), "%s: sizes %u and %u for %zu bytes of data", w, w_u32(h + 4), w_u32(h + 40), bytes);
  else if (w_u32(h + 16) != 16 || w_u16(h + 20) != 3 || w_u16(h + 34) != 32) vf_fail(K("header"), "%s: format chunk of size %u, format %u, %u bits", w, w_u32(h + 16), w_u16(h + 20), w_u16(h + 34));
  else if (w_u16(h + 22) != d->ch || w_u32(h + 24) != rate || w_u32(h + 28) != (uint32_t)(rate * (uint32_t)d->ch * 4) || w_u16(h + 32) != d->ch * 4) vf_fail(K("header"), "%s: %u channels, rate %u, %u bytes per second, %u bytes per frame", w, w_u16(h + 22), w_u32(h + 24), w_u32(h + 28), w_u16(h + 32));
  else { vf_eval((uint64_t)d->n * (uint64_t)d->ch); for (sp_time_t i = 0; i < d->n; i++) for (int c = 0; c < d->ch; c++) { float x = (float)d->s[c][i], y; memcpy(&y, h + 44 + ((size_t)i * (size_t)d->ch + (size_t)c) * 4, 4); if (x != y) { vf_fail(K("data"), "%s: sample %u of channel %d is %.9g, expected %.9g", w, i, c, y, x); i = d->n; break; } } }
  vf_free(b.p);
}
typedef struct { sp_file_t f; data_t d; sp_time_t at; uint32_t rate; char path[300], w[120]; int open, chunks; } writer;
static void writer_open(vf_rng* r, writer* x, int i, int large) {
  memset(x, 0, sizeof *x); int ch = vf_chance(r, .6) ? 1 + (int)vf_below(r, 2) : 1 + (int)vf_below(r, !large && vf_chance(r, .05) ? MAXCH : 12); sp_time_t n = vf_chance(r, .05) ? 0 : (sp_time_t)vf_size(r, 1, large ? 60000 : vf_chance(r, .1) ? 6000 : 400); x->d = data_new(r, ch, n); x->rate = (uint32_t)vf_size(r, 1, 200000);
  char name[20]; snprintf(name, sizeof name, "w%d.wav", i); w_name(x->path, sizeof x->path, name); snprintf(x->w, sizeof x->w, "%u samples, %d channels, rate %u", n, ch, x->rate);
  if (vf_chance(r, .3)) { uint8_t junk[3000]; memset(junk, 0x55, sizeof junk); w_spit(x->path, junk, sizeof junk); }
  memset(&x->f, 0x5a, sizeof x->f); status_t s = sp_file_open_write((uint8_t*)x->path, (sp_channel_count_t)ch, x->rate, &x->f); vf_eval(1); if (s.id) vf_fail(K("open-write"), "%s: status %d", x->w, s.id); else x->open = 1;
}
static int writer_step(vf_rng* r, writer* x) {
  if (!x->open) return 0;
  if (x->at >= x->d.n && vf_chance(r, .8)) { status_t s = sp_file_close_write(&x->f); vf_eval(1); if (s.id) vf_fail(K("close"), "%s: status %d", x->w, s.id); x->open = 0; return 0; }
  sp_time_t rest = x->d.n - x->at, n = x->chunks > 50 ? rest : pick(r, rest); if (n > rest) n = rest; sp_sample_t *p[MAXCH], *q[MAXCH]; for (int c = 0; c < x->d.ch; c++) { p[c] = out_samples(n); memcpy(p[c], x->d.s[c] + x->at, n * sizeof(double)); q[c] = dup_samples(p[c], n); }
  status_t s = sp_file_write(&x->f, p, n); vf_eval(1); if (s.id) vf_fail(K("write"), "%s: writing %u samples at %u returned %d", x->w, n, x->at, s.id);
  for (int c = 0; c < x->d.ch; c++) { same_mem(K("input"), "writing", p[c], q[c], n * sizeof(double)); vf_guarded_free(p[c]); vf_guarded_free(q[c]); }
  x->at += n; x->chunks++; return 1;
}
static void t_roundtrip(vf_rng* r, uint64_t ix) {
  int fds = w_fds(), k = vf_chance(r, .8) ? 1 : 2 + (int)vf_below(r, 3); writer x[5]; vf_ledger_begin();
  for (int i = 0; i < k; i++) writer_open(r, x + i, i, vf_chance(r, .01));
  for (int live = 1; live;) { live = 0; for (int i = 0; i < k; i++) live |= writer_step(r, x + i); }
  for (int i = 0; i < k; i++) { if (!vf_failed_in_case()) check_bytes(x[i].path, &x[i].d, x[i].rate, x[i].w); if (!vf_failed_in_case()) read_all(r, x[i].path, &x[i].d, x[i].w); unlink(x[i].path); vf_count("chunks written", (uint64_t)x[i].chunks); vf_count("files", 1); if (x[i].d.ch > 2) vf_count("files with more than two channels", 1); vf_sig(vf_mix(vf_mix(x[i].d.n, x[i].rate), (uint64_t)x[i].d.ch * 100 + (uint64_t)x[i].chunks)); }
  vf_ledger_end_empty(K("leak"), x[0].w); vf_eval(1); if (w_fds() != fds) vf_fail(K("handles"), "%s: %d files are still open", x[0].w, w_fds() - fds);
  if (ix < 3) vf_sample("%s in %d chunks, %d files at a time", x[0].w, x[0].chunks, k);
  for (int i = 0; i < k; i++) data_free(&x[i].d);
}
/* files of other programs: longer format chunks, other chunks before the data */
static void t_foreign(vf_rng* r, uint64_t ix) {
  int ch = 1 + (int)vf_below(r, vf_chance(r, .02) ? MAXCH : 12); sp_time_t n = vf_chance(r, .05) ? 0 : (sp_time_t)vf_size(r, 1, 300); data_t d = data_new(r, ch, n); char path[300], w[160]; w_name(path, sizeof path, "foreign.wav"); uint32_t rate = (uint32_t)vf_size(r, 1, 96000);
  static const uint32_t fsizes[] = {16, 16, 18, 40, 16, 20}; uint32_t fs = fsizes[vf_below(r, 6)]; int extra = (int)vf_below(r, 5); wbuf b = {vf_malloc(200000 + (size_t)n * (size_t)ch * 4), 0}; uint8_t junk[900];
  w_put(&b, "RIFF", 4); w_put32(&b, 0); w_put(&b, "WAVEfmt ", 8); w_put32(&b, fs); w_put16(&b, 3); w_put16(&b, (uint16_t)ch); w_put32(&b, rate); w_put32(&b, rate * (uint32_t)ch * 4); w_put16(&b, (uint16_t)(ch * 4)); w_put16(&b, 32);
  for (uint32_t i = 16; i < fs; i++) b.p[b.n++] = i == 16 ? (uint8_t)(fs - 18) : 0;
  int odd = 0; for (int e = 0; e < extra; e++) { static const char* ids[] = {"fact", "LIST", "JUNK", "cue ", "abcd"}; uint32_t size = vf_chance(r, .2) ? 0 : (uint32_t)vf_below(r, 800); for (uint32_t i = 0; i <= size; i++) junk[i] = (uint8_t)vf_u64(r); if (size >= 8 && vf_chance(r, .5)) memcpy(junk + vf_below(r, size - 7), "data\4\0\0\0", 8); w_put(&b, ids[vf_below(r, 5)], 4); w_put32(&b, size); w_put(&b, junk, size); if (size & 1) { b.p[b.n++] = 0; odd++; } }
  w_put(&b, "data", 4); w_put32(&b, n * (uint32_t)ch * 4); for (sp_time_t i = 0; i < n; i++) for (int c = 0; c < ch; c++) { float x = (float)d.s[c][i]; w_put(&b, &x, 4); }
  uint32_t riff = (uint32_t)b.n - 8; memcpy(b.p + 4, &riff, 4); w_spit(path, b.p, b.n); snprintf(w, sizeof w, "%u samples, %d channels, format chunk of %u bytes, %d other chunks, %d of odd size", n, ch, fs, extra, odd);
  int fds = w_fds(); vf_ledger_begin(); read_all(r, path, &d, w); vf_ledger_end_empty(K("leak"), w); vf_eval(1); if (w_fds() != fds) vf_fail(K("handles"), "%s: %d files are still open", w, w_fds() - fds);
  unlink(path); vf_count("files with other chunks", extra > 0); vf_count("files with chunks of odd size", odd > 0); vf_count("files with long format chunks", fs > 16); vf_sig(vf_hash(b.p, b.n < 2000 ? b.n : 2000, 5)); if (ix < 3) vf_sample("%s", w); vf_free(b.p); data_free(&d);
}
/* more samples than small counters can hold, in one piece or in few */
static void t_long(vf_rng* r, uint64_t ix) {
  int ch = 1 + (int)vf_below(r, 3); sp_time_t n = vf_chance(r, .5) ? 65530 + (sp_time_t)vf_below(r, 12) : 65536 + (sp_time_t)vf_below(r, 60000); data_t d = data_new(r, ch, n); char path[300], w[160]; w_name(path, sizeof path, "long.wav"); sp_sample_t* q[MAXCH]; sp_file_t f; memset(&f, 0x5a, sizeof f);
  snprintf(w, sizeof w, "%u samples, %d channels", n, ch); int fds = w_fds(); vf_ledger_begin(); vf_eval(3); if (sp_file_open_write((uint8_t*)path, (sp_channel_count_t)ch, 48000, &f).id) { vf_fail(K("open-write"), "%s: opening failed", w); data_free(&d); return; }
  sp_time_t parts = 1 + (sp_time_t)vf_below(r, 2), first = parts == 1 ? n : (sp_time_t)vf_below(r, n + 1);
  for (sp_time_t k = 0; k < parts; k++) { for (int c = 0; c < ch; c++) q[c] = d.s[c] + (k ? first : 0); if (sp_file_write(&f, q, k ? n - first : first).id) vf_fail(K("write"), "%s: writing failed", w); }
  if (sp_file_close_write(&f).id) vf_fail(K("close"), "%s: closing failed", w);
  if (!vf_failed_in_case()) check_bytes(path, &d, 48000, w); if (!vf_failed_in_case()) read_all(r, path, &d, w);
  if (!vf_failed_in_case()) { memset(&f, 0x5a, sizeof f); vf_eval(3); if (sp_file_open_read((uint8_t*)path, &f).id) vf_fail(K("open-read"), "%s: opening failed", w); else {
    sp_sample_t* o[MAXCH]; for (int c = 0; c < ch; c++) { o[c] = out_samples(n); memset(o[c], 0x7f, n * sizeof(double)); } if (sp_file_read(f, n, o).id) vf_fail(K("read"), "%s: reading everything at once failed", w); else for (int c = 0; c < ch; c++) for (sp_time_t i = 0; i < n; i++) if (o[c][i] != (double)(float)d.s[c][i]) { vf_fail(K("samples"), "%s: channel %d sample %u read at once as %.9g, expected %.9g", w, c, i, o[c][i], d.s[c][i]); break; }
    vf_eval(1); if (sp_file_read(f, 1, o).id != sp_s_id_file_eof) vf_fail(K("end"), "%s: the end is not reported", w);
    for (int c = 0; c < ch; c++) { guards_ok(K("outside"), "reading", o[c]); vf_guarded_free(o[c]); } sp_file_close_read(f); } }
  vf_ledger_end_empty(K("leak"), w); vf_eval(1); if (w_fds() != fds) vf_fail(K("handles"), "%s: %d files are still open", w, w_fds() - fds); unlink(path); data_free(&d); vf_count("long files", 1); vf_sig(vf_mix(n, (uint64_t)ch)); if (ix < 2) vf_sample("%s", w);
}
/* chunks of other programs and data with sizes near the limits of smaller or signed integers. the files are sparse */
#include <fcntl.h>
#include <unistd.h>
static void t_sparse(vf_rng* r, uint64_t ix) {
  int ch = 1 + (int)vf_below(r, 4); sp_time_t n = (sp_time_t)vf_size(r, 1, 300); data_t d = data_new(r, ch, n); char path[300], w[160]; w_name(path, sizeof path, "sparse.wav");
  static const uint64_t near[] = {1ULL << 31, 1ULL << 31, 1ULL << 30, 1ULL << 24, 1ULL << 16, 3ULL << 30}; uint32_t size = (uint32_t)(near[vf_below(r, 6)] + vf_below(r, 7) - 3); wbuf b = {vf_malloc(1000 + (size_t)n * (size_t)ch * 4), 0};
  w_put(&b, "RIFF", 4); w_put32(&b, size + (size & 1) + 44 + n * (uint32_t)ch * 4); w_put(&b, "WAVEfmt ", 8); w_put32(&b, 16); w_put16(&b, 3); w_put16(&b, (uint16_t)ch); w_put32(&b, 48000); w_put32(&b, 48000 * (uint32_t)ch * 4); w_put16(&b, (uint16_t)(ch * 4)); w_put16(&b, 32); w_put(&b, vf_chance(r, .5) ? "LIST" : "JUNK", 4); w_put32(&b, size);
  w_spit(path, b.p, b.n); off_t at = (off_t)b.n + size + (size & 1); b.n = 0; w_put(&b, "data", 4); w_put32(&b, n * (uint32_t)ch * 4); for (sp_time_t i = 0; i < n; i++) for (int c = 0; c < ch; c++) { float x = (float)d.s[c][i]; w_put(&b, &x, 4); }
  int fd = open(path, O_WRONLY), ok = fd >= 0 && pwrite(fd, b.p, b.n, at) == (ssize_t)b.n; if (fd >= 0) close(fd); snprintf(w, sizeof w, "%u samples, %d channels after a chunk of %u bytes", n, ch, size);
  if (ok) { int fds = w_fds(); vf_ledger_begin(); read_all(r, path, &d, w); vf_ledger_end_empty(K("leak"), w); vf_eval(1); if (w_fds() != fds) vf_fail(K("handles"), "%s: %d files are still open", w, w_fds() - fds); vf_count("files with large other chunks", 1); vf_sig(vf_mix(size, (uint64_t)n * 8 + (uint64_t)ch)); if (ix < 2) vf_sample("%s", w); }
  unlink(path); vf_free(b.p); data_free(&d);
}
/* more bytes than a float counts exactly */
static void t_large(vf_rng* r, uint64_t ix) {
  int ch = 1 + (int)vf_below(r, 3), parts = 2 + (int)vf_below(r, 3); sp_time_t n = (sp_time_t)((17000000 + vf_below(r, 9000000)) / (uint64_t)(4 * ch * parts)) | 1; data_t d = data_new(r, ch, n); char path[300], w[160]; w_name(path, sizeof path, "large.wav"); sp_file_t f; memset(&f, 0x5a, sizeof f); size_t bytes = (size_t)n * (size_t)parts * (size_t)ch * 4;
  snprintf(w, sizeof w, "%d times %u samples, %d channels", parts, n, ch); vf_ledger_begin(); vf_eval(5); if (sp_file_open_write((uint8_t*)path, (sp_channel_count_t)ch, 48000, &f).id) { vf_fail(K("open-write"), "%s: opening failed", w); data_free(&d); vf_ledger_end(); return; }
  for (int k = 0; k < parts; k++) if (sp_file_write(&f, d.s, n).id) vf_fail(K("write"), "%s: writing failed", w);
  if (sp_file_close_write(&f).id) vf_fail(K("close"), "%s: closing failed", w); vf_ledger_end_empty(K("leak"), w);
  uint8_t h[44]; int fd = open(path, O_RDONLY); if (fd < 0 || pread(fd, h, 44, 0) != 44) vf_error("read"); off_t total = lseek(fd, 0, SEEK_END);
  if ((size_t)total != 44 + bytes) vf_fail(K("size"), "%s: the file has %zu bytes, expected %zu", w, (size_t)total, 44 + bytes); else if (w_u32(h + 4) != 36 + bytes || w_u32(h + 40) != bytes) vf_fail(K("header"), "%s: sizes %u and %u for %zu bytes of data", w, w_u32(h + 4), w_u32(h + 40), bytes);
  else for (int k = 0; k < 2000; k++) { uint64_t i = vf_below(r, (uint64_t)n * (uint64_t)parts); int c = (int)vf_below(r, (uint64_t)ch); float x = (float)d.s[c][i % n], y; vf_eval(1); if (pread(fd, &y, 4, (off_t)(44 + (i * (uint64_t)ch + (uint64_t)c) * 4)) != 4 || x != y) { vf_fail(K("data"), "%s: sample %llu of channel %d is %.9g, expected %.9g", w, (unsigned long long)i, c, y, x); break; } }
  close(fd); unlink(path); data_free(&d); vf_count("files of more than 16 megabytes", 1); vf_sig(vf_mix(n, (uint64_t)(ch * 8 + parts))); if (ix < 2) vf_sample("%s", w);
}
vf_suite vf_suites[] = {{"sparse", t_sparse, 60, 2000}, {"large", t_large, 2, 40}, {"long", t_long, 60, 3000}, {"roundtrip", t_roundtrip, 6000, 200000}, {"foreign", t_foreign, 4000, 150000}, {0}};
