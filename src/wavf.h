/* independent reading and construction of wave files, and counting of open files */
#ifndef wavf_h
#define wavf_h
#include "gen.h"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/resource.h>
typedef struct { uint8_t* p; size_t n; } wbuf;
static uint32_t w_u32(const uint8_t* p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static uint16_t w_u16(const uint8_t* p) { return (uint16_t)(p[0] | p[1] << 8); }
static int w_fds(void) { int k = 0; DIR* d = opendir("/proc/self/fd"); if (!d) vf_error("fds"); while (readdir(d)) k++; closedir(d); return k; }
static wbuf w_slurp(const char* path) {
  wbuf b = {0, 0}; int f = open(path, O_RDONLY); if (f < 0) return b; struct stat s; fstat(f, &s); b.n = (size_t)s.st_size; b.p = vf_malloc(b.n + 1); size_t at = 0; while (at < b.n) { ssize_t k = read(f, b.p + at, b.n - at); if (k <= 0) break; at += (size_t)k; } b.n = at; close(f); return b;
}
static void w_spit(const char* path, const uint8_t* p, size_t n) { int f = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (f < 0) vf_error("open %s", path); size_t at = 0; while (at < n) { ssize_t k = write(f, p + at, n - at); if (k <= 0) vf_error("write %s", path); at += (size_t)k; } close(f); }
static void w_put(wbuf* b, const void* p, size_t n) { memcpy(b->p + b->n, p, n); b->n += n; }
static void w_put32(wbuf* b, uint32_t v) { uint8_t x[4] = {(uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v >> 16), (uint8_t)(v >> 24)}; w_put(b, x, 4); }
static void w_put16(wbuf* b, uint16_t v) { uint8_t x[2] = {(uint8_t)v, (uint8_t)(v >> 8)}; w_put(b, x, 2); }
static void w_name(char* out, size_t n, const char* what) { snprintf(out, n, "%s/%s", vf_scratch, what); }
#endif
