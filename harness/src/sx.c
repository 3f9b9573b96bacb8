/* Native side of the engine intrinsics: used for replaying counterexamples and sampled paths. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <unistd.h>
/* The file system of the harness: names that start with /vhfs/ never reach the real one. */
static struct { int (*open)(const char *, int, int); ssize_t (*write)(int, const void *, size_t); ssize_t (*read)(int, void *, size_t); int (*close)(int); } fs;
void sx_fs(void *o, void *w, void *r, void *c) { fs.open = o; fs.write = w; fs.read = r; fs.close = c; }
int open64(const char *p, int fl, ...) { va_list a; int mode; va_start(a, fl); mode = va_arg(a, int); va_end(a); if (fs.open && !strncmp(p, "/vhfs/", 6)) return fs.open(p, fl, mode); return syscall(SYS_openat, -100, p, fl, mode); }
ssize_t write(int fd, const void *p, size_t k) { if (fs.write && fd >= 5000) return fs.write(fd, p, k); return syscall(SYS_write, fd, p, k); }
ssize_t read(int fd, void *p, size_t k) { if (fs.read && fd >= 5000) return fs.read(fd, p, k); return syscall(SYS_read, fd, p, k); }
int close(int fd) { if (fs.close && fd >= 5000) return fs.close(fd); return syscall(SYS_close, fd); }
static uint64_t *vals; static uint32_t *widths; static size_t n, pos; static int asserts_failed;
static int trace;
void sx_load(const char *path) {
    FILE *f = fopen(path, "r"); size_t cap = 0; unsigned w; unsigned long long v;
    trace = getenv("SX_TRACE") != 0;
    if (!f) { fprintf(stderr, "no inputs file\n"); _Exit(78); }
    while (fscanf(f, "%u %llu", &w, &v) == 2) {
        if (n == cap) { cap = cap ? cap * 2 : 64; vals = realloc(vals, cap * 8); widths = realloc(widths, cap * 4); }
        vals[n] = v; widths[n++] = w;
    }
    fclose(f);
}
uint64_t sx_sym(uint32_t w) {
    uint64_t v = 0;
    if (pos < n) { if (widths[pos] != w) { fprintf(stderr, "SX width mismatch at input %zu\n", pos); _Exit(78); } v = vals[pos]; }
    else { fprintf(stderr, "SX inputs exhausted\n"); _Exit(78); }
    pos++;
    if (w < 64) v &= ((uint64_t)1 << w) - 1;
    return v;
}
void sx_bytes(uint8_t *p, uint64_t k) { for (uint64_t i = 0; i < k; i++) p[i] = (uint8_t)sx_sym(8); }
void sx_assume(_Bool c) { if (!c) { fprintf(stderr, "SX assumption violated\n"); _Exit(77); } }
void sx_assert(_Bool c, const char *m, uint64_t k) { if (!c) { fprintf(stdout, "SX-ASSERT %.*s\n", (int)k, m); fflush(stdout); asserts_failed++; } }
void sx_reach(const char *m, uint64_t k) { if (trace) fprintf(stderr, "reach %.*s\n", (int)k, m); }
uint64_t sx_conc(uint64_t v) { return v; }
_Bool sx_is_sym(void) { return 0; }
int sx_failed(void) { return asserts_failed; }
