/* File operations below one directory are numbered; operation `at` fails.
 *
 * Modes: 0 fails once (EIO), 1 fails from there on (ENOSPC, no more space),
 * 2 half done, then fails once, 3 the process dies before it, 4 half done, then
 * the process dies, 5 fails once (EACCES).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN_R, OPEN_W, READ, WRITE, CLOSE, RENAME, MKDIR, REMOVE, OTHER };

static char root[PATH_MAX];
static size_t root_len;
static int armed, at, mode, count, hit;
#define MAXLOG 4096
static char log_path[MAXLOG][256];
static int log_kind[MAXLOG];

void mc_arm(const char *dir, int k, int m) {
    strncpy(root, dir, sizeof root - 1);
    root_len = strlen(root);
    at = k; mode = m; count = 0; hit = 0; armed = 1;
}
int mc_disarm(void) { armed = 0; return count; }
int mc_hit(void) { return hit; }
int mc_kind(int i) { return log_kind[i]; }
const char *mc_path(int i) { return log_path[i]; }

static int below(const char *path, char *full) {
    if (!armed || !path) return 0;
    if (path[0] == '/') {
        snprintf(full, PATH_MAX, "%s", path);
    } else {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(full, PATH_MAX, "%.2000s/%.2000s", cwd, path);
    }
    return strncmp(full, root, root_len) == 0;
}

static int below_fd(int fd, char *full) {
    char link[64];
    if (!armed) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, full, PATH_MAX - 1);
    if (n <= 0) return 0;
    full[n] = 0;
    return strncmp(full, root, root_len) == 0;
}

/* 0: go on; 1: fail now; 2: do half of it and fail; 3: do half of it and die */
static int decide(int kind, const char *path) {
    int k = count++;
    if (k < MAXLOG) {
        log_kind[k] = kind;
        snprintf(log_path[k], sizeof log_path[k], "%.250s", path);
    }
    int reads = kind == OPEN_R || kind == READ || kind == CLOSE;
    if (k < at || at < 0) return 0;
    if (mode == 1 && !reads) { hit = 1; errno = ENOSPC; return 1; }
    if (k != at) return 0;
    hit = 1;
    switch (mode) {
    case 0: errno = EIO; return 1;
    case 1: errno = EIO; return 1;
    case 2: return 2;
    case 3: _exit(99);
    case 4: return 3;
    case 5: errno = EACCES; return 1;
    }
    return 0;
}

#define REAL(name) \
    static __typeof__(name) *real; \
    if (!real) real = (__typeof__(name) *) dlsym(RTLD_NEXT, #name)

#define OPEN_BODY(callreal) \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); \
        m = va_arg(ap, mode_t); va_end(ap); } \
    char full[PATH_MAX]; \
    if (below(path, full)) { \
        int w = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT); \
        int d = decide(w ? OPEN_W : OPEN_R, full); \
        if (d == 1) return -1; \
        if (d == 2) { int fd = callreal; if (fd >= 0) close(fd); errno = EIO; return -1; } \
        if (d == 3) { callreal; _exit(99); } \
    } \
    return callreal;

int open(const char *path, int flags, ...) { REAL(open); OPEN_BODY(real(path, flags, m)) }
int open64(const char *path, int flags, ...) { REAL(open64); OPEN_BODY(real(path, flags, m)) }
int openat(int dir, const char *path, int flags, ...) { REAL(openat); OPEN_BODY(real(dir, path, flags, m)) }
int openat64(int dir, const char *path, int flags, ...) { REAL(openat64); OPEN_BODY(real(dir, path, flags, m)) }

static FILE *fopen_body(const char *path, const char *how,
                        FILE *(*real)(const char *, const char *)) {
    char full[PATH_MAX];
    if (below(path, full)) {
        int d = decide(how[0] == 'r' && !strchr(how, '+') ? OPEN_R : OPEN_W, full);
        if (d == 1) return NULL;
        if (d == 2) { FILE *fp = real(path, how); if (fp) fclose(fp); errno = EIO; return NULL; }
        if (d == 3) { real(path, how); _exit(99); }
    }
    return real(path, how);
}
FILE *fopen(const char *path, const char *how) { REAL(fopen); return fopen_body(path, how, real); }
FILE *fopen64(const char *path, const char *how) { REAL(fopen64); return fopen_body(path, how, real); }

ssize_t read(int fd, void *buf, size_t n) {
    REAL(read);
    char full[PATH_MAX];
    if (below_fd(fd, full)) {
        int d = decide(READ, full);
        if (d == 1 || d == 2) { if (d == 2) errno = EIO; return -1; }
        if (d == 3) _exit(99);
    }
    return real(fd, buf, n);
}

ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    char full[PATH_MAX];
    if (below_fd(fd, full)) {
        int d = decide(WRITE, full);
        if (d == 1) return -1;
        if (d >= 2) {
            ssize_t r = real(fd, buf, n / 2); (void) r;
            if (d == 3) _exit(99);
            errno = ENOSPC; return -1;
        }
    }
    return real(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    char full[PATH_MAX];
    if (below_fd(fd, full)) {
        int d = decide(WRITE, full);
        if (d == 1) return -1;
        if (d >= 2) { real(fd, v, n / 2); if (d == 3) _exit(99); errno = ENOSPC; return -1; }
    }
    return real(fd, v, n);
}

ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    REAL(sendfile);
    char full[PATH_MAX];
    if (below_fd(out, full)) {
        int d = decide(WRITE, full);
        if (d == 1) return -1;
        if (d >= 2) { real(out, in, off, n / 2); if (d == 3) _exit(99); errno = ENOSPC; return -1; }
    }
    return real(out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    REAL(sendfile64);
    char full[PATH_MAX];
    if (below_fd(out, full)) {
        int d = decide(WRITE, full);
        if (d == 1) return -1;
        if (d >= 2) { real(out, in, off, n / 2); if (d == 3) _exit(99); errno = ENOSPC; return -1; }
    }
    return real(out, in, off, n);
}
ssize_t copy_file_range(int in, off64_t *o1, int out, off64_t *o2, size_t n, unsigned f) {
    REAL(copy_file_range);
    char full[PATH_MAX];
    if (below_fd(out, full)) {
        int d = decide(WRITE, full);
        if (d == 1) return -1;
        if (d >= 2) { real(in, o1, out, o2, n / 2, f); if (d == 3) _exit(99); errno = ENOSPC; return -1; }
    }
    return real(in, o1, out, o2, n, f);
}

size_t fwrite(const void *p, size_t size, size_t n, FILE *fp) {
    REAL(fwrite);
    char full[PATH_MAX];
    if (below_fd(fileno(fp), full)) {
        int d = decide(WRITE, full);
        if (d == 1) return 0;
        if (d >= 2) {
            size_t r = real(p, size, n / 2, fp);
            fflush(fp);
            if (d == 3) _exit(99);
            errno = ENOSPC; return r;
        }
    }
    return real(p, size, n, fp);
}

size_t fread(void *p, size_t size, size_t n, FILE *fp) {
    REAL(fread);
    char full[PATH_MAX];
    if (below_fd(fileno(fp), full)) {
        int d = decide(READ, full);
        if (d == 1 || d == 2) { return 0; }
        if (d == 3) _exit(99);
    }
    return real(p, size, n, fp);
}

int close(int fd) {
    REAL(close);
    char full[PATH_MAX];
    if (below_fd(fd, full)) {
        int d = decide(CLOSE, full);
        if (d == 1 || d == 2) { int e = d == 2 ? EIO : errno; real(fd); errno = e; return -1; }
        if (d == 3) _exit(99);
    }
    return real(fd);
}

int fclose(FILE *fp) {
    REAL(fclose);
    char full[PATH_MAX];
    if (below_fd(fileno(fp), full)) {
        int d = decide(CLOSE, full);
        if (d == 1 || d == 2) { int e = d == 2 ? EIO : errno; real(fp); errno = e; return EOF; }
        if (d == 3) _exit(99);
    }
    return real(fp);
}

static int rename_body(const char *b) { (void) b; return 0; }

#define TWO(kind, path, callreal) \
    char full[PATH_MAX]; \
    if (below(path, full)) { \
        int d = decide(kind, full); \
        if (d == 1) return -1; \
        if (d == 2) { errno = EIO; return -1; } \
        if (d == 3) _exit(99); \
    } \
    return callreal;

int rename(const char *a, const char *b) { REAL(rename); (void) rename_body; TWO(RENAME, b, real(a, b)) }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(renameat); TWO(RENAME, b, real(d1, a, d2, b)) }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { REAL(renameat2); TWO(RENAME, b, real(d1, a, d2, b, f)) }
int link(const char *a, const char *b) { REAL(link); TWO(OTHER, b, real(a, b)) }
int linkat(int d1, const char *a, int d2, const char *b, int f) { REAL(linkat); TWO(OTHER, b, real(d1, a, d2, b, f)) }
int symlink(const char *a, const char *b) { REAL(symlink); TWO(OTHER, b, real(a, b)) }
int mkdir(const char *p, mode_t m) { REAL(mkdir); TWO(MKDIR, p, real(p, m)) }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); TWO(MKDIR, p, real(d, p, m)) }
int unlink(const char *p) { REAL(unlink); TWO(REMOVE, p, real(p)) }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); TWO(REMOVE, p, real(d, p, f)) }
int rmdir(const char *p) { REAL(rmdir); TWO(REMOVE, p, real(p)) }
int truncate(const char *p, off_t n) { REAL(truncate); TWO(OTHER, p, real(p, n)) }
