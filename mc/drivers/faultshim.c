/* LD_PRELOAD shim of check C25: the k-th file operation below a directory fails (or the process ends there) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { SINGLE, PERSISTENT, SHORT, CRASH, CRASH_SHORT };
struct page {
    volatile long armed, mode, k, count, kind, log_n;
    char prefix[1024];
    char log[4096]; /* kind of every operation */
    char path[1024];
};
static struct page *pg;
static unsigned char tracked[4096]; /* 1 written, 2 read */

static struct page *page(void) {
    if (!pg) {
        pg = mmap(0, sizeof *pg, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (pg == MAP_FAILED) abort();
    }
    return pg;
}

/* the page is shared with the children of the process that arms it, not with its siblings */
void fi_arm(long k, long mode, const char *prefix) {
    static pid_t owner;
    if (owner != getpid()) {
        pg = 0;
        owner = getpid();
    }
    struct page *p = page();
    p->k = k, p->mode = mode, p->count = 0, p->kind = 0, p->log_n = 0, p->path[0] = 0;
    strncpy(p->prefix, prefix, sizeof p->prefix - 1);
    p->armed = 1;
}
void fi_disarm(void) { page()->armed = 0; }
long fi_count(void) { return page()->count; }
long fi_kind(void) { return page()->kind; }
const char *fi_log(void) {
    page()->log[page()->log_n < 4095 ? page()->log_n : 4095] = 0;
    return page()->log;
}
const char *fi_path(void) { return page()->path; }

static int below(const char *path) {
    struct page *p = page();
    char buf[2048];
    if (!p->armed || !path) return 0;
    if (path[0] != '/') {
        if (!getcwd(buf, 1000)) return 0;
        strncat(buf, "/", 2);
        strncat(buf, path, 1000);
        path = buf;
    }
    size_t n = strlen(p->prefix);
    return !strncmp(path, p->prefix, n) && (path[n] == '/' || !path[n]);
}

/* -> 0 go on, 1 fail, 2 write a part and fail from now on */
static int step(char kind, const char *path) {
    struct page *p = page();
    long n = ++p->count;
    if (p->log_n < 4095) p->log[p->log_n++] = kind;
    if (n < p->k || !p->k) return 0;
    if (n > p->k) {
        if (p->mode == PERSISTENT) return strchr("wWMTUR", kind) || kind == 'O';
        if (p->mode == SHORT) return kind == 'w';
        return 0;
    }
    p->kind = kind;
    if (path) strncpy(p->path, path, sizeof p->path - 1);
    if (p->mode == CRASH) _exit(137);
    if ((p->mode == SHORT || p->mode == CRASH_SHORT) && kind == 'w') return 2;
    if (p->mode == SHORT || p->mode == CRASH_SHORT) return 0;
    return 1;
}

#define REAL(name) \
    static __typeof__(name) *real; \
    if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static int opened(int fd, int writing) {
    if (fd >= 0 && fd < 4096) tracked[fd] = writing ? 1 : 2;
    return fd;
}
#define OPEN_BODY(call) \
    va_list ap; \
    va_start(ap, flags); \
    mode_t m = va_arg(ap, mode_t); \
    va_end(ap); \
    if (!below(path)) { \
        int fd_ = call; \
        if (fd_ >= 0 && fd_ < 4096) tracked[fd_] = 0; \
        return fd_; \
    } \
    int wr = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; \
    if (step(wr ? 'O' : 'o', path)) return errno = wr ? ENOSPC : EIO, -1; \
    return opened(call, wr);

int open(const char *path, int flags, ...) { REAL(open); OPEN_BODY(real(path, flags, m)) }
int open64(const char *path, int flags, ...) { REAL(open64); OPEN_BODY(real(path, flags, m)) }
int openat(int d, const char *path, int flags, ...) { REAL(openat); OPEN_BODY(real(d, path, flags, m)) }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64); OPEN_BODY(real(d, path, flags, m)) }

static int is(int fd, int what) { return fd >= 0 && fd < 4096 && tracked[fd] == what && page()->armed; }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (is(fd, 1)) {
        int r = step('w', 0);
        if (r == 1) return errno = ENOSPC, -1;
        if (r == 2) {
            ssize_t w = n > 1 ? real(fd, b, n / 2) : 0;
            if (page()->mode == CRASH_SHORT) _exit(137);
            if (w > 0) return w;
            return errno = ENOSPC, -1;
        }
    }
    return real(fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if (is(fd, 2) && step('r', 0)) return errno = EIO, -1;
    return real(fd, b, n);
}
int close(int fd) {
    REAL(close);
    int t = fd >= 0 && fd < 4096 ? tracked[fd] : 0;
    if (fd >= 0 && fd < 4096) tracked[fd] = 0;
    if (t == 1 && page()->armed && step('W', 0)) {
        real(fd);
        return errno = ENOSPC, -1;
    }
    return real(fd);
}
int mkdir(const char *path, mode_t m) {
    REAL(mkdir);
    if (below(path) && step('M', path)) return errno = ENOSPC, -1;
    return real(path, m);
}
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    if (is(fd, 1) && step('T', 0)) return errno = EIO, -1;
    return real(fd, n);
}
int unlink(const char *path) {
    REAL(unlink);
    if (below(path) && step('U', path)) return errno = EIO, -1;
    return real(path);
}
int rename(const char *a, const char *b) {
    REAL(rename);
    if (below(a) && step('R', a)) return errno = EIO, -1;
    return real(a, b);
}
