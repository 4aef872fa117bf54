/* Fault injector for the file operations of one process (LD_PRELOAD).

   yv_arm(prefix, plan): from now on the operations on paths below the prefix are numbered 1, 2, ... and the plan (a list
   of up to 4 steps) says at which of them the process dies or an error is returned.  yv_count() gives the number of
   operations met so far; yv_log() a description of them.  Nothing happens before yv_arm is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

enum { NONE, KILL_BEFORE, KILL_AFTER, TEAR, FAIL, SHORT, FAIL_ON };
struct step { long at, how, arg; };

static char prefix[PATH_MAX];
static size_t prefix_l;
static struct step plan[4];
static int n_plan;
static long counter;
static long *shared;            /* [0]: operations met, [1]: steps taken, then one record per operation */
static char watched[4096];      /* by descriptor: 1 read, 2 written */

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

void yv_arm(const char *p, const long *steps, int n, long *mem)
{
    strncpy(prefix, p, sizeof prefix - 1);
    prefix_l = strlen(prefix);
    memcpy(plan, steps, n * sizeof *plan);
    n_plan = n;
    counter = 0;
    shared = mem;
    memset(watched, 0, sizeof watched);
}

void yv_disarm(void) { prefix_l = 0; memset(watched, 0, sizeof watched); }

static int ours(const char *path)
{
    char full[PATH_MAX * 2];
    if (!prefix_l || !path) return 0;
    if (path[0] != '/') {
        if (!getcwd(full, PATH_MAX)) return 0;
        strcat(full, "/");
        strncat(full, path, PATH_MAX - 1);
        path = full;
    }
    return !strncmp(path, prefix, prefix_l);
}

/* the step for the operation that is about to happen: 0 go on, otherwise the kind of it */
static int next(int kind, long *arg)
{
    int i;
    counter++;
    if (shared) {
        shared[0] = counter;
        if (counter < 500) shared[1 + counter] = kind;
    }
    for (i = 0; i < n_plan; i++) {
        struct step *s = plan + i;
        if (s->how == FAIL_ON ? counter >= s->at && kind != 'r' && kind != 'c' : s->at == counter) {
            if (shared) shared[1] |= 1L << i;
            *arg = s->arg;
            if (s->how == KILL_BEFORE) _exit(137);
            return s->how;
        }
    }
    return NONE;
}

#define POINT(kind, failed, call) do { \
        long arg; int how = next(kind, &arg); \
        if (how == FAIL || how == FAIL_ON) { errno = (int)arg; return failed; } \
        __typeof__(call) r = call; \
        if (how == KILL_AFTER) _exit(137); \
        return r; \
    } while (0)

static int open_common(const char *path, int flags, int r_ok, int fd)
{
    (void)path; (void)r_ok;
    if (fd >= 0 && fd < (int)sizeof watched)
        watched[fd] = (flags & O_ACCMODE) == O_RDONLY ? 1 : 2;
    return fd;
}

#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    if (!ours(path)) return REAL(name)(path, flags, mode); \
    long arg; int how = next((flags & O_ACCMODE) == O_RDONLY ? 'o' : 'O', &arg); \
    if (how == FAIL || how == FAIL_ON) { \
        if (how == FAIL || (flags & O_ACCMODE) != O_RDONLY) { errno = (int)arg; return -1; } \
    } \
    int fd = open_common(path, flags, 0, REAL(name)(path, flags, mode)); \
    if (how == KILL_AFTER) _exit(137); \
    return fd; \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) \
{ \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); } \
    if (!ours(path)) return REAL(name)(dir, path, flags, mode); \
    long arg; int how = next((flags & O_ACCMODE) == O_RDONLY ? 'o' : 'O', &arg); \
    if (how == FAIL || (how == FAIL_ON && (flags & O_ACCMODE) != O_RDONLY)) { errno = (int)arg; return -1; } \
    int fd = open_common(path, flags, 0, REAL(name)(dir, path, flags, mode)); \
    if (how == KILL_AFTER) _exit(137); \
    return fd; \
}
OPENAT(openat)
OPENAT(openat64)

#define WATCHED(fd) (prefix_l && (fd) >= 0 && (fd) < (int)sizeof watched && watched[fd])

static ssize_t write_point(int fd, const void *buf, size_t n)
{
    long arg; int how = next('w', &arg);
    if (how == FAIL || how == FAIL_ON) { errno = (int)arg; return -1; }
    if (how == TEAR || how == SHORT) {
        /* arg: thousandths of the text, at least one byte less than all of it */
        size_t k = n * (size_t)arg / 1000;
        if (arg && !k) k = 1;
        if (k >= n) k = n ? n - 1 : 0;
        if (how == SHORT && !k) k = 1;
        ssize_t r = k ? REAL(write)(fd, buf, k) : 0;
        if (how == TEAR) _exit(137);
        return r;
    }
    ssize_t r = REAL(write)(fd, buf, n);
    if (how == KILL_AFTER) _exit(137);
    return r;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    if (!WATCHED(fd)) return REAL(write)(fd, buf, n);
    return write_point(fd, buf, n);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
    if (!WATCHED(fd)) return REAL(pwrite64)(fd, buf, n, off);
    POINT('w', -1, REAL(pwrite64)(fd, buf, n, off));
}

ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    if (!WATCHED(out)) {
        ssize_t (*f)(int, int, off64_t *, size_t) = dlsym(RTLD_NEXT, "sendfile64");
        return f(out, in, off, n);
    }
    errno = EINVAL;     /* the caller falls back to write */
    return -1;
}

ssize_t read(int fd, void *buf, size_t n)
{
    if (!WATCHED(fd)) return REAL(read)(fd, buf, n);
    POINT('r', -1, REAL(read)(fd, buf, n));
}

int close(int fd)
{
    if (!WATCHED(fd)) return REAL(close)(fd);
    int w = watched[fd];
    long arg; int how = next(w == 2 ? 'C' : 'c', &arg);
    watched[fd] = 0;
    int r = REAL(close)(fd);
    if (w == 2 && (how == FAIL || how == FAIL_ON)) { errno = (int)arg; return -1; }
    if (how == KILL_AFTER) _exit(137);
    return r;
}

int rename(const char *a, const char *b)
{
    if (!ours(a) && !ours(b)) return REAL(rename)(a, b);
    POINT('m', -1, REAL(rename)(a, b));
}

int renameat(int d, const char *a, int e, const char *b)
{
    if (!ours(a) && !ours(b)) return REAL(renameat)(d, a, e, b);
    POINT('m', -1, REAL(renameat)(d, a, e, b));
}

int link(const char *a, const char *b)
{
    if (!ours(a) && !ours(b)) return REAL(link)(a, b);
    POINT('l', -1, REAL(link)(a, b));
}

int symlink(const char *a, const char *b)
{
    if (!ours(b)) return REAL(symlink)(a, b);
    POINT('l', -1, REAL(symlink)(a, b));
}

int unlink(const char *a)
{
    if (!ours(a)) return REAL(unlink)(a);
    POINT('u', -1, REAL(unlink)(a));
}

int unlinkat(int d, const char *a, int f)
{
    if (!ours(a)) return REAL(unlinkat)(d, a, f);
    POINT('u', -1, REAL(unlinkat)(d, a, f));
}

int chmod(const char *a, mode_t m)
{
    if (!ours(a)) return REAL(chmod)(a, m);
    POINT('p', -1, REAL(chmod)(a, m));
}

int fchmod(int fd, mode_t m)
{
    if (!WATCHED(fd)) return REAL(fchmod)(fd, m);
    POINT('p', -1, REAL(fchmod)(fd, m));
}

int fchmodat(int d, const char *a, mode_t m, int f)
{
    if (!ours(a)) return REAL(fchmodat)(d, a, m, f);
    POINT('p', -1, REAL(fchmodat)(d, a, m, f));
}

int utimensat(int d, const char *a, const struct timespec t[2], int f)
{
    if (!ours(a)) return REAL(utimensat)(d, a, t, f);
    POINT('t', -1, REAL(utimensat)(d, a, t, f));
}

int ftruncate64(int fd, off64_t n)
{
    if (!WATCHED(fd)) return REAL(ftruncate64)(fd, n);
    POINT('w', -1, REAL(ftruncate64)(fd, n));
}

int fsync(int fd)
{
    if (!WATCHED(fd)) return REAL(fsync)(fd);
    POINT('s', -1, REAL(fsync)(fd));
}

int fdatasync(int fd)
{
    if (!WATCHED(fd)) return REAL(fdatasync)(fd);
    POINT('s', -1, REAL(fdatasync)(fd));
}

int mkdir(const char *a, mode_t m)
{
    if (!ours(a)) return REAL(mkdir)(a, m);
    POINT('d', -1, REAL(mkdir)(a, m));
}
