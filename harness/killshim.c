/* Preloaded into the program under test. Counts the operations that change the
 * file system and ends the process without any clean-up just before the
 * VV_KILL_AT-th of them (1-based). With VV_KILL_LOG set, appends one line per
 * operation to that file (which is not counted). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static long count = 0, kill_at = -1;
static int logfd = -2;
static ssize_t (*r_write)(int, const void *, size_t);

static void init(void)
{
    if (logfd != -2)
        return;
    logfd = -1;
    r_write = dlsym(RTLD_NEXT, "write");
    const char *k = getenv("VV_KILL_AT");
    if (k)
        kill_at = atol(k);
    const char *l = getenv("VV_KILL_LOG");
    if (l) {
        int (*r_open)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
        logfd = r_open(l, O_WRONLY | O_CREAT | O_APPEND, 0644);
    }
}

static void op(const char *what, int fd, const char *path)
{
    init();
    if (fd >= 0 && fd <= 2)
        return;
    count++;
    if (logfd >= 0) {
        char buf[600], link[64], tgt[400] = "";
        if (!path) {
            snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
            ssize_t n = readlink(link, tgt, sizeof tgt - 1);
            if (n > 0)
                tgt[n] = 0;
            path = tgt;
        }
        int n = snprintf(buf, sizeof buf, "%ld %s %s\n", count, what, path);
        r_write(logfd, buf, n);
    }
    if (count == kill_at)
        _exit(137);
}

ssize_t write(int fd, const void *b, size_t n)
{
    init();
    op("write", fd, NULL);
    return r_write(fd, b, n);
}
#define WRAP_PWRITE(NAME, OFF) \
    ssize_t NAME(int fd, const void *b, size_t n, OFF o) \
    { \
        static ssize_t (*r)(int, const void *, size_t, OFF); \
        if (!r) r = dlsym(RTLD_NEXT, #NAME); \
        op("pwrite", fd, NULL); \
        return r(fd, b, n, o); \
    }
WRAP_PWRITE(pwrite, off_t)
WRAP_PWRITE(pwrite64, off64_t)
#define WRAP_TRUNC(NAME, OFF) \
    int NAME(int fd, OFF o) \
    { \
        static int (*r)(int, OFF); \
        if (!r) r = dlsym(RTLD_NEXT, #NAME); \
        op("ftruncate", fd, NULL); \
        return r(fd, o); \
    }
WRAP_TRUNC(ftruncate, off_t)
WRAP_TRUNC(ftruncate64, off64_t)
#define WRAP_OPEN(NAME) \
    int NAME(const char *p, int fl, ...) \
    { \
        static int (*r)(const char *, int, ...); \
        va_list ap; \
        va_start(ap, fl); \
        int mode = (fl & O_CREAT) ? va_arg(ap, int) : 0; \
        va_end(ap); \
        if (!r) r = dlsym(RTLD_NEXT, #NAME); \
        if (fl & (O_CREAT | O_TRUNC)) \
            op("open", -1, p); \
        return r(p, fl, mode); \
    }
WRAP_OPEN(open)
WRAP_OPEN(open64)
int rename(const char *a, const char *b)
{
    static int (*r)(const char *, const char *);
    if (!r) r = dlsym(RTLD_NEXT, "rename");
    op("rename", -1, b);
    return r(a, b);
}
int unlink(const char *a)
{
    static int (*r)(const char *);
    if (!r) r = dlsym(RTLD_NEXT, "unlink");
    op("unlink", -1, a);
    return r(a);
}
int remove(const char *a)
{
    static int (*r)(const char *);
    if (!r) r = dlsym(RTLD_NEXT, "remove");
    op("remove", -1, a);
    return r(a);
}
int mkdir(const char *a, mode_t m)
{
    static int (*r)(const char *, mode_t);
    if (!r) r = dlsym(RTLD_NEXT, "mkdir");
    op("mkdir", -1, a);
    return r(a, m);
}
