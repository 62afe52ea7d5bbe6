/* LD_PRELOAD shim: logs the file operations below SHIM_ROOT and lets one of them fail.
 *   SHIM_LOG   file the operations are appended to ("kind path occurrence")
 *   SHIM_AT    "kind path occurrence=how;..." the operations that fail, and how:
 *              errno | "short" (one byte only) | "appear" (the file is created just before)
 *              | "kill" | "dies" (works, then the process dies)
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static char *fdpath[4096];
static struct { char *key; int n; } seen[4096];
static int n_seen;
static const char *root, *at;
static int logfd = -1;
static int ready;

static void init(void) {
    if (ready) return;
    root = getenv("SHIM_ROOT");
    at = getenv("SHIM_AT");
    const char *l = getenv("SHIM_LOG");
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    ready = 1;
}

static char *absolute(const char *p) {
    static __thread char buf[8192];
    if (p[0] == '/') return (char *)p;
    if (!getcwd(buf, 4096)) return (char *)p;
    while (p[0] == '.' && p[1] == '/') p += 2;
    strcat(buf, "/");
    strncat(buf, p, 4000);
    return buf;
}

static int below(const char *p) { return root && !strncmp(p, root, strlen(root)); }

/* 0: go on, 1: fail with errno, 2: short, 3: die afterwards */
static int event(const char *kind, const char *path) {
    char key[8300], line[8400];
    pthread_mutex_lock(&lock);
    init();
    if (!path || !below(path)) {
        pthread_mutex_unlock(&lock);
        return 0;
    }
    const char *rel = path + strlen(root);
    while (*rel == '/') rel++;
    snprintf(key, sizeof key, "%s %s", kind, *rel ? rel : ".");
    int i;
    for (i = 0; i < n_seen; i++)
        if (!strcmp(seen[i].key, key)) break;
    if (i == n_seen && n_seen < 4096) {
        seen[i].key = strdup(key);
        seen[i].n = 0;
        n_seen++;
    }
    int n = ++seen[i].n;
    int len = snprintf(line, sizeof line, "%s %d\n", key, n);
    if (logfd >= 0) syscall(SYS_write, logfd, line, len);
    line[len - 1] = 0;
    int r = 0;
    for (const char *p = at; p && *p;) {
        const char *end = strchr(p, ';');
        if (!strncmp(p, line, len - 1) && p[len - 1] == '=') {
            const char *how = p + len;
            if (!strncmp(how, "short", 5)) r = 2;
            else if (!strncmp(how, "appear", 6)) {
                /* someone else creates the file just before */
                int fd = syscall(SYS_openat, AT_FDCWD, path, O_WRONLY | O_CREAT | O_EXCL, 0666);
                if (fd >= 0) {
                    syscall(SYS_write, fd, "raced\n", 6);
                    syscall(SYS_close, fd);
                }
            }
            else if (!strncmp(how, "kill", 4)) syscall(SYS_kill, getpid(), SIGKILL);
            else if (!strncmp(how, "dies", 4)) r = 3;
            else { errno = atoi(how); r = 1; }
            if (logfd >= 0) syscall(SYS_write, logfd, "! fired\n", 8);
        }
        p = end ? end + 1 : NULL;
    }
    int e = errno;
    pthread_mutex_unlock(&lock);
    errno = e;
    return r;
}

static void die(int r) {
    if (r == 3) syscall(SYS_kill, getpid(), SIGKILL);
}

#define REAL(name) \
    static __typeof__(&name) real; \
    if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static void remember(int fd, const char *path) {
    if (fd < 0 || fd >= 4096) return;
    pthread_mutex_lock(&lock);
    free(fdpath[fd]);
    fdpath[fd] = path ? strdup(path) : NULL;
    pthread_mutex_unlock(&lock);
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char *p = absolute(path);
    char copy[8192];
    strncpy(copy, p, 8191);
    copy[8191] = 0;
    int w = (flags & O_ACCMODE) != O_RDONLY;
    int r = event(w ? "openw" : "open", copy);
    if (r == 1) return -1;
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    die(r);
    if (root && below(copy)) remember(fd, copy);
    else remember(fd, NULL);
    errno = e;
    return fd;
}

int open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open(AT_FDCWD, path, flags, m);
}
int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open(AT_FDCWD, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return do_open(d, path, flags, m);
}

static const char *path_of(int fd) { return fd >= 0 && fd < 4096 ? fdpath[fd] : NULL; }

ssize_t read(int fd, void *buf, size_t n) {
    int r = path_of(fd) ? event("read", path_of(fd)) : 0;
    if (r == 1) return -1;
    if (r == 2 && n > 1) n = 1;
    ssize_t x = syscall(SYS_read, fd, buf, n);
    int e = errno;
    die(r);
    errno = e;
    return x;
}
ssize_t write(int fd, const void *buf, size_t n) {
    int r = path_of(fd) ? event("write", path_of(fd)) : 0;
    if (r == 1) return -1;
    if (r == 2 && n > 1) n = 1;
    ssize_t x = syscall(SYS_write, fd, buf, n);
    int e = errno;
    die(r);
    errno = e;
    return x;
}
int close(int fd) {
    int r = path_of(fd) ? event("close", path_of(fd)) : 0;
    remember(fd, NULL);
    int x = syscall(SYS_close, fd);
    die(r);
    if (r == 1) return -1;
    return x;
}
int statx(int d, const char *restrict path, int flags, unsigned mask, struct statx *restrict st) {
    const char *volatile given = path; /* (may be null) */
    const char *p = given && *given ? absolute(given) : path_of(d);
    int r = p ? event("stat", p) : 0;
    if (r == 1) return -1;
    return syscall(SYS_statx, d, path, flags, mask, st);
}
char *realpath(const char *restrict path, char *restrict out) {
    REAL(realpath);
    if (event("realpath", absolute(path)) == 1) return NULL;
    return real(path, out);
}
DIR *opendir(const char *path) {
    REAL(opendir);
    char *p = absolute(path);
    char copy[8192];
    strncpy(copy, p, 8191);
    copy[8191] = 0;
    if (event("opendir", copy) == 1) return NULL;
    DIR *d = real(path);
    if (d && root && below(copy)) remember(dirfd(d), copy);
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(readdir64);
    const char *p = path_of(dirfd(d));
    if (p && event("readdir", p) == 1) return NULL;
    return real(d);
}
int closedir(DIR *d) {
    REAL(closedir);
    remember(dirfd(d), NULL);
    return real(d);
}
int rename(const char *a, const char *b) {
    REAL(rename);
    char copy[8192];
    strncpy(copy, absolute(b), 8191);
    copy[8191] = 0;
    int r = event("rename", copy);
    if (r == 1) return -1;
    int x = real(a, b);
    die(r);
    return x;
}
