/* LD_PRELOAD shim: lets writes to the standard streams fail.
 *   STREAM_FD    1, 2 or 3 (both)
 *   STREAM_FROM  number of the first write that fails (0, 1, ...)
 *   STREAM_ERR   errno, or 0 for a short write of one byte
 *   STREAM_ONCE  if set only this one write
 *   STREAM_LOG   file that gets the number of writes ("n\n" appended)
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int ready, fds, from, err, once, logfd = -1, n;

/* 0: go on, 1: fail, 2: short */
static int hit(int fd) {
    if (fd != 1 && fd != 2) return 0;
    pthread_mutex_lock(&lock);
    if (!ready) {
        const char *s;
        fds = (s = getenv("STREAM_FD")) ? atoi(s) : 3;
        from = (s = getenv("STREAM_FROM")) ? atoi(s) : 1 << 30;
        err = (s = getenv("STREAM_ERR")) ? atoi(s) : EIO;
        once = getenv("STREAM_ONCE") != 0;
        if ((s = getenv("STREAM_LOG"))) logfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
        ready = 1;
    }
    int r = 0;
    if (fds & fd) {
        if (logfd >= 0) syscall(SYS_write, logfd, "x", 1);
        if (once ? n == from : n >= from) r = err ? 1 : 2;
        n++;
    }
    pthread_mutex_unlock(&lock);
    if (r == 1) errno = err;
    return r;
}

ssize_t write(int fd, const void *b, size_t c) {
    int h = hit(fd);
    if (h == 1) return -1;
    if (h == 2 && c > 1) c = 1;
    return syscall(SYS_write, fd, b, c);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    int h = hit(fd);
    if (h == 1) return -1;
    if (h == 2)
        for (int i = 0; i < c; i++)
            if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, 1);
    return syscall(SYS_writev, fd, v, c);
}
