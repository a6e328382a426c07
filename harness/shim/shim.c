/* Fault shim for the command line tool: short, interrupted and failing reads of files below SIM_DIR and
 * writes to standard output, as listed in SIM_FAULTS ("w:2:short:5;r:1:err:5;w:3:errs:28"). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static unsigned reads, writes;

static void note(const char *text) {
    const char *log = getenv("SIM_LOG");
    if (!log) return;
    int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (fd < 0) return;
    syscall(SYS_write, fd, text, strlen(text));
    syscall(SYS_close, fd);
}

/* 0: none, 1: short (arg), 2: eintr, 3: error (arg) */
static int fault(char call, unsigned nth, unsigned *arg) {
    const char *p = getenv("SIM_FAULTS");
    while (p && *p) {
        char c, what[16];
        unsigned n, a;
        if (sscanf(p, "%c:%u:%15[a-z]:%u", &c, &n, what, &a) == 4 && c == call) {
            *arg = a;
            if (!strcmp(what, "errs") && nth >= n) return 3;
            if (nth == n) {
                if (!strcmp(what, "short")) return 1;
                if (!strcmp(what, "eintr")) return 2;
                if (!strcmp(what, "err")) return 3;
            }
        }
        p = strchr(p, ';');
        if (p) p++;
    }
    return 0;
}

static int ours(int fd) {
    const char *dir = getenv("SIM_DIR");
    char link[64], path[512];
    if (!dir) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n <= 0) return 0;
    path[n] = 0;
    return !strncmp(path, dir, strlen(dir));
}

static ssize_t ret(long r) { return r; }

ssize_t read(int fd, void *buf, size_t n) {
    if (fd > 2 && ours(fd)) {
        unsigned arg = 0;
        switch (fault('r', ++reads, &arg)) {
        case 1: if (n > arg) { n = arg; note("r short\n"); } break;
        case 2: note("r eintr\n"); errno = EINTR; return -1;
        case 3: note("r err\n"); errno = arg; return -1;
        }
    }
    return ret(syscall(SYS_read, fd, buf, n));
}

ssize_t write(int fd, const void *buf, size_t n) {
    if (fd == 1) {
        unsigned arg = 0;
        switch (fault('w', ++writes, &arg)) {
        case 1: if (n > arg) { n = arg; note("w short\n"); } break;
        case 2: note("w eintr\n"); errno = EINTR; return -1;
        case 3: note("w err\n"); errno = arg; return -1;
        }
    }
    return ret(syscall(SYS_write, fd, buf, n));
}

#include <sys/uio.h>
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (fd == 1) {
        for (int i = 0; i < n; i++)
            if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return ret(syscall(SYS_writev, fd, v, n));
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    const char *s = getenv("SIM_SEED");
    unsigned long x = s ? strtoul(s, 0, 10) : 1;
    (void)flags;
    for (size_t i = 0; i < n; i++) {
        x = x * 6364136223846793005UL + 1442695040888963407UL;
        ((unsigned char *)buf)[i] = x >> 33;
    }
    return n;
}

int clock_gettime(clockid_t clk, struct timespec *ts) {
    const char *s = getenv("SIM_CLOCK");
    if (s && clk == CLOCK_REALTIME) {
        ts->tv_sec = strtol(s, 0, 10);
        ts->tv_nsec = 0;
        return 0;
    }
    return syscall(SYS_clock_gettime, clk, ts);
}
