/* Interposed on read/write of the command-line tools: injects errors,
 * interruptions and short transfers, and counts what it saw.
 *
 * FIO_PATH    the input file (reads of descriptor 0 count as input, too)
 * FIO_RSHORT  give at most 1..n bytes per read
 * FIO_RINTR   every n-th read is interrupted
 * FIO_RFAIL   the n-th read fails (from 1 on)
 * FIO_WSHORT  take at most 1..n bytes per write
 * FIO_WINTR   every n-th write is interrupted
 * FIO_WFAIL   writing fails once n bytes have been taken
 * FIO_WFAILC  the n-th write fails
 * FIO_ERRNO   with this error (default EIO)
 * FIO_ONCE    fail only once
 * FIO_SEED    for the lengths of short transfers
 * FIO_LOG     counts go here at the end
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <sys/syscall.h>

static int in_fd = 0;
static long rshort, rintr, rfail, wshort, wintr, wfail = -1, wfailc, err = EIO, once;
static unsigned long seed;
static long rcalls, rbytes, rints, wcalls, wbytes, wints, faults, reof;
static const char *path, *logto;

static long num(const char *k, long d)
{
    const char *v = getenv(k);
    return v ? atol(v) : d;
}

__attribute__((constructor)) static void init(void)
{
    path = getenv("FIO_PATH");
    logto = getenv("FIO_LOG");
    rshort = num("FIO_RSHORT", 0);
    rintr = num("FIO_RINTR", 0);
    rfail = num("FIO_RFAIL", 0);
    wshort = num("FIO_WSHORT", 0);
    wintr = num("FIO_WINTR", 0);
    wfail = num("FIO_WFAIL", -1);
    wfailc = num("FIO_WFAILC", 0);
    err = num("FIO_ERRNO", EIO);
    once = num("FIO_ONCE", 0);
    seed = (unsigned long)num("FIO_SEED", 1) * 2654435761u + 1;
}

__attribute__((destructor)) static void fini(void)
{
    char b[200];
    int fd, n;
    if (!logto)
        return;
    n = snprintf(b, sizeof b, "%ld %ld %ld %ld %ld %ld %ld %ld\n", rcalls, rbytes, rints, reof,
                 wcalls, wbytes, wints, faults);
    fd = syscall(SYS_openat, AT_FDCWD, logto, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
        syscall(SYS_write, fd, b, n);
        syscall(SYS_close, fd);
    }
}

static long rnd(long n)
{
    seed = seed * 6364136223846793005ul + 1442695040888963407ul;
    return (long)((seed >> 33) % (unsigned long)n) + 1;
}

static void opened(const char *p, int fd)
{
    if (fd >= 0 && path && !strcmp(p, path))
        in_fd = fd;
}

int open64(const char *p, int flags, ...)
{
    va_list ap;
    mode_t m;
    int fd;
    va_start(ap, flags);
    m = va_arg(ap, mode_t);
    va_end(ap);
    fd = syscall(SYS_openat, AT_FDCWD, p, flags | O_LARGEFILE, m);
    opened(p, fd);
    return fd;
}

int open(const char *p, int flags, ...)
{
    va_list ap;
    mode_t m;
    int fd;
    va_start(ap, flags);
    m = va_arg(ap, mode_t);
    va_end(ap);
    fd = syscall(SYS_openat, AT_FDCWD, p, flags, m);
    opened(p, fd);
    return fd;
}

static int fail(void)
{
    if (once && faults)
        return 0;
    faults++;
    errno = err;
    return 1;
}

ssize_t read(int fd, void *buf, size_t n)
{
    ssize_t r;
    if (fd != in_fd)
        return syscall(SYS_read, fd, buf, n);
    rcalls++;
    if (rfail && rcalls >= rfail && fail())
        return -1;
    if (rintr && rcalls % rintr == 0) {
        rints++;
        errno = EINTR;
        return -1;
    }
    if (rshort && n > 0) {
        long k = rnd(rshort);
        if ((size_t)k < n)
            n = k;
    }
    r = syscall(SYS_read, fd, buf, n);
    if (r > 0)
        rbytes += r;
    else if (r == 0)
        reof++;
    return r;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    ssize_t r;
    if (fd != 1)
        return syscall(SYS_write, fd, buf, n);
    wcalls++;
    if (wfailc && wcalls >= wfailc && fail())
        return -1;
    if (wfail >= 0 && n > 0 && !(once && faults)) {
        if (wbytes >= wfail) {
            fail();
            return -1;
        }
        if ((size_t)(wfail - wbytes) < n)
            n = wfail - wbytes;
    }
    if (wintr && wcalls % wintr == 0) {
        wints++;
        errno = EINTR;
        return -1;
    }
    if (wshort && n > 0) {
        long k = rnd(wshort);
        if ((size_t)k < n)
            n = k;
    }
    r = syscall(SYS_write, fd, buf, n);
    if (r > 0)
        wbytes += r;
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
    int i;
    if (fd != 1)
        return syscall(SYS_writev, fd, v, c);
    for (i = 0; i < c; i++)
        if (v[i].iov_len)
            return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

ssize_t readv(int fd, const struct iovec *v, int c)
{
    int i;
    if (fd != in_fd)
        return syscall(SYS_readv, fd, v, c);
    for (i = 0; i < c; i++)
        if (v[i].iov_len)
            return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
