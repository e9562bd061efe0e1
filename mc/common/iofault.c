/* Preloaded into accft: numbers the calls that libstdc++'s file streams make to libc, and makes one or
 * two of them fail. IOFAULT="index:kind[,index:kind]"; IOFAULT_LOG receives one letter per call. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static int idx = 0, nf = -1, at[4], kind[4];
static char opened[256], out[256];

static char logbuf[65536];
static int  nlog = 0;

static void init(void) {
    if (nf >= 0)
        return;
    nf = 0;
    char const* s = getenv("IOFAULT");
    while (s && *s && nf < 4) {
        at[nf] = atoi(s);
        char const* c = strchr(s, ':');
        if (!c)
            break;
        kind[nf++] = c[1];
        s = strchr(s, ',');
        if (s)
            ++s;
    }
}

/* kind of the fault at this call, 0 for none */
static int step(char op) {
    init();
    int me = idx++;
    if (nlog < (int)sizeof logbuf)
        logbuf[nlog++] = op;
    for (int k = 0; k < nf; ++k)
        if (at[k] == me)
            return kind[k];
    return 0;
}

__attribute__((destructor)) static void done(void) {
    char const* p = getenv("IOFAULT_LOG");
    if (!p)
        return;
    int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
        static ssize_t (*real)(int, const void*, size_t);
        real = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
        real(fd, logbuf, nlog);
        close(fd);
    }
}

static int err(int k) {
    switch (k) {
    case 'N': errno = ENOSPC; break;
    case 'P': errno = EACCES; break;
    case 'M': errno = EMFILE; break;
    case 'R': errno = EINTR; break;
    case 'D': errno = EDQUOT; break;
    default: errno = EIO;
    }
    return -1;
}

static FILE* do_open(char const* sym, char const* p, char const* m) {
    FILE* (*real)(char const*, char const*) = (FILE * (*)(char const*, char const*)) dlsym(RTLD_NEXT, sym);
    int w = strpbrk(m, "wa+") != NULL;
    int k = step(w ? 'O' : 'o');
    if (k && strchr("1HR", k))
        k = 0;
    if (k) {
        err(k);
        return NULL;
    }
    FILE* f = real(p, m);
    if (f && fileno(f) < 256) {
        opened[fileno(f)] = 1;
        out[fileno(f)]    = (char)w;
    }
    return f;
}

FILE* fopen(char const* p, char const* m) { return do_open("fopen", p, m); }
FILE* fopen64(char const* p, char const* m) { return do_open("fopen64", p, m); }

static int mine(int fd) { return fd >= 0 && fd < 256 && opened[fd]; }

int fclose(FILE* f) {
    static int (*real)(FILE*);
    real   = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    int fd = f ? fileno(f) : -1;
    if (!mine(fd))
        return real(f);
    int k = step(out[fd] ? 'C' : 'c');
    if (k && strchr("1HR", k))
        k = 0;
    opened[fd] = 0;
    int r = real(f);
    return k ? err(k) : r;
}

ssize_t read(int fd, void* b, size_t n) {
    static ssize_t (*real)(int, void*, size_t);
    if (!real)
        real = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
    if (!mine(fd))
        return real(fd, b, n);
    int k = step('r');
    if (k == '1')
        return real(fd, b, n > 1 ? 1 : n);
    if (k == 'H')
        return real(fd, b, n > 37 ? 37 : n);
    if (k)
        return err(k);
    return real(fd, b, n);
}

ssize_t write(int fd, void const* b, size_t n) {
    static ssize_t (*real)(int, void const*, size_t);
    if (!real)
        real = (ssize_t(*)(int, void const*, size_t))dlsym(RTLD_NEXT, "write");
    if (!mine(fd))
        return real(fd, b, n);
    int k = step('w');
    if (k == '1')
        return real(fd, b, n > 1 ? 1 : n);
    if (k == 'H')
        return real(fd, b, n > 1 ? n / 2 : n);
    if (k)
        return err(k);
    return real(fd, b, n);
}

ssize_t writev(int fd, struct iovec const* v, int c) {
    static ssize_t (*real)(int, struct iovec const*, int);
    if (!real)
        real = (ssize_t(*)(int, struct iovec const*, int))dlsym(RTLD_NEXT, "writev");
    if (!mine(fd))
        return real(fd, v, c);
    int k = step('w');
    if (k == '1' || k == 'H') {
        for (int q = 0; q < c; ++q)
            if (v[q].iov_len) {
                ssize_t (*w)(int, void const*, size_t) = (ssize_t(*)(int, void const*, size_t))dlsym(RTLD_NEXT, "write");
                return w(fd, v[q].iov_base, k == '1' || v[q].iov_len < 2 ? 1 : v[q].iov_len / 2);
            }
        return 0;
    }
    if (k)
        return err(k);
    return real(fd, v, c);
}
