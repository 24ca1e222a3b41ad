// LD_PRELOAD stand-in for write(2) on regular files: SHIM=short:N writes at most N bytes per call; SHIM=fail:N fails from the N-th call on (ENOSPC);
// SHIM=intr fails every other call with EINTR; rshort:N, rfail:N (EIO), rintr: the same for read(2) on regular files of the current directory's device.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static int calls;
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    const char *m = getenv("SHIM");
    struct stat s;
    if (m && fd > 2 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode)) {
        calls++;
        if (!strncmp(m, "short:", 6)) { size_t k = atoi(m + 6); if (n > k) n = k; }
        if (!strncmp(m, "fail:", 5) && calls >= atoi(m + 5)) { errno = ENOSPC; return -1; }
        if (!strncmp(m, "failshort:", 10)) { if (calls > 1) { errno = ENOSPC; return -1; } size_t k = atoi(m + 10); if (n > k) n = k; }
        if (!strcmp(m, "intr") && calls % 2) { errno = EINTR; return -1; }
    }
    return real(fd, b, n);
}
static int reads;
ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    const char *m = getenv("SHIM");
    struct stat s, d;
    if (m && m[0] == 'r' && fd > 2 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode) && stat(".", &d) == 0 && d.st_dev == s.st_dev) {
        reads++;
        if (!strncmp(m, "rshort:", 7)) { size_t k = atoi(m + 7); if (n > k) n = k; }
        if (!strncmp(m, "rfail:", 6) && reads >= atoi(m + 6)) { errno = EIO; return -1; }
        if (!strcmp(m, "rintr") && reads % 2) { errno = EINTR; return -1; }
    }
    return real(fd, b, n);
}
