// Preloaded into the process that keeps participation keys: ends it at the n-th of the calls
// by which it changes files.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <sys/types.h>
#include <unistd.h>

static long left = -1;

void verif_arm(long n) { __atomic_store_n(&left, n, __ATOMIC_SEQ_CST); }

static void point(void) {
    if (__atomic_load_n(&left, __ATOMIC_SEQ_CST) >= 0 && __atomic_fetch_sub(&left, 1, __ATOMIC_SEQ_CST) == 0) {
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
}

#define REAL(n) static __typeof__(n) *real; if (!real) real = dlsym(RTLD_NEXT, #n)
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); point(); return real(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); point(); return real(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (fd > 2) point(); return real(fd, b, n); }
int fsync(int fd) { REAL(fsync); point(); return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); point(); return real(fd); }
int sync_file_range(int fd, off64_t a, off64_t b, unsigned f) { REAL(sync_file_range); point(); return real(fd, a, b, f); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); point(); return real(fd, n); }
int rename(const char *a, const char *b) { REAL(rename); point(); return real(a, b); }
int unlink(const char *a) { REAL(unlink); point(); return real(a); }
