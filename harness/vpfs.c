/* LD_PRELOADed into native replays: fail the k-th mutating file operation with errno e (sticky: and all later ones). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <sys/stat.h>
#include <unistd.h>
static uint64_t k = UINT64_MAX, n; static int e, sticky;
void __vp_fs_fault_native(uint64_t kk, uint64_t ee, int s) { k = kk; e = ee; sticky = s; n = 0; }
uint64_t __vp_fs_ops_native(void) { return n; }
static int hit(void) { uint64_t i = n++; if (k != UINT64_MAX && (i == k || (sticky && i > k))) { errno = e; return 1; } return 0; }
static int reg(int fd) { struct stat s; return fd > 2 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode); }
#define NEXT(T, name, ...) T (*f)(__VA_ARGS__) = dlsym(RTLD_NEXT, name)
static int opens(int dir, const char *p, int fl) {
    struct stat s;
    int there = fstatat(dir, p, &s, 0) == 0;
    if (there ? (S_ISREG(s.st_mode) && (fl & O_TRUNC) && !(fl & O_EXCL)) : (fl & O_CREAT) != 0) return hit();
    return 0;
}
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); int er = errno; if (opens(AT_FDCWD, p, fl)) return -1; errno = er; NEXT(int, "open64", const char *, int, ...); return f(p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); int er = errno; if (opens(d, p, fl)) return -1; errno = er; NEXT(int, "openat64", int, const char *, int, ...); return f(d, p, fl, m); }
int mkdir(const char *p, mode_t m) { struct stat s; if (lstat(p, &s) != 0 && hit()) return -1; NEXT(int, "mkdir", const char *, mode_t); return f(p, m); }
static int there(int d, const char *p) { struct stat s; return fstatat(d, p, &s, AT_SYMLINK_NOFOLLOW) == 0; }
static int empty_or_file(int d, const char *p, int rm) { struct stat s; if (fstatat(d, p, &s, AT_SYMLINK_NOFOLLOW)) return 0; return rm ? S_ISDIR(s.st_mode) && s.st_nlink <= 2 : !S_ISDIR(s.st_mode); }
int rmdir(const char *p) { if (empty_or_file(AT_FDCWD, p, 1) && hit()) return -1; NEXT(int, "rmdir", const char *); return f(p); }
int unlink(const char *p) { if (empty_or_file(AT_FDCWD, p, 0) && hit()) return -1; NEXT(int, "unlink", const char *); return f(p); }
int unlinkat(int d, const char *p, int fl) { if (empty_or_file(d, p, fl & AT_REMOVEDIR) && hit()) return -1; NEXT(int, "unlinkat", int, const char *, int); return f(d, p, fl); }
int rename(const char *p, const char *q) { if (there(AT_FDCWD, p) && hit()) return -1; NEXT(int, "rename", const char *, const char *); return f(p, q); }
int symlink(const char *t, const char *p) { if (!there(AT_FDCWD, p) && hit()) return -1; NEXT(int, "symlink", const char *, const char *); return f(t, p); }
ssize_t write(int fd, const void *b, size_t c) { if (reg(fd) && hit()) return -1; NEXT(ssize_t, "write", int, const void *, size_t); return f(fd, b, c); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t l, unsigned fl) {
    struct stat s;
    if (fstat(i, &s) == 0 && lseek(i, 0, SEEK_CUR) < s.st_size && hit()) return -1;
    NEXT(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    return f(i, oi, o, oo, l, fl);
}
