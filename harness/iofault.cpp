// linked into the programs of the repository: the IOF_AT-th operation on a file with a relative name fails (IOF_STICKY: and all further ones of its kind; IOF_MOST: reading and writing transfers that many bytes at a time)
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <unistd.h>
static bool fds[1024]; static FILE* files[256]; static unsigned long calls; static long at = -1; static bool sticky; static char failed[32]; static int inside; static size_t most = (size_t)-1;
static void setup() { if (at >= 0) return; const char* a = getenv("IOF_AT"); at = a ? atol(a) : 0; if (const char* m = getenv("IOF_MOST")) if (atol(m) > 0) most = atol(m); sticky = getenv("IOF_STICKY") && *getenv("IOF_STICKY") == '1'; }
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static void report();
static bool fail(const char* what) { setup(); calls++; bool f = (long)calls == at || (sticky && failed[0] && !strcmp(failed, what)); if ((long)calls == at) { strncpy(failed, what, 31); report(); } return f; }
static bool ours(const char* p) { return p && p[0] != '/'; }
static bool tracked(int fd) { return fd >= 0 && fd < 1024 && fds[fd]; }
static FILE** slot(FILE* f) { for (auto& x : files) if (x == f) return &x; return nullptr; }
// how many operations there were, and which one failed
__attribute__((destructor)) static void report() { if (const char* p = getenv("IOF_LOG")) { int fd = real<int (*)(const char*, int, ...)>("open")(p, O_WRONLY | O_CREAT | O_TRUNC, 0600); char b[80]; int n = snprintf(b, sizeof b, "%lu %s", calls, failed); if (fd >= 0) { real<ssize_t (*)(int, const void*, size_t)>("write")(fd, b, n); real<int (*)(int)>("close")(fd); } } }
struct In { bool first; In() : first(!inside++) {} ~In() { inside--; } };
extern "C" {
static FILE* open_file(const char* name, const char* p, const char* m) { In in; bool o = in.first && ours(p); if (o && fail(strchr(m, 'w') ? "open to write" : "open")) { errno = strchr(m, 'w') ? ENOSPC : EMFILE; return nullptr; } FILE* f = real<FILE* (*)(const char*, const char*)>(name)(p, m); if (f && o) { int fd = fileno(f); if (fd < 1024) fds[fd] = true; if (FILE** s = slot(nullptr)) *s = f; } return f; }
FILE* fopen(const char* p, const char* m) { return open_file("fopen", p, m); }
FILE* fopen64(const char* p, const char* m) { return open_file("fopen64", p, m); }
static int open_fd(const char* name, const char* p, int fl, int mode) { In in; bool o = in.first && ours(p); if (o && fail("open")) { errno = EMFILE; return -1; } int fd = real<int (*)(const char*, int, ...)>(name)(p, fl, mode); if (o && fd >= 0 && fd < 1024) fds[fd] = true; return fd; }
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); return open_fd("open", p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); return open_fd("open64", p, fl, m); }
int close(int fd) { if (tracked(fd)) fds[fd] = false; return real<int (*)(int)>("close")(fd); }
ssize_t read(int fd, void* b, size_t n) { if (tracked(fd) && fail("read")) { errno = EIO; return -1; } if (tracked(fd) && n > most) n = most; return real<ssize_t (*)(int, void*, size_t)>("read")(fd, b, n); }
ssize_t readv(int fd, const struct iovec* v, int n) { if (tracked(fd) && fail("read")) { errno = EIO; return -1; } if (tracked(fd) && n && v[0].iov_len > most) return real<ssize_t (*)(int, void*, size_t)>("read")(fd, v[0].iov_base, most); return real<ssize_t (*)(int, const struct iovec*, int)>("readv")(fd, v, n); }
ssize_t write(int fd, const void* b, size_t n) { if (tracked(fd) && fail("write")) { errno = ENOSPC; return -1; } if (tracked(fd) && n > most) n = most; return real<ssize_t (*)(int, const void*, size_t)>("write")(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int n) { if (tracked(fd) && fail("write")) { errno = ENOSPC; return -1; } if (tracked(fd) && n && v[0].iov_len > most) return real<ssize_t (*)(int, const void*, size_t)>("write")(fd, v[0].iov_base, most); return real<ssize_t (*)(int, const struct iovec*, int)>("writev")(fd, v, n); }
size_t fread(void* b, size_t s, size_t n, FILE* f) { if (slot(f) && fail("read")) { errno = EIO; f->_flags |= 0x20; return 0; } return real<size_t (*)(void*, size_t, size_t, FILE*)>("fread")(b, s, n, f); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) { if (f && slot(f) && fail("write")) { errno = ENOSPC; f->_flags |= 0x20; return 0; } return real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite")(b, s, n, f); }
int fclose(FILE* f) { FILE** s = f ? slot(f) : nullptr; bool w = false, bad = false; if (s) { int fd = fileno(f); w = (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY; if (fd >= 0 && fd < 1024) fds[fd] = false; *s = nullptr; bad = w && fail("close"); } int r = real<int (*)(FILE*)>("fclose")(f); if (bad) { errno = ENOSPC; return EOF; } return r; }
void* mmap64(void* a, size_t n, int p, int fl, int fd, off64_t o) { static auto r = real<void* (*)(void*, size_t, int, int, int, off64_t)>("mmap64"); if (tracked(fd) && fail("map")) { errno = ENOMEM; return MAP_FAILED; } return r(a, n, p, fl, fd, o); }
}
