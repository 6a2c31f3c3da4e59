// LD_PRELOAD stand-in between the indexer binary and libc.  It changes nothing by itself: it reports
// file operations below one directory to the driver (which decides when each of them happens, or that
// the process dies there), shifts the wall clock, and perturbs thread timing.  All three are off unless
// the driver asks for them, so the code under test needs no hooks.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <time.h>
#include <unistd.h>

struct control {            // shared page, written by the driver
    volatile int64_t clock_offset_ms;
    volatile uint32_t delay_ppm;    // chance (per million) that an allocation sleeps
    volatile uint32_t delay_us;
    volatile uint32_t delay_seed;
    volatile uint32_t clock_reads;  // written by the shim
    volatile uint32_t delays;       // written by the shim
    volatile uint32_t delay_min;    // only allocations of at least this many bytes
    volatile uint32_t delay_max;
    volatile uint32_t short_reads;  // chance (per million) that a read of the stored index returns less than asked for
    volatile int64_t age_ms;        // added to the monotonic clock; never decreases
    uint32_t unused[3];
    volatile uint32_t listeners;    // at offset 60; written by the shim
    struct { uint16_t family, port; uint8_t addr[16]; } listener[32];
};

static struct control *ctl;
static const char *sock_path, *watch_dir;
static size_t watch_len;
#define MAXFD 4096
static char fdname[MAXFD][64];
static volatile unsigned char fdwatch[MAXFD];
static __thread int conn = -1;
static __thread int busy;
static int ready;

static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static int (*r_close)(int);
static int (*r_rename)(const char *, const char *);
static int (*r_renameat)(int, const char *, int, const char *);
static int (*r_unlink)(const char *);
static int (*r_fsync)(int);
static int (*r_fdatasync)(int);
static int (*r_ftruncate)(int, off_t);
static int (*r_clock_gettime)(clockid_t, struct timespec *);

static void init_syms(void) {
    r_open = dlsym(RTLD_NEXT, "open64");
    r_openat = dlsym(RTLD_NEXT, "openat64");
    r_write = dlsym(RTLD_NEXT, "write");
    r_pwrite = dlsym(RTLD_NEXT, "pwrite64");
    r_read = dlsym(RTLD_NEXT, "read");
    r_pread = dlsym(RTLD_NEXT, "pread64");
    r_close = dlsym(RTLD_NEXT, "close");
    r_rename = dlsym(RTLD_NEXT, "rename");
    r_renameat = dlsym(RTLD_NEXT, "renameat");
    r_unlink = dlsym(RTLD_NEXT, "unlink");
    r_fsync = dlsym(RTLD_NEXT, "fsync");
    r_fdatasync = dlsym(RTLD_NEXT, "fdatasync");
    r_ftruncate = dlsym(RTLD_NEXT, "ftruncate64");
    r_clock_gettime = dlsym(RTLD_NEXT, "clock_gettime");
}

__attribute__((constructor)) static void init(void) {
    init_syms();
    const char *c = getenv("VSHIM_CTL");
    if (c) {
        int fd = r_open(c, O_RDWR | O_CLOEXEC);
        if (fd >= 0) {
            void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) ctl = p;
            r_close(fd);
        }
    }
    sock_path = getenv("VSHIM_SOCK");
    watch_dir = getenv("VSHIM_DIR");
    if (watch_dir) watch_len = strlen(watch_dir);
    ready = 1;
}

static int watched(const char *path) {
    return ready && sock_path && watch_dir && path && strncmp(path, watch_dir, watch_len) == 0 && path[watch_len] == '/';
}

// one request, one reply; reply[0] is the verdict: 'o' go on, 'k' die, 'p N' write N bytes and die, 'e N' fail with errno N
static char ask(const char *msg, long *arg) {
    char buf[64];
    *arg = 0;
    if (busy) return 'o';
    busy = 1;
    if (conn < 0) {
        struct sockaddr_un a;
        memset(&a, 0, sizeof a);
        a.sun_family = AF_UNIX;
        strncpy(a.sun_path, sock_path, sizeof a.sun_path - 1);
        conn = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (conn >= 0 && connect(conn, (struct sockaddr *)&a, sizeof a) != 0) {
            r_close(conn);
            conn = -1;
        }
    }
    char verdict = 'o';
    if (conn >= 0) {
        size_t n = strlen(msg), off = 0;
        while (off < n) {
            ssize_t k = send(conn, msg + off, n - off, MSG_NOSIGNAL);
            if (k <= 0) break;
            off += k;
        }
        size_t got = 0;
        while (got < sizeof buf - 1) {
            ssize_t k = recv(conn, buf + got, 1, 0);
            if (k < 0 && errno == EINTR) continue;
            if (k <= 0) break;
            if (buf[got] == '\n') break;
            got++;
        }
        buf[got] = 0;
        if (got > 0) {
            verdict = buf[0];
            if (got > 2) *arg = strtol(buf + 2, NULL, 10);
        }
    }
    busy = 0;
    if (verdict == 'k') {
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
    return verdict;
}

static const char *base(const char *p) {
    const char *s = strrchr(p, '/');
    return s ? s + 1 : p;
}

static int after_open(int fd, const char *path, int tracked) {
    if (fd >= 0 && fd < MAXFD) {
        fdwatch[fd] = tracked;
        if (tracked) {
            strncpy(fdname[fd], base(path), 63);
            fdname[fd][63] = 0;
        }
    }
    return fd;
}

static int do_open(int at, const char *path, int flags, mode_t mode) {
    if (!r_open) init_syms();
    int w = watched(path);
    if (w) {
        char msg[160];
        long arg;
        snprintf(msg, sizeof msg, "open %s %s %s\n", (flags & O_ACCMODE) == O_RDONLY ? "r" : "w", (flags & O_TRUNC) ? "t" : "-", base(path));
        char v = ask(msg, &arg);
        if (v == 'e') {
            errno = (int)arg;
            return -1;
        }
    }
    int fd = at == AT_FDCWD ? r_open(path, flags, mode) : r_openat(at, path, flags, mode);
    return after_open(fd, path, w);
}

#define OPENMODE                             \
    mode_t mode = 0;                         \
    if (flags & (O_CREAT | O_TMPFILE)) {     \
        va_list ap;                          \
        va_start(ap, flags);                 \
        mode = va_arg(ap, mode_t);           \
        va_end(ap);                          \
    }

int open(const char *path, int flags, ...) { OPENMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { OPENMODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int at, const char *path, int flags, ...) { OPENMODE return do_open(at, path, flags, mode); }
int openat64(int at, const char *path, int flags, ...) { OPENMODE return do_open(at, path, flags, mode); }

#define TRACKED(fd) ((fd) >= 0 && (fd) < MAXFD && fdwatch[fd] && !busy)

ssize_t write(int fd, const void *buf, size_t n) {
    if (!r_write) init_syms();
    if (TRACKED(fd)) {
        char msg[160];
        long arg;
        snprintf(msg, sizeof msg, "write %zu %s\n", n, fdname[fd]);
        char v = ask(msg, &arg);
        if (v == 'e') {
            errno = (int)arg;
            return -1;
        }
        if (v == 'p') {
            size_t off = 0, lim = (size_t)arg < n ? (size_t)arg : n;
            while (off < lim) {
                ssize_t k = r_write(fd, (const char *)buf + off, lim - off);
                if (k <= 0) break;
                off += k;
            }
            kill(getpid(), SIGKILL);
            for (;;) pause();
        }
        if (v == 's') {  // short write: take only this many bytes, the caller has to continue
            if ((size_t)arg < n && arg > 0) n = (size_t)arg;
        }
    }
    return r_write(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int k) {
    static ssize_t (*r_writev)(int, const struct iovec *, int);
    if (!r_writev) r_writev = dlsym(RTLD_NEXT, "writev");
    if (TRACKED(fd) && k > 0) {  // as if only the first part were taken
        for (int i = 0; i < k; i++)
            if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    }
    return r_writev(fd, v, k);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) {
    if (!r_pwrite) init_syms();
    if (TRACKED(fd)) {
        char msg[160];
        long arg;
        snprintf(msg, sizeof msg, "write %zu %s\n", n, fdname[fd]);
        char v = ask(msg, &arg);
        if (v == 'e') {
            errno = (int)arg;
            return -1;
        }
        if (v == 'p') {
            r_pwrite(fd, buf, (size_t)arg < n ? (size_t)arg : n, off);
            kill(getpid(), SIGKILL);
        }
    }
    return r_pwrite(fd, buf, n, off);
}

ssize_t read(int fd, void *buf, size_t n) {
    if (!r_read) init_syms();
    if (TRACKED(fd) && strncmp(fdname[fd], "blk", 3) == 0) {
        char msg[160];
        long arg;
        snprintf(msg, sizeof msg, "read %zu %ld %s\n", n, (long)lseek(fd, 0, SEEK_CUR), fdname[fd]);
        char v = ask(msg, &arg);
        if (v == 'e') {
            errno = (int)arg;
            return -1;
        }
    } else if (TRACKED(fd) && ctl && ctl->short_reads && n > 1) {
        static uint32_t x = 88172645u;
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        if (x % 1000000u < ctl->short_reads) n = 1 + x / 1000000u % n;
    }
    return r_read(fd, buf, n);
}

ssize_t pread64(int fd, void *buf, size_t n, off_t at) {
    if (!r_read) init_syms();
    if (TRACKED(fd) && strncmp(fdname[fd], "blk", 3) == 0) {
        char msg[160];
        long arg;
        snprintf(msg, sizeof msg, "read %zu %ld %s\n", n, (long)at, fdname[fd]);
        char v = ask(msg, &arg);
        if (v == 'e') {
            errno = (int)arg;
            return -1;
        }
    }
    return r_pread(fd, buf, n, at);
}

ssize_t pread(int fd, void *buf, size_t n, off_t at) { return pread64(fd, buf, n, at); }

// The listing of the directory itself, when the driver wants to hear of it.
static DIR *listed[8];
static char ended[8];     // after an error there is nothing more

DIR *opendir(const char *path) {
    static DIR *(*r_opendir)(const char *);
    if (!r_opendir) r_opendir = dlsym(RTLD_NEXT, "opendir");
    int w = ready && sock_path && watch_dir && getenv("VSHIM_LIST") && strncmp(path, watch_dir, watch_len) == 0 && strspn(path + watch_len, "/") == strlen(path + watch_len);
    long arg;
    if (w && ask("opendir\n", &arg) == 'e') {
        errno = (int)arg;
        return NULL;
    }
    DIR *d = r_opendir(path);
    for (int i = 0; w && d && i < 8; i++)
        if (!listed[i]) {
            listed[i] = d;
            ended[i] = 0;
            break;
        }
    return d;
}

static int listing(DIR *d) {
    for (int i = 0; i < 8; i++)
        if (listed[i] == d) {
            long arg;
            if (ended[i]) return -1;
            if (ask("readdir\n", &arg) == 'e') {
                errno = (int)arg;
                ended[i] = 1;
                return -1;
            }
        }
    return 0;
}

struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*r_readdir)(DIR *);
    if (!r_readdir) r_readdir = dlsym(RTLD_NEXT, "readdir64");
    return listing(d) ? NULL : r_readdir(d);
}

struct dirent *readdir(DIR *d) {
    static struct dirent *(*r_readdir)(DIR *);
    if (!r_readdir) r_readdir = dlsym(RTLD_NEXT, "readdir");
    return listing(d) ? NULL : r_readdir(d);
}

int closedir(DIR *d) {
    static int (*r_closedir)(DIR *);
    if (!r_closedir) r_closedir = dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < 8; i++)
        if (listed[i] == d) listed[i] = NULL;
    return r_closedir(d);
}

int close(int fd) {
    if (!r_close) init_syms();
    if (TRACKED(fd)) {
        char msg[160];
        long arg;
        snprintf(msg, sizeof msg, "close %s\n", fdname[fd]);
        ask(msg, &arg);
        fdwatch[fd] = 0;
    }
    return r_close(fd);
}

static int path_op(const char *op, const char *a, const char *b) {
    if (!watched(a) && !(b && watched(b))) return 0;
    char msg[224];
    long arg;
    snprintf(msg, sizeof msg, "%s %s %s\n", op, base(a), b ? base(b) : "-");
    char v = ask(msg, &arg);
    if (v == 'e') {
        errno = (int)arg;
        return -1;
    }
    return 0;
}

int rename(const char *a, const char *b) {
    if (!r_rename) init_syms();
    if (path_op("rename", a, b)) return -1;
    return r_rename(a, b);
}

int renameat(int d1, const char *a, int d2, const char *b) {
    if (!r_renameat) init_syms();
    if (path_op("rename", a, b)) return -1;
    return r_renameat(d1, a, d2, b);
}

int unlink(const char *a) {
    if (!r_unlink) init_syms();
    if (path_op("unlink", a, NULL)) return -1;
    return r_unlink(a);
}

static int fd_op(const char *op, int fd, long x) {
    if (!TRACKED(fd)) return 0;
    char msg[160];
    long arg;
    snprintf(msg, sizeof msg, "%s %ld %s\n", op, x, fdname[fd]);
    char v = ask(msg, &arg);
    if (v == 'e') {
        errno = (int)arg;
        return -1;
    }
    return 0;
}

int fsync(int fd) {
    if (!r_fsync) init_syms();
    if (fd_op("fsync", fd, 0)) return -1;
    return r_fsync(fd);
}

int fdatasync(int fd) {
    if (!r_fdatasync) init_syms();
    if (fd_op("fsync", fd, 0)) return -1;
    return r_fdatasync(fd);
}

int ftruncate64(int fd, off_t len) {
    if (!r_ftruncate) init_syms();
    if (fd_op("truncate", fd, (long)len)) return -1;
    return r_ftruncate(fd, len);
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }

// ---- wall clock
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!r_clock_gettime) {
        r_clock_gettime = dlsym(RTLD_NEXT, "clock_gettime");
        if (!r_clock_gettime) return (int)syscall(SYS_clock_gettime, id, ts);
    }
    int r = r_clock_gettime(id, ts);
    if (r == 0 && ctl && (id == CLOCK_MONOTONIC || id == CLOCK_BOOTTIME)) ts->tv_sec += ctl->age_ms / 1000;
    if (r == 0 && ctl && id == CLOCK_REALTIME) {
        __sync_fetch_and_add(&ctl->clock_reads, 1);
        int64_t off = ctl->clock_offset_ms;
        if (off) {
            ts->tv_sec += off / 1000;
            ts->tv_nsec += off % 1000 * 1000000;
            if (ts->tv_nsec >= 1000000000L) {
                ts->tv_nsec -= 1000000000L;
                ts->tv_sec += 1;
            }
            if (ts->tv_nsec < 0) {
                ts->tv_nsec += 1000000000L;
                ts->tv_sec -= 1;
            }
        }
    }
    return r;
}

// ---- what the process listens on
int listen(int fd, int backlog) {
    static int (*r_listen)(int, int);
    if (!r_listen) r_listen = dlsym(RTLD_NEXT, "listen");
    int r = r_listen(fd, backlog), e = errno;
    struct sockaddr_storage a;
    socklen_t n = sizeof a;
    if (r == 0 && ctl && getsockname(fd, (struct sockaddr *)&a, &n) == 0 && (a.ss_family == AF_INET || a.ss_family == AF_INET6)) {
        uint32_t i = __sync_fetch_and_add(&ctl->listeners, 1);
        if (i < 32) {
            ctl->listener[i].family = a.ss_family == AF_INET ? 4 : 6;
            if (a.ss_family == AF_INET) {
                ctl->listener[i].port = ntohs(((struct sockaddr_in *)&a)->sin_port);
                memcpy(ctl->listener[i].addr, &((struct sockaddr_in *)&a)->sin_addr, 4);
            } else {
                ctl->listener[i].port = ntohs(((struct sockaddr_in6 *)&a)->sin6_port);
                memcpy(ctl->listener[i].addr, &((struct sockaddr_in6 *)&a)->sin6_addr, 16);
            }
        }
    }
    errno = e;
    return r;
}

// ---- thread timing: an allocation may sleep
extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
static __thread uint32_t rng;

static void jitter(size_t n) {
    struct control *c = ctl;
    if (!c || !c->delay_ppm || n < c->delay_min || (c->delay_max && n > c->delay_max)) return;
    if (!rng) rng = c->delay_seed * 2654435761u ^ (uint32_t)syscall(SYS_gettid) * 40503u ^ 0x9e3779b9u;
    rng ^= rng << 13;
    rng ^= rng >> 17;
    rng ^= rng << 5;
    if (rng % 1000000u < c->delay_ppm) {
        uint32_t us = rng / 1000000u % (c->delay_us + 1);
        struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000};
        int e = errno;
        __sync_fetch_and_add(&c->delays, 1);
        nanosleep(&t, NULL);
        errno = e;
    }
}

void *malloc(size_t n) {
    jitter(n);
    return __libc_malloc(n);
}
