/* LD_PRELOAD shim: records the file operations of the program on files under
 * SHIM_DIR, makes chosen ones fail, and stops at chosen ones.
 *
 * SHIM_DIR    only files below this directory are watched
 * SHIM_LOG    binary log: {u8 kind, u8 flags, u16 pathlen, u32 datalen, i64 off,
 *             i64 result} path data
 * SHIM_FAIL   "n:errno:mode"  operation n fails (mode 1: only it; 2: all later
 *             ones that write, too; 3: a short write, then as 2)
 * SHIM_GATE   "n[,n...]" before operation n, write 'g' to fd SHIM_GOUT and wait
 *             for a byte on fd SHIM_GIN
 * SHIM_SLOW   milliseconds to sleep before syncs and deletions
 * Operations are numbered from 1 as they start, whatever thread does them.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPEN = 1, K_WRITE, K_TRUNC, K_SYNC, K_UNLINK, K_RENAME, K_LOCK, K_READ,
       K_OUT, K_IN, K_FAULT, K_CLOSE, K_ERR };

static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static char dir[4096];
static size_t dirlen;
static int logfd = -1, gin = -1, gout = -1;
static long count, failat, failerr, failmode, slowms;
static long gates[64];
static int ngates;
static int failing;
static char *paths[1024];

__attribute__((constructor)) static void init(void)
{
	char *s;
	if ((s = getenv("SHIM_DIR"))) {
		strncpy(dir, s, sizeof dir - 1);
		dirlen = strlen(dir);
	}
	if ((s = getenv("SHIM_LOG")))
		logfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
	if ((s = getenv("SHIM_FAIL")))
		sscanf(s, "%ld:%ld:%ld", &failat, &failerr, &failmode);
	if ((s = getenv("SHIM_SLOW")))
		slowms = atol(s);
	if ((s = getenv("SHIM_GIN")))
		gin = atoi(s);
	if ((s = getenv("SHIM_GOUT")))
		gout = atoi(s);
	if ((s = getenv("SHIM_GATE")))
		while (*s && ngates < 64) {
			gates[ngates++] = strtol(s, &s, 10);
			if (*s == ',')
				s++;
		}
}

static void rec(int kind, int flags, const char *path, const void *data,
		size_t len, int64_t off, int64_t res)
{
	struct __attribute__((packed)) {
		uint8_t kind, flags;
		uint16_t plen;
		uint32_t dlen;
		int64_t off, res;
	} h;
	struct iovec v[3];
	size_t n = path ? strlen(path) : 0;
	if (logfd < 0)
		return;
	h.kind = kind; h.flags = flags; h.plen = n; h.dlen = len; h.off = off; h.res = res;
	v[0].iov_base = &h; v[0].iov_len = sizeof h;
	v[1].iov_base = (void *)path; v[1].iov_len = n;
	v[2].iov_base = (void *)data; v[2].iov_len = len;
	syscall(SYS_writev, logfd, v, 3);
}

static int watched(const char *p)
{
	return dirlen && p && !strncmp(p, dir, dirlen);
}
static const char *path_of(int fd)
{
	return fd >= 0 && fd < 1024 ? paths[fd] : 0;
}

/* Start of an operation (lock held): number, gate, fault. Returns the errno to
 * fail with, or 0. */
static int start(int kind, const char *path, int writes)
{
	long n = ++count;
	int i;
	for (i = 0; i < ngates; i++)
		if (gates[i] == n && gin >= 0) {
			char c = 'g';
			ssize_t r;
			if (syscall(SYS_write, gout, &c, 1) == 1)
				do r = syscall(SYS_read, gin, &c, 1);
				while (r < 0 && errno == EINTR);
		}
	if (kind == K_OUT || kind == K_IN)
		return 0;
	if (failat && (n == failat || (failing && writes))) {
		if (n == failat && failmode >= 2)
			failing = 1;
		rec(K_FAULT, kind, path, 0, 0, n, failerr);
		return failerr;
	}
	return 0;
}

#define REAL(name) \
	static __typeof__(&name) real; \
	if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define LOCK() pthread_mutex_lock(&mx)
#define UNLOCK() do { int e_ = errno; pthread_mutex_unlock(&mx); errno = e_; } while (0)

static int do_open(int (*fn)(const char *, int, ...), const char *p, int fl, mode_t m)
{
	int fd, e;
	if (!watched(p)) {
		fd = fn(p, fl, m);
		if (fd >= 0 && fd < 1024) { LOCK(); paths[fd] = 0; UNLOCK(); }
		return fd;
	}
	LOCK();
	e = start(K_OPEN, p, fl & O_CREAT);
	if (e) { UNLOCK(); errno = e; return -1; }
	{
		struct stat st;
		int existed = syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0;
		fd = fn(p, fl, m);
		if (fd >= 0 && fd < 1024) {
			free(paths[fd]);
			paths[fd] = strdup(p);
		}
		rec(K_OPEN, (fl & O_CREAT && !existed) | (fl & O_TRUNC ? 2 : 0), p, 0, 0, 0, fd);
	}
	UNLOCK();
	return fd;
}
int open(const char *p, int fl, ...)
{
	va_list a; mode_t m;
	REAL(open);
	va_start(a, fl); m = va_arg(a, int); va_end(a);
	return do_open(real, p, fl, m);
}
int open64(const char *p, int fl, ...)
{
	va_list a; mode_t m;
	REAL(open64);
	va_start(a, fl); m = va_arg(a, int); va_end(a);
	return do_open(real, p, fl, m);
}
int close(int fd)
{
	int r;
	REAL(close);
	if (!path_of(fd))
		return real(fd);
	LOCK();
	rec(K_CLOSE, 0, paths[fd], 0, 0, 0, 0);
	free(paths[fd]); paths[fd] = 0;
	r = real(fd);
	UNLOCK();
	return r;
}

static ssize_t do_pwrite(int fd, const void *b, size_t n, off64_t o, int seek)
{
	const char *p = path_of(fd);
	ssize_t r;
	int e;
	LOCK();
	if (seek)
		o = syscall(SYS_lseek, fd, 0, SEEK_CUR);
	e = start(K_WRITE, p, 1);
	if (e && failmode == 3 && n > 1 && failing == 1) {
		failing = 2;
		n = n / 2;
		e = 0;
	}
	if (e) { UNLOCK(); errno = e; return -1; }
	r = seek ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, o);
	rec(K_WRITE, 0, p, b, r > 0 ? r : 0, o, r);
	UNLOCK();
	return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
	REAL(pwrite);
	return path_of(fd) ? do_pwrite(fd, b, n, o, 0) : real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
	REAL(pwrite64);
	return path_of(fd) ? do_pwrite(fd, b, n, o, 0) : real(fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n)
{
	REAL(write);
	if (path_of(fd))
		return do_pwrite(fd, b, n, 0, 1);
	if ((fd == 1 || fd == 2) && dirlen) {
		LOCK();
		start(K_OUT, 0, 0);
		rec(fd == 1 ? K_OUT : K_ERR, fd, 0, b, n, 0, n);
		UNLOCK();
	}
	return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
	REAL(writev);
	if (path_of(fd)) {
		ssize_t t = 0;
		int i;
		for (i = 0; i < c; i++) {
			ssize_t r = do_pwrite(fd, v[i].iov_base, v[i].iov_len, 0, 1);
			if (r < 0) return t ? t : r;
			t += r;
		}
		return t;
	}
	if ((fd == 1 || fd == 2) && dirlen) {
		int i;
		LOCK();
		for (i = 0; i < c; i++) {
			start(K_OUT, 0, 0);
			rec(fd == 1 ? K_OUT : K_ERR, fd, 0, v[i].iov_base, v[i].iov_len, 0, 0);
		}
		UNLOCK();
	}
	return real(fd, v, c);
}
static int do_trunc(int fd, off64_t n)
{
	const char *p = path_of(fd);
	int r, e;
	LOCK();
	e = start(K_TRUNC, p, 1);
	if (e) { UNLOCK(); errno = e; return -1; }
	r = syscall(SYS_ftruncate, fd, n);
	rec(K_TRUNC, 0, p, 0, 0, n, r);
	UNLOCK();
	return r;
}
int ftruncate(int fd, off_t n)
{
	REAL(ftruncate);
	return path_of(fd) ? do_trunc(fd, n) : real(fd, n);
}
int ftruncate64(int fd, off64_t n)
{
	REAL(ftruncate64);
	return path_of(fd) ? do_trunc(fd, n) : real(fd, n);
}
static int do_sync(int fd)
{
	const char *p = path_of(fd);
	int e;
	if (slowms)
		usleep(slowms * 1000);
	LOCK();
	e = start(K_SYNC, p, 1);
	if (e) { UNLOCK(); errno = e; return -1; }
	rec(K_SYNC, 0, p, 0, 0, 0, 0); /* not done: nothing here survives anyway */
	UNLOCK();
	return 0;
}
int fsync(int fd)
{
	REAL(fsync);
	return path_of(fd) ? do_sync(fd) : real(fd);
}
int fdatasync(int fd)
{
	REAL(fdatasync);
	return path_of(fd) ? do_sync(fd) : real(fd);
}
int unlink(const char *p)
{
	int r, e;
	REAL(unlink);
	if (!watched(p))
		return real(p);
	if (slowms)
		usleep(slowms * 1000);
	LOCK();
	e = start(K_UNLINK, p, 1);
	if (e) { UNLOCK(); errno = e; return -1; }
	r = real(p);
	rec(K_UNLINK, 0, p, 0, 0, 0, r);
	UNLOCK();
	return r;
}
int rename(const char *p, const char *q)
{
	int r, e;
	REAL(rename);
	if (!watched(p) && !watched(q))
		return real(p, q);
	LOCK();
	e = start(K_RENAME, p, 1);
	if (e) { UNLOCK(); errno = e; return -1; }
	r = real(p, q);
	rec(K_RENAME, 0, p, q, strlen(q), 0, r);
	UNLOCK();
	return r;
}
static int do_fcntl(int (*fn)(int, int, ...), int fd, int cmd, void *arg)
{
	const char *p = path_of(fd);
	int r, e;
	if (!p || !(cmd == F_SETLK || cmd == F_SETLKW))
		return fn(fd, cmd, arg);
	LOCK();
	/* releasing a lock does not fail */
	e = ((struct flock *)arg)->l_type == F_UNLCK ? (start(K_OUT, p, 0), 0)
						     : start(K_LOCK, p, 0);
	if (e) { UNLOCK(); errno = e; return -1; }
	r = fn(fd, cmd, arg);
	rec(K_LOCK, ((struct flock *)arg)->l_type, p, 0, 0, ((struct flock *)arg)->l_start, r);
	UNLOCK();
	return r;
}
int fcntl(int fd, int cmd, ...)
{
	va_list a; void *p;
	REAL(fcntl);
	va_start(a, cmd); p = va_arg(a, void *); va_end(a);
	return do_fcntl(real, fd, cmd, p);
}
int fcntl64(int fd, int cmd, ...)
{
	va_list a; void *p;
	REAL(fcntl64);
	va_start(a, cmd); p = va_arg(a, void *); va_end(a);
	return do_fcntl(real, fd, cmd, p);
}
static ssize_t do_pread(int fd, void *b, size_t n, off64_t o)
{
	const char *p = path_of(fd);
	ssize_t r;
	int e;
	LOCK();
	e = start(K_READ, p, 0);
	if (e) { UNLOCK(); errno = e; return -1; }
	r = syscall(SYS_pread64, fd, b, n, o);
	rec(K_READ, 0, p, 0, 0, o, r);
	UNLOCK();
	return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o)
{
	REAL(pread);
	return path_of(fd) ? do_pread(fd, b, n, o) : real(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
	REAL(pread64);
	return path_of(fd) ? do_pread(fd, b, n, o) : real(fd, b, n, o);
}
ssize_t read(int fd, void *b, size_t n)
{
	ssize_t r;
	REAL(read);
	if (fd == 0 && dirlen) {
		LOCK();
		start(K_IN, 0, 0);
		UNLOCK();
		r = real(fd, b, n);
		LOCK();
		rec(K_IN, 0, 0, b, r > 0 ? r : 0, 0, r);
		UNLOCK();
		return r;
	}
	return real(fd, b, n);
}
