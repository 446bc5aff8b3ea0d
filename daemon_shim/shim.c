/* Links with /repo/daemon/usbhid.c (its libc calls renamed to sim_*, its main to daemon_main):
 * a fork server, and every system call of the daemon asked from the simulated kernel over two pipes. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <getopt.h>

#define RD 200
#define WR 201

struct req { uint32_t op, len; int64_t a[4]; };
struct rep { int64_t ret; int32_t err; uint32_t len; };

enum { START, SOCKET, SETSOCKOPT, BIND, LISTEN, ACCEPT, OPEN, CLOSE, READ, WRITE, SELECT, POLL, FCNTL, IOCTL, SHUTDOWN, GETSOCKOPT, NAME, SLEEP, TIME, EXITED, UNSUPPORTED, ALLOC };

extern int daemon_main(int argc, char *argv[]);

/* allocations fail from here on, until the first wait */
static int no_memory;

static void all(int fd, void *p, size_t n, int wr)
{
	char *c = p;
	while (n) {
		ssize_t r = wr ? write(fd, c, n) : read(fd, c, n);
		if (r < 0 && errno == EINTR)
			continue;
		if (r <= 0)
			_exit(201);
		c += r;
		n -= r;
	}
}

static int64_t call(int op, int64_t a, int64_t b, int64_t c, int64_t d, const void *in, size_t inlen, void *out, size_t outmax, size_t *outlen)
{
	static char buf[1 << 16];
	if (op == SELECT || op == POLL || op == ACCEPT)
		no_memory = 0;
	struct req q = { op, inlen, { a, b, c, d } };
	struct rep p;

	if (inlen > sizeof(buf) - sizeof(q))
		inlen = q.len = sizeof(buf) - sizeof(q);
	memcpy(buf, &q, sizeof(q));
	if (inlen)
		memcpy(buf + sizeof(q), in, inlen);	/* checked by the address sanitizer */
	all(WR, buf, sizeof(q) + inlen, 1);
	all(RD, &p, sizeof(p), 0);
	if (p.len)
		all(RD, buf, p.len, 0);
	if (p.ret == -2)
		_exit(200);	/* the run is over */
	if (p.len && out)
		memcpy(out, buf, p.len < outmax ? p.len : outmax);	/* checked too */
	if (outlen)
		*outlen = p.len;
	if (p.ret < 0) {
		errno = p.err;
		if (p.err == EPIPE && op == WRITE && !(b & MSG_NOSIGNAL))
			raise(SIGPIPE);
		errno = p.err;
		return -1;
	}
	return p.ret;
}

int sim_socket(int d, int t, int p) { return call(SOCKET, d, t, p, 0, 0, 0, 0, 0, 0); }
int sim_setsockopt(int fd, int l, int n, const void *v, socklen_t len) { return call(SETSOCKOPT, fd, l, n, 0, v, len, 0, 0, 0); }
int sim_bind(int fd, const struct sockaddr *a, socklen_t len) { return call(BIND, fd, 0, 0, 0, a, len, 0, 0, 0); }
int sim_listen(int fd, int n) { return call(LISTEN, fd, n, 0, 0, 0, 0, 0, 0, 0); }
int sim_accept4(int fd, struct sockaddr *a, socklen_t *len, int flags)
{
	size_t n = 0;
	int r = call(ACCEPT, fd, flags, 0, 0, 0, 0, a, a && len ? *len : 0, &n);
	if (r >= 0 && a && len)
		*len = n;
	return r;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *len) { return sim_accept4(fd, a, len, 0); }
int sim_open(const char *path, int flags, ...) 
{
	if (!path) {
		errno = EFAULT;
		return -1;
	}
	return call(OPEN, flags, 0, 0, 0, path, strlen(path), 0, 0, 0);
}
int sim_openat(int dir, const char *path, int flags, ...) { return sim_open(path, flags); }
int sim_open64(const char *path, int flags, ...) { return sim_open(path, flags); }
int sim_openat64(int dir, const char *path, int flags, ...) { return sim_open(path, flags); }
int sim_close(int fd) { return call(CLOSE, fd, 0, 0, 0, 0, 0, 0, 0, 0); }
ssize_t sim_recv(int fd, void *buf, size_t n, int flags) { return call(READ, fd, flags, n, 0, 0, 0, buf, n, 0); }
ssize_t sim_read(int fd, void *buf, size_t n) { return sim_recv(fd, buf, n, 0); }
ssize_t sim_recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *a, socklen_t *len)
{
	if (a && len)
		*len = 0;
	return sim_recv(fd, buf, n, flags);
}
ssize_t sim_send(int fd, const void *buf, size_t n, int flags) { return call(WRITE, fd, flags, n, 0, buf, n, 0, 0, 0); }
ssize_t sim_write(int fd, const void *buf, size_t n)
{
	if (fd == 1 || fd == 2)
		return n;
	return sim_send(fd, buf, n, 0);
}
ssize_t sim_sendto(int fd, const void *buf, size_t n, int flags, const struct sockaddr *a, socklen_t len) { return sim_send(fd, buf, n, flags); }
static ssize_t gather(int fd, const struct iovec *v, size_t cnt, int flags)
{
	static char b[1 << 15];
	size_t n = 0, i;
	for (i = 0; i < cnt; i++) {
		if (n + v[i].iov_len > sizeof(b))
			break;
		memcpy(b + n, v[i].iov_base, v[i].iov_len);
		n += v[i].iov_len;
	}
	return sim_send(fd, b, n, flags);
}
static ssize_t scatter(int fd, const struct iovec *v, size_t cnt, int flags)
{
	static char b[1 << 15];
	size_t n = 0, i, o = 0;
	ssize_t r;
	for (i = 0; i < cnt; i++)
		n += v[i].iov_len;
	r = sim_recv(fd, b, n < sizeof(b) ? n : sizeof(b), flags);
	for (i = 0; r > 0 && i < cnt && o < (size_t) r; i++) {
		size_t k = v[i].iov_len < r - o ? v[i].iov_len : r - o;
		memcpy(v[i].iov_base, b + o, k);
		o += k;
	}
	return r;
}
ssize_t sim_writev(int fd, const struct iovec *v, int cnt) { return gather(fd, v, cnt, 0); }
ssize_t sim_readv(int fd, const struct iovec *v, int cnt) { return scatter(fd, v, cnt, 0); }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int flags) { return gather(fd, m->msg_iov, m->msg_iovlen, flags); }
ssize_t sim_recvmsg(int fd, struct msghdr *m, int flags) { return scatter(fd, m->msg_iov, m->msg_iovlen, flags); }

static int do_select(int n, fd_set *r, fd_set *w, fd_set *e, int64_t us)
{
	fd_set s[3];
	size_t len = 0;
	int k;
	memset(s, 0, sizeof(s));
	if (r) s[0] = *r;
	if (w) s[1] = *w;
	if (e) s[2] = *e;
	k = call(SELECT, n, us, 0, 0, s, sizeof(s), s, sizeof(s), &len);
	if (k >= 0) {
		if (r) *r = s[0];
		if (w) *w = s[1];
		if (e) *e = s[2];
	}
	return k;
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return do_select(n, r, w, e, t ? t->tv_sec * 1000000LL + t->tv_usec : -1); }
int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m) { return do_select(n, r, w, e, t ? t->tv_sec * 1000000LL + t->tv_nsec / 1000 : -1); }
static int do_poll(struct pollfd *p, nfds_t n, int64_t us) { return call(POLL, n, us, 0, 0, p, n * sizeof(*p), p, n * sizeof(*p), 0); }
int sim_poll(struct pollfd *p, nfds_t n, int ms) { return do_poll(p, n, ms < 0 ? -1 : ms * 1000LL); }
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *m) { return do_poll(p, n, t ? t->tv_sec * 1000000LL + t->tv_nsec / 1000 : -1); }
int sim_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	long arg;
	va_start(ap, cmd);
	arg = va_arg(ap, long);
	va_end(ap);
	return call(FCNTL, fd, cmd, arg, 0, 0, 0, 0, 0, 0);
}
int sim_fcntl64(int fd, int cmd, ...)
{
	va_list ap;
	long arg;
	va_start(ap, cmd);
	arg = va_arg(ap, long);
	va_end(ap);
	return sim_fcntl(fd, cmd, arg);
}
int sim_ioctl(int fd, unsigned long cmd, ...)
{
	va_list ap;
	void *arg;
	va_start(ap, cmd);
	arg = va_arg(ap, void *);
	va_end(ap);
	int in = cmd == FIONBIO && arg ? *(int *) arg : 0, out = 0;
	int r = call(IOCTL, fd, cmd, in, 0, 0, 0, &out, sizeof(out), 0);
	if (r >= 0 && cmd == FIONREAD)
		*(int *) arg = out;
	return r;
}
int sim_shutdown(int fd, int how) { return call(SHUTDOWN, fd, how, 0, 0, 0, 0, 0, 0, 0); }
int sim_getsockopt(int fd, int l, int n, void *v, socklen_t *len) { return call(GETSOCKOPT, fd, l, n, 0, 0, 0, v, *len, 0); }
static int name(int fd, struct sockaddr *a, socklen_t *len, int peer)
{
	size_t n = 0;
	int r = call(NAME, fd, peer, 0, 0, 0, 0, a, *len, &n);
	if (r >= 0)
		*len = n;
	return r;
}
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *len) { return name(fd, a, len, 0); }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *len) { return name(fd, a, len, 1); }
int sim_usleep(useconds_t us) { return call(SLEEP, us, 0, 0, 0, 0, 0, 0, 0, 0); }
unsigned sim_sleep(unsigned s) { return call(SLEEP, s * 1000000LL, 0, 0, 0, 0, 0, 0, 0, 0); }
int sim_nanosleep(const struct timespec *t, struct timespec *rem) { return call(SLEEP, t->tv_sec * 1000000LL + t->tv_nsec / 1000, 0, 0, 0, 0, 0, 0, 0, 0); }
int sim_clock_gettime(clockid_t c, struct timespec *t)
{
	int64_t us = call(TIME, c != CLOCK_REALTIME, 0, 0, 0, 0, 0, 0, 0, 0);
	t->tv_sec = us / 1000000;
	t->tv_nsec = us % 1000000 * 1000;
	return 0;
}
int sim_gettimeofday(struct timeval *t, void *z)
{
	int64_t us = call(TIME, 0, 0, 0, 0, 0, 0, 0, 0, 0);
	t->tv_sec = us / 1000000;
	t->tv_usec = us % 1000000;
	return 0;
}
time_t sim_time(time_t *t)
{
	time_t s = call(TIME, 0, 0, 0, 0, 0, 0, 0, 0, 0) / 1000000;
	if (t)
		*t = s;
	return s;
}
static int denied(void)
{
	if (!no_memory)
		return 0;
	call(ALLOC, 0, 0, 0, 0, 0, 0, 0, 0, 0);
	errno = ENOMEM;
	return 1;
}
void *sim_malloc(size_t n) { return denied() ? NULL : malloc(n); }
void *sim_calloc(size_t n, size_t m) { return denied() ? NULL : calloc(n, m); }
void *sim_realloc(void *p, size_t n) { return denied() ? NULL : realloc(p, n); }
char *sim_strdup(const char *s) { return denied() ? NULL : strdup(s); }
int sim_rand(void) { return 4; }
void *sim_gethostbyname(const char *n) { return NULL; }

int main(int argc, char *argv[])
{
	char go[2], text[256], *args[33];
	struct rlimit core = { 0, 0 }, cpu = { 120, 120 };
	signal(SIGINT, SIG_IGN);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	setrlimit(RLIMIT_CORE, &core);
	/* each start: length of the arguments, and the arguments, each with its final NUL */
	while (read(RD, go, 2) == 2) {
		int k, n = (unsigned char)go[0], start = 0;
		for (k = 0; k < n;) {
			ssize_t m = read(RD, text + k, n - k);
			if (m <= 0)
				return 0;
			k += m;
		}
		argc = 1;
		no_memory = 0;
		args[0] = argv[0];
		for (k = 0; k < n && argc < 32; k++)
			if (!text[k]) {
				if (text[start] == 1) {	/* not an argument: memory is short */
					no_memory = 1;
					start = k + 1;
					continue;
				}
				args[argc++] = text + start;
				start = k + 1;
			}
		args[argc] = NULL;
		pid_t pid = fork();
		if (pid == 0) {
			int r;
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			setrlimit(RLIMIT_CPU, &cpu);
			signal(SIGINT, SIG_DFL);
			call(START, getpid(), 0, 0, 0, 0, 0, 0, 0, 0);
			optind = 0;
			r = daemon_main(argc, args);
			exit(r);
		}
		int status = -1;
		if (pid > 0)
			while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
				;
		struct req q = { EXITED, 0, { status, pid, 0, 0 } };
		all(WR, &q, sizeof(q), 1);
	}
	return 0;
}
