// The model runner with a stand-in for write(): when VP_WCUT=n is set, the process is killed after n bytes have
// reached the file whose name contains VP_WFILE (a crash while a checkpoint is being written).
#include "sim.cpp"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <signal.h>
static long g_left = -2;
static bool Target(int fd) {
	if (g_left == -1) return false;
	if (g_left == -2) {
		const char * c = getenv("VP_WCUT");
		g_left = c ? atol(c) : -1;
		if (g_left == -1) return false;
	}
	const char * f = getenv("VP_WFILE");
	char l[64], p[1024];
	snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
	ssize_t n = readlink(l, p, sizeof(p) - 1);
	if (n <= 0 || !f) return false;
	p[n] = 0;
	return strstr(p, f) != NULL;
}
extern "C" ssize_t write(int fd, const void * b, size_t n) {
	if (Target(fd)) {
		if ((long)n > g_left) { if (g_left > 0) syscall(SYS_write, fd, b, (size_t)g_left); kill(getpid(), SIGKILL); }
		g_left -= (long)n;
	}
	return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec * v, int c) {
	if (Target(fd)) {
		ssize_t t = 0;
		for (int i = 0; i < c; i++) t += write(fd, v[i].iov_base, v[i].iov_len);
		return t;
	}
	return syscall(SYS_writev, fd, v, c);
}
