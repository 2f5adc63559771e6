// kill the process at its k-th write to a file, possibly leaving that write half done
#include <dlfcn.h>
#include <sys/types.h>
#include <unistd.h>
#include <csignal>
volatile long crashAt = -1;   // write number at which to die; -1 never
volatile double crashTear = 0; // part of that write that still reaches the file
volatile long writesSeen = 0;
extern "C" ssize_t pwrite64(int fd, const void* p, size_t n, off64_t off)
{
	typedef ssize_t (*F)(int, const void*, size_t, off64_t);
	static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pwrite64"));
	if (writesSeen == crashAt) {
		// a killed process leaves whole pages
		size_t m = crashTear * n;
		m = (off + m) / 4096 * 4096;
		m = (m > size_t(off)) ? m - off : 0;
		if (m > 0) real(fd, p, m, off);
		kill(getpid(), SIGKILL);
		_exit(99);
	}
	writesSeen = writesSeen + 1;
	return real(fd, p, n, off);
}
extern "C" ssize_t pwrite(int fd, const void* p, size_t n, off_t off) { return pwrite64(fd, p, n, off); }
