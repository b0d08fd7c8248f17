// Random delays around the system calls that the code under test makes on files and
// locks, to let other threads and processes in between.  Only in calls marked by `call`.
#ifndef JITTER_HPP
#define JITTER_HPP
#include <dlfcn.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>

namespace jit
{
inline std::atomic<int> amount{0}; // longest delay, in microseconds
inline thread_local unsigned rng = 1;
inline thread_local bool inCall = false;
inline void jitter()
{
    if (!amount || !inCall) return;
    rng = rng * 1664525u + 1013904223u;
    const unsigned x = rng >> 8;
    if (x % 5 == 0) ::usleep((x / 5) % static_cast<unsigned>(amount.load()));
}
struct call
{
    call() { inCall = true; }
    ~call() { inCall = false; }
};
} // namespace jit

extern "C" int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void* a = va_arg(ap, void*);
    va_end(ap);
    jit::jitter();
    const long r = ::syscall(SYS_fcntl, fd, cmd, a);
    const int e = errno;
    jit::jitter();
    errno = e;
    return static_cast<int>(r);
}
extern "C" int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void* a = va_arg(ap, void*);
    va_end(ap);
    return fcntl(fd, cmd, a);
}
extern "C" int close(int fd)
{
    jit::jitter();
    const long r = ::syscall(SYS_close, fd);
    const int e = errno;
    jit::jitter();
    errno = e;
    return static_cast<int>(r);
}
extern "C" int remove(const char* p) noexcept
{
    using fn = int (*)(const char*);
    static const fn real = reinterpret_cast<fn>(::dlsym(RTLD_NEXT, "remove"));
    jit::jitter();
    const int r = real(p);
    const int e = errno;
    jit::jitter();
    errno = e;
    return r;
}
#endif
