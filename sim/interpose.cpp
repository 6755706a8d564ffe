// libc / libpthread / libcurl entry points the daemon uses, replaced by simulated ones.
#include "io.h"
namespace world
{
    void Alarm(const std::string& key, const std::string& msg);
    int PortCount();
}
#include "kernel.h"

#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

using sim::ns_t;

namespace sim
{
    double SpuriousProb();
    Rng& SchedRng();
}

namespace io
{
    std::string Root;
    ns_t WallOffset = 1700000000LL * sim::SEC;
    int LiveFiles = 0;
    namespace
    {
        std::shared_ptr<FdObj> Fds[FDN - FD0];
        // real descriptors of redirected files
        struct RealFd
        {
            std::string path; // real path
            bool writing = false;
        };
        std::map<int, RealFd> Real;

        bool Prefix(const std::string& s, const char* p)
        {
            auto n = strlen(p);
            return s.compare(0, n, p) == 0;
        }
        bool Under(const std::string& s)
        {
            return !Root.empty() && Prefix(s, Root.c_str());
        }
    }
    int Alloc(std::shared_ptr<FdObj> o)
    {
        for (int i = 0; i < FDN - FD0; ++i)
            if (!Fds[i]) {
                Fds[i] = o;
                if (dynamic_cast<Tty*>(o.get()) || dynamic_cast<Sock*>(o.get())) {
                    int n = 0;
                    for (auto& f: Fds)
                        n += dynamic_cast<Tty*>(f.get()) || dynamic_cast<Sock*>(f.get());
                    if (n > world::PortCount())
                        world::Alarm("descriptor_leak", std::to_string(n) + " descriptors are open for " + std::to_string(world::PortCount()) + " ports");
                }
                return FD0 + i;
            }
        errno = EMFILE;
        return -1;
    }
    FdObj* Get(int fd)
    {
        return fd >= FD0 && fd < FDN ? Fds[fd - FD0].get() : nullptr;
    }
    std::shared_ptr<FdObj> GetShared(int fd)
    {
        return fd >= FD0 && fd < FDN ? Fds[fd - FD0] : nullptr;
    }
    int OpenFds()
    {
        int n = 0;
        for (auto& f: Fds)
            n += f != nullptr;
        return n;
    }
    std::string MapPath(const char* p)
    {
        std::string s(p);
        if (Root.empty())
            return s;
        if (Prefix(s, "/etc/wb-mqtt-serial") || Prefix(s, "/usr/share/wb-mqtt-serial") ||
            Prefix(s, "/var/lib/wb-mqtt-serial") || Prefix(s, "/usr/lib/wb-mqtt-serial") || Prefix(s, "/usr/lib/wb-release"))
            return Root + s;
        if (Prefix(s, "/dev/ttySIM") || Prefix(s, "/sys/class/tty"))
            return Root + "/nonexistent" + s;
        return s;
    }

    // ---------------- inotify ----------------
    struct Inotify: FdObj
    {
        std::map<int, std::string> Wd;
        int Next = 1;
        std::vector<std::pair<std::pair<int, uint32_t>, std::string>> Q;
        ssize_t Read(void* p, size_t n) override
        {
            char* o = (char*)p;
            size_t used = 0;
            while (!Q.empty()) {
                auto& e = Q.front();
                size_t nl = (e.second.size() / 16 + 1) * 16;
                size_t need = sizeof(inotify_event) + nl;
                if (used + need > n)
                    break;
                inotify_event ev{};
                ev.wd = e.first.first;
                ev.mask = e.first.second;
                ev.len = nl;
                memcpy(o + used, &ev, sizeof(ev));
                memset(o + used + sizeof(ev), 0, nl);
                memcpy(o + used + sizeof(ev), e.second.data(), e.second.size());
                used += need;
                Q.erase(Q.begin());
            }
            return used;
        }
        ssize_t Write(const void*, size_t) override
        {
            errno = EBADF;
            return -1;
        }
        bool Readable() override
        {
            return !Q.empty();
        }
    };
    std::vector<Inotify*> Watchers;
    void InotifyEvent(const std::string& realPath, uint32_t mask)
    {
        auto sl = realPath.rfind('/');
        auto dir = realPath.substr(0, sl), name = realPath.substr(sl + 1);
        for (auto w: Watchers)
            for (auto& d: w->Wd)
                if (d.second == dir) {
                    std::pair<std::pair<int, uint32_t>, std::string> e{{d.first, mask}, name};
                    if (w->Q.empty() || w->Q.back() != e)
                        w->Q.push_back(e);
                    sim::WakeAll(w);
                }
    }
}

using namespace io;

// =====================================================================================
// threads
// =====================================================================================
namespace
{
    struct MState
    {
        void* owner;
        int count;
    };
    MState* M(pthread_mutex_t* m)
    {
        return (MState*)m;
    }
    bool Recursive(pthread_mutex_t* m)
    {
        return (m->__data.__kind & 3) == 1;
    }
    void* Me()
    {
        auto f = sim::Cur();
        return f ? (void*)f : (void*)1;
    }
    char SleepKey;
    ns_t ToNs(const timespec* t)
    {
        return (ns_t)t->tv_sec * sim::SEC + t->tv_nsec;
    }
    // A real mutex never starves a waiter for long: one that lost the race for it several times gets it next.
    std::map<pthread_mutex_t*, void*> Reserved;
    void Acquire(pthread_mutex_t* m, int count)
    {
        auto s = M(m);
        int lost = 0;
        auto taken = [&] {
            if (s->owner)
                return true;
            auto r = Reserved.find(m);
            return r != Reserved.end() && r->second != Me();
        };
        while (taken()) {
            if (++lost > 3)
                Reserved.emplace(m, Me());
            sim::BlockOn(m, sim::NEVER); // self deadlock shows up as a deadlock of the run
        }
        if (lost > 3) {
            auto r = Reserved.find(m);
            if (r != Reserved.end() && r->second == Me())
                Reserved.erase(r);
        }
        s->owner = Me();
        s->count = count;
    }
    void Release(pthread_mutex_t* m)
    {
        M(m)->owner = nullptr;
        M(m)->count = 0;
        if (Reserved.count(m))
            sim::WakeAll(m);
        else
            sim::WakeOne(m);
    }
    int CondWait(pthread_cond_t* c, pthread_mutex_t* m, ns_t deadline)
    {
        if (!sim::InFiber())
            abort();
        sim::YieldPoint(40);
        // release without a scheduling point: atomic with going to sleep
        auto s = M(m);
        int cnt = s->count;
        Release(m);
        bool woken;
        auto p = sim::SpuriousProb();
        if (p > 0 && sim::SchedRng().chance(p)) {
            ++sim::stats.spurious;
            auto d = sim::Now() + (ns_t)sim::SchedRng().below(20 * sim::MS);
            bool ours = d < deadline;
            woken = sim::BlockOn(c, std::min(d, deadline)) || ours;
        } else {
            woken = sim::BlockOn(c, deadline);
        }
        Acquire(m, cnt);
        return woken ? 0 : ETIMEDOUT;
    }
}

extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    sim::Whole whole;
    *t = (pthread_t)sim::CreateThread(fn, arg);
    sim::YieldPoint(60);
    return 0;
}
int pthread_join(pthread_t t, void** ret)
{
    sim::Whole whole;
    sim::JoinThread((sim::Fiber*)t, ret);
    return 0;
}
int pthread_detach(pthread_t t)
{
    sim::Whole whole;
    sim::DetachThread((sim::Fiber*)t);
    return 0;
}
pthread_t pthread_self(void)
{
    return (pthread_t)sim::Cur();
}
int pthread_equal(pthread_t a, pthread_t b)
{
    return a == b;
}
int pthread_setname_np(pthread_t, const char*)
{
    sim::Whole whole;
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    sim::Whole whole;
    int kind = 0;
    if (a)
        pthread_mutexattr_gettype(a, &kind);
    memset(m, 0, sizeof(*m));
    m->__data.__kind = kind;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    sim::Whole whole;
    Reserved.erase(m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    sim::Whole whole;
    sim::YieldPoint(25);
    auto s = M(m);
    if (s->owner == Me()) {
        if (Recursive(m)) {
            ++s->count;
            return 0;
        }
    }
    Acquire(m, 1);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    sim::Whole whole;
    sim::YieldPoint(25);
    auto s = M(m);
    if ((s->owner || Reserved.count(m)) && !(s->owner == Me() && Recursive(m)))
        return EBUSY;
    s->owner = Me();
    ++s->count;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    sim::Whole whole;
    auto s = M(m);
    if (--s->count > 0)
        return 0;
    Release(m);
    sim::YieldPoint(25);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    sim::Whole whole;
    memset(c, 0, sizeof(*c));
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*)
{
    sim::Whole whole;
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    sim::Whole whole;
    return CondWait(c, m, sim::NEVER);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
    sim::Whole whole;
    return CondWait(c, m, ToNs(t) - WallOffset);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* t)
{
    sim::Whole whole;
    return CondWait(c, m, clk == CLOCK_MONOTONIC ? ToNs(t) : ToNs(t) - WallOffset);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    sim::Whole whole;
    sim::WakeOne(c);
    sim::YieldPoint(25);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    sim::Whole whole;
    sim::WakeAll(c);
    sim::YieldPoint(25);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    while (*o == 1)
        sim::BlockOn(o, sim::NEVER);
    if (*o == 2)
        return 0;
    *o = 1;
    try {
        fn();
    } catch (...) {
        *o = 0;
        sim::WakeAll(o);
        throw;
    }
    *o = 2;
    sim::WakeAll(o);
    return 0;
}
int sched_yield(void)
{
    sim::Whole whole;
    sim::YieldPoint(200);
    return 0;
}
int __cxa_guard_acquire(int64_t* g)
{
    sim::Whole whole;
    auto b = (volatile char*)g;
    while (true) {
        if (b[0])
            return 0;
        if (!b[1]) {
            b[1] = 1;
            return 1;
        }
        sim::BlockOn(g, sim::NEVER);
    }
}
void __cxa_guard_release(int64_t* g)
{
    sim::Whole whole;
    auto b = (volatile char*)g;
    b[0] = 1;
    b[1] = 0;
    sim::WakeAll(g);
}
void __cxa_guard_abort(int64_t* g)
{
    sim::Whole whole;
    ((volatile char*)g)[1] = 0;
    sim::WakeAll(g);
}

// =====================================================================================
// time
// =====================================================================================
int clock_gettime(clockid_t clk, timespec* t) noexcept
{
    sim::Whole whole;
    sim::ClockTick();
    ns_t n = sim::Now();
    if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE)
        n += WallOffset;
    t->tv_sec = n / sim::SEC;
    t->tv_nsec = n % sim::SEC;
    return 0;
}
int gettimeofday(timeval* t, void*) noexcept
{
    sim::Whole whole;
    sim::ClockTick();
    ns_t n = sim::Now() + WallOffset;
    t->tv_sec = n / sim::SEC;
    t->tv_usec = n % sim::SEC / 1000;
    return 0;
}
time_t time(time_t* o) noexcept
{
    sim::Whole whole;
    time_t r = (sim::Now() + WallOffset) / sim::SEC;
    if (o)
        *o = r;
    return r;
}
int nanosleep(const timespec* r, timespec* rem)
{
    sim::Whole whole;
    ns_t d = ToNs(r);
    sim::BlockOn(&SleepKey, sim::Now() + d + 20 * sim::US);
    if (rem)
        rem->tv_sec = rem->tv_nsec = 0;
    return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const timespec* r, timespec*)
{
    sim::Whole whole;
    ns_t t = ToNs(r);
    if (flags & TIMER_ABSTIME)
        t = clk == CLOCK_MONOTONIC ? t : t - WallOffset;
    else
        t += sim::Now();
    sim::BlockOn(&SleepKey, t + 20 * sim::US);
    return 0;
}
int usleep(useconds_t us)
{
    sim::Whole whole;
    sim::BlockOn(&SleepKey, sim::Now() + (ns_t)us * 1000 + 20 * sim::US);
    return 0;
}
unsigned sleep(unsigned s)
{
    sim::Whole whole;
    sim::BlockOn(&SleepKey, sim::Now() + (ns_t)s * sim::SEC);
    return 0;
}
void exit(int code) noexcept
{
    sim::Whole whole;
    if (sim::InFiber())
        io::ProcessExit(code);
    _exit(code);
}

// =====================================================================================
// descriptors
// =====================================================================================
static int OpenReal(const char* orig, int dirfd, const char* path, int flags, mode_t mode)
{
    sim::Whole whole;
    (void)orig;
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    bool under = Under(path);
    if (under && sim::InFiber() && !(flags & O_DIRECTORY)) {
        if (int e = FsHook(wr ? 'O' : 'o', path, 0)) {
            errno = e;
            return -1;
        }
    }
    int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && under && sim::InFiber()) {
        Real[fd] = {path, wr};
        ++LiveFiles;
    }
    return fd;
}
static int OpenAny(int dirfd, const char* p, int flags, mode_t mode)
{
    sim::Whole whole;
    if (sim::InFiber() && !strncmp(p, "/dev/ttySIM", 11)) {
        auto t = OpenTty(p);
        if (!t)
            return -1;
        t->flags = flags;
        return Alloc(t);
    }
    auto s = MapPath(p);
    return OpenReal(p, dirfd, s.c_str(), flags, mode);
}
int open(const char* p, int flags, ...)
{
    sim::Whole whole;
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        mode = va_arg(a, int);
        va_end(a);
    }
    return OpenAny(AT_FDCWD, p, flags, mode);
}
int open64(const char* p, int flags, ...)
{
    sim::Whole whole;
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        mode = va_arg(a, int);
        va_end(a);
    }
    return OpenAny(AT_FDCWD, p, flags, mode);
}
int openat(int dirfd, const char* p, int flags, ...)
{
    sim::Whole whole;
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        mode = va_arg(a, int);
        va_end(a);
    }
    return OpenAny(dirfd, p, flags, mode);
}
int __openat_2(int dirfd, const char* p, int flags)
{
    sim::Whole whole;
    return OpenAny(dirfd, p, flags, 0);
}
int __open_2(const char* p, int flags)
{
    sim::Whole whole;
    return OpenAny(AT_FDCWD, p, flags, 0);
}
static FILE* FopenReal(const char* p, const char* m)
{
    sim::Whole whole;
    int fl = 0;
    bool plus = strchr(m, '+') != nullptr;
    switch (m[0]) {
        case 'r':
            fl = plus ? O_RDWR : O_RDONLY;
            break;
        case 'w':
            fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
            break;
        default:
            fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    }
    int fd = OpenAny(AT_FDCWD, p, fl, 0666);
    if (fd < 0)
        return nullptr;
    return fdopen(fd, m);
}
FILE* fopen(const char* p, const char* m)
{
    sim::Whole whole;
    return FopenReal(p, m);
}
FILE* fopen64(const char* p, const char* m)
{
    sim::Whole whole;
    return FopenReal(p, m);
}
static void Closed(int fd)
{
    sim::Whole whole;
    auto i = Real.find(fd);
    if (i == Real.end())
        return;
    auto r = i->second;
    Real.erase(i);
    --LiveFiles;
    if (r.writing)
        InotifyEvent(r.path, IN_CLOSE_WRITE);
}
int fclose(FILE* f)
{
    sim::Whole whole;
    static auto real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    int fd = fileno(f);
    int rc = real(f);
    if (sim::InFiber())
        Closed(fd);
    return rc;
}
int close(int fd)
{
    sim::Whole whole;
    if (fd >= FD0 && fd < FDN) {
        auto o = GetShared(fd);
        if (!o) {
            errno = EBADF;
            return -1;
        }
        Fds[fd - FD0].reset();
        o->OnClose();
        sim::YieldPoint(60);
        return 0;
    }
    int rc = (int)syscall(SYS_close, fd);
    if (sim::InFiber())
        Closed(fd);
    return rc;
}
ssize_t read(int fd, void* p, size_t n)
{
    sim::Whole whole;
    if (fd >= FD0 && fd < FDN) {
        auto o = GetShared(fd);
        if (!o) {
            errno = EBADF;
            return -1;
        }
        sim::YieldPoint(40);
        return o->Read(p, n);
    }
    return syscall(SYS_read, fd, p, n);
}
ssize_t write(int fd, const void* p, size_t n)
{
    sim::Whole whole;
    if (fd >= FD0 && fd < FDN) {
        auto o = GetShared(fd);
        if (!o) {
            errno = EBADF;
            return -1;
        }
        sim::YieldPoint(40);
        return o->Write(p, n);
    }
    if (sim::InFiber()) {
        auto i = Real.find(fd);
        if (i != Real.end()) {
            int e = FsHook('w', i->second.path, n);
            if (e > 0) {
                errno = e;
                return -1;
            }
            if (e < 0 && (size_t)(-e - 1) < n)
                n = -e - 1;
        }
    }
    return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const iovec* v, int c)
{
    sim::Whole whole;
    ssize_t total = 0;
    for (int i = 0; i < c; ++i) {
        if (!v[i].iov_len)
            continue;
        auto r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0)
            return total ? total : r;
        total += r;
        if ((size_t)r < v[i].iov_len)
            break;
    }
    return total;
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
    sim::Whole whole;
    va_list a;
    va_start(a, req);
    void* arg = va_arg(a, void*);
    va_end(a);
    if (fd >= FD0 && fd < FDN) {
        auto o = GetShared(fd);
        if (!o) {
            errno = EBADF;
            return -1;
        }
        if (req == FIONREAD) {
            int r = o->Available();
            if (r < 0)
                return -1;
            *(int*)arg = r;
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    return (int)syscall(SYS_ioctl, fd, req, arg);
}
int fcntl(int fd, int cmd, ...)
{
    sim::Whole whole;
    va_list a;
    va_start(a, cmd);
    long arg = va_arg(a, long);
    va_end(a);
    if (auto o = Get(fd)) {
        if (cmd == F_GETFL)
            return o->flags;
        if (cmd == F_SETFL)
            o->flags = (int)arg;
        return 0;
    }
    return (int)syscall(SYS_fcntl, fd, cmd, arg);
}
int tcgetattr(int fd, termios* t) noexcept
{
    sim::Whole whole;
    auto o = dynamic_cast<Tty*>(Get(fd));
    if (!o) {
        errno = EBADF;
        return -1;
    }
    return o->GetAttr(t);
}
int tcsetattr(int fd, int, const termios* t) noexcept
{
    sim::Whole whole;
    auto o = dynamic_cast<Tty*>(Get(fd));
    if (!o) {
        errno = EBADF;
        return -1;
    }
    return o->SetAttr(t);
}
int tcflush(int fd, int q) noexcept
{
    sim::Whole whole;
    auto o = dynamic_cast<Tty*>(Get(fd));
    if (!o) {
        errno = EBADF;
        return -1;
    }
    return o->Flush(q);
}
int select(int nfds, fd_set* r, fd_set* w, fd_set*, timeval* tv)
{
    sim::Whole whole;
    ns_t deadline = tv ? sim::Now() + (ns_t)tv->tv_sec * sim::SEC + (ns_t)tv->tv_usec * 1000 : sim::NEVER;
    std::shared_ptr<FdObj> o;
    int which = -1;
    bool wantW = false;
    if (nfds == 0 && sim::InFiber())
        world::Alarm("select_bad_fd", "select() is called for a descriptor that is not open (FD_SET(-1) writes outside the set, a hardened build aborts)");
    for (int i = FD0; i < nfds && i < FDN; ++i) {
        if (r && FD_ISSET(i, r))
            which = i;
        else if (w && FD_ISSET(i, w)) {
            which = i;
            wantW = true;
        }
    }
    sim::YieldPoint(40);
    if (which >= 0) {
        o = GetShared(which);
        if (!o) {
            errno = EBADF;
            return -1;
        }
    }
    if (EintrNow()) {
        errno = EINTR;
        return -1;
    }
    while (true) {
        if (o && (wantW ? o->Writable() : o->Readable())) {
            if (r && wantW)
                FD_ZERO(r);
            return 1;
        }
        ns_t d = deadline;
        if (o && !wantW)
            d = std::min(d, o->NextReadable());
        if (sim::Now() >= deadline)
            break;
        sim::BlockOn(o ? (void*)o.get() : (void*)&SleepKey, d);
    }
    if (r)
        FD_ZERO(r);
    if (w)
        FD_ZERO(w);
    return 0;
}
int poll(pollfd* f, nfds_t n, int ms)
{
    sim::Whole whole;
    if (n != 1 || f->fd < FD0 || f->fd >= FDN)
        return (int)syscall(SYS_poll, f, n, ms);
    auto o = GetShared(f->fd);
    if (!o) {
        f->revents = POLLNVAL;
        return 1;
    }
    ns_t deadline = ms < 0 ? sim::NEVER : sim::Now() + (ns_t)ms * sim::MS;
    sim::YieldPoint(40);
    f->revents = 0;
    while (true) {
        if (o->Readable()) {
            f->revents = POLLIN;
            return 1;
        }
        if (sim::Now() >= deadline)
            return 0;
        sim::BlockOn(o.get(), std::min(deadline, o->NextReadable()));
    }
}
int socket(int, int, int) noexcept
{
    sim::Whole whole;
    auto s = NewSock();
    if (!s)
        return -1;
    return Alloc(s);
}
int connect(int fd, const sockaddr* a, socklen_t)
{
    sim::Whole whole;
    auto s = dynamic_cast<Sock*>(Get(fd));
    if (!s) {
        errno = EBADF;
        return -1;
    }
    auto in = (const sockaddr_in*)a;
    char b[64];
    inet_ntop(AF_INET, &in->sin_addr, b, sizeof(b));
    sim::YieldPoint(40);
    return s->Connect(b, ntohs(in->sin_port));
}
int getsockopt(int fd, int, int opt, void* v, socklen_t* l) noexcept
{
    sim::Whole whole;
    auto s = dynamic_cast<Sock*>(Get(fd));
    if (!s) {
        errno = EBADF;
        return -1;
    }
    *(int*)v = opt == SO_ERROR ? s->SoError() : 0;
    *l = sizeof(int);
    return 0;
}
int setsockopt(int fd, int, int, const void*, socklen_t) noexcept
{
    sim::Whole whole;
    if (!Get(fd)) {
        errno = EBADF;
        return -1;
    }
    return 0;
}
int getaddrinfo(const char* host, const char* port, const addrinfo*, addrinfo** res)
{
    sim::Whole whole;
    sim::YieldPoint(40);
    if (int rc = Resolve(host))
        return rc;
    struct R
    {
        addrinfo ai;
        sockaddr_in sa;
    };
    auto r = new R();
    memset(r, 0, sizeof(R));
    r->sa.sin_family = AF_INET;
    r->sa.sin_port = htons(atoi(port));
    inet_pton(AF_INET, host, &r->sa.sin_addr);
    r->ai.ai_family = AF_INET;
    r->ai.ai_socktype = SOCK_STREAM;
    r->ai.ai_addr = (sockaddr*)&r->sa;
    r->ai.ai_addrlen = sizeof(r->sa);
    *res = &r->ai;
    return 0;
}
void freeaddrinfo(addrinfo* a) noexcept
{
    sim::Whole whole;
    ::operator delete(a);
}
int inotify_init(void) noexcept
{
    sim::Whole whole;
    auto i = std::make_shared<Inotify>();
    Watchers.push_back(i.get());
    return Alloc(i);
}
int inotify_add_watch(int fd, const char* p, uint32_t) noexcept
{
    sim::Whole whole;
    auto i = dynamic_cast<Inotify*>(Get(fd));
    if (!i) {
        errno = EBADF;
        return -1;
    }
    auto s = MapPath(p);
    struct stat st;
    if (syscall(SYS_stat, s.c_str(), &st) < 0) {
        errno = ENOENT;
        return -1;
    }
    i->Wd[i->Next] = s;
    return i->Next++;
}
int inotify_rm_watch(int fd, int wd) noexcept
{
    sim::Whole whole;
    auto i = dynamic_cast<Inotify*>(Get(fd));
    if (!i) {
        errno = EBADF;
        return -1;
    }
    i->Wd.erase(wd);
    return 0;
}

// =====================================================================================
// paths
// =====================================================================================
#define MAP(p) MapPath(p)
int stat(const char* p, struct stat* s) noexcept
{
    sim::Whole whole;
    return (int)syscall(SYS_stat, MAP(p).c_str(), s);
}
int lstat(const char* p, struct stat* s) noexcept
{
    sim::Whole whole;
    return (int)syscall(SYS_lstat, MAP(p).c_str(), s);
}
int access(const char* p, int m) noexcept
{
    sim::Whole whole;
    return (int)syscall(SYS_access, MAP(p).c_str(), m);
}
int mkdir(const char* p, mode_t m) noexcept
{
    sim::Whole whole;
    return (int)syscall(SYS_mkdir, MAP(p).c_str(), m);
}
int rename(const char* a, const char* b) noexcept
{
    sim::Whole whole;
    auto x = MAP(a), y = MAP(b);
    if (sim::InFiber() && Under(y)) {
        if (int e = FsHook('r', y, 0)) {
            errno = e;
            return -1;
        }
    }
    int rc = (int)syscall(SYS_rename, x.c_str(), y.c_str());
    if (!rc && sim::InFiber()) {
        InotifyEvent(x, IN_MOVED_FROM);
        InotifyEvent(y, IN_MOVED_TO);
        sim::YieldPoint(60);
    }
    return rc;
}
static int Unlinked(const std::string& x, int rc)
{
    sim::Whole whole;
    if (!rc && sim::InFiber()) {
        InotifyEvent(x, IN_DELETE);
        sim::YieldPoint(60);
    }
    return rc;
}
int unlink(const char* p) noexcept
{
    sim::Whole whole;
    auto x = MAP(p);
    if (sim::InFiber() && Under(x)) {
        if (int e = FsHook('u', x, 0)) {
            errno = e;
            return -1;
        }
    }
    return Unlinked(x, (int)syscall(SYS_unlink, x.c_str()));
}
int remove(const char* p) noexcept
{
    sim::Whole whole;
    auto x = MAP(p);
    if (sim::InFiber() && Under(x)) {
        if (int e = FsHook('u', x, 0)) {
            errno = e;
            return -1;
        }
    }
    int rc = (int)syscall(SYS_unlink, x.c_str());
    if (rc && errno == EISDIR)
        return (int)syscall(SYS_rmdir, x.c_str());
    return Unlinked(x, rc);
}
ssize_t readlink(const char* p, char* b, size_t n) noexcept
{
    sim::Whole whole;
    return syscall(SYS_readlink, MAP(p).c_str(), b, n);
}

// directory listings in a fixed order
struct SimDir
{
    std::vector<dirent> e;
    size_t i = 0;
    int fd = -1;
};
static DIR* FillDir(int fd)
{
    sim::Whole whole;
    auto d = new SimDir;
    d->fd = fd;
    char buf[16384];
    long n;
    while ((n = syscall(SYS_getdents64, fd, buf, sizeof(buf))) > 0) {
        for (long o = 0; o < n;) {
            struct L
            {
                uint64_t ino;
                int64_t off;
                unsigned short len;
                unsigned char type;
                char name[1];
            }* l = (L*)(buf + o);
            dirent x;
            memset(&x, 0, sizeof(x));
            x.d_ino = 1;
            x.d_type = l->type;
            x.d_reclen = sizeof(x);
            strncpy(x.d_name, l->name, sizeof(x.d_name) - 1);
            d->e.push_back(x);
            o += l->len;
        }
    }
    std::sort(d->e.begin(), d->e.end(), [](const dirent& a, const dirent& b) { return strcmp(a.d_name, b.d_name) < 0; });
    return (DIR*)d;
}
DIR* opendir(const char* p)
{
    sim::Whole whole;
    int fd = OpenAny(AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
    if (fd < 0)
        return nullptr;
    return FillDir(fd);
}
DIR* fdopendir(int fd)
{
    sim::Whole whole;
    return FillDir(fd);
}
struct dirent* readdir(DIR* d)
{
    sim::Whole whole;
    auto s = (SimDir*)d;
    if (s->i >= s->e.size())
        return nullptr;
    return &s->e[s->i++];
}
struct dirent64* readdir64(DIR* d)
{
    sim::Whole whole;
    return (struct dirent64*)readdir(d);
}
int closedir(DIR* d)
{
    sim::Whole whole;
    auto s = (SimDir*)d;
    close(s->fd);
    delete s;
    return 0;
}
int dirfd(DIR* d) noexcept
{
    sim::Whole whole;
    return ((SimDir*)d)->fd;
}

// =====================================================================================
// libcurl
// =====================================================================================
struct SimCurl
{
    std::string url;
    size_t (*wr)(void*, size_t, size_t, void*) = nullptr;
    void* data = nullptr;
    long status = 0;
    long timeout = 0;
};
int curl_global_init(long)
{
    sim::Whole whole;
    return 0;
}
void curl_global_cleanup(void)
{}
void* curl_easy_init(void)
{
    sim::Whole whole;
    return new SimCurl;
}
void curl_easy_cleanup(void* c)
{
    sim::Whole whole;
    delete (SimCurl*)c;
}
int curl_easy_setopt(void* c, int opt, ...)
{
    sim::Whole whole;
    auto s = (SimCurl*)c;
    va_list a;
    va_start(a, opt);
    switch (opt) {
        case 10002:
            s->url = va_arg(a, const char*);
            break;
        case 20011:
            s->wr = va_arg(a, size_t(*)(void*, size_t, size_t, void*));
            break;
        case 10001:
            s->data = va_arg(a, void*);
            break;
        case 13:
            s->timeout = va_arg(a, long);
            break;
        default:
            break;
    }
    va_end(a);
    return 0;
}
int curl_easy_perform(void* c)
{
    sim::Whole whole;
    auto s = (SimCurl*)c;
    auto r = Http(s->url);
    ns_t d = r.delay;
    int code = r.curlCode;
    if (s->timeout && d > s->timeout * sim::SEC) {
        d = s->timeout * sim::SEC;
        code = 28;
    }
    sim::BlockOn(&SleepKey, sim::Now() + d);
    s->status = r.status;
    if (s->wr && (!code || !r.body.empty())) {
        // in pieces; a failed transfer may deliver a part
        size_t n = code ? r.body.size() / 2 : r.body.size();
        for (size_t i = 0; i < n; i += 1000)
            s->wr(&r.body[i], 1, std::min<size_t>(1000, n - i), s->data);
    }
    return code;
}
const char* curl_easy_strerror(int c)
{
    sim::Whole whole;
    return c == 28 ? "Timeout was reached" : c == 7 ? "Couldn't connect to server" : c == 6 ? "Couldn't resolve host name" : "Error";
}
int curl_easy_getinfo(void* c, int info, ...)
{
    sim::Whole whole;
    va_list a;
    va_start(a, info);
    *va_arg(a, long*) = ((SimCurl*)c)->status;
    va_end(a);
    return 0;
}
}
