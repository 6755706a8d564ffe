// What the interposed system calls talk to.
#pragma once
#include "kernel.h"
#include <memory>
#include <string>
#include <sys/types.h>
#include <termios.h>
#include <vector>

namespace io
{
    // A simulated descriptor. All calls happen in fiber context.
    struct FdObj
    {
        int flags = 0;
        virtual ~FdObj() = default;
        virtual ssize_t Read(void* p, size_t n) = 0;        // sets errno
        virtual ssize_t Write(const void* p, size_t n) = 0; // sets errno
        virtual int Available()                             // FIONREAD, -1 + errno on error
        {
            return 0;
        }
        virtual bool Readable() = 0;
        virtual bool Writable()
        {
            return true;
        }
        virtual sim::ns_t NextReadable() // known future time when it becomes readable by itself
        {
            return sim::NEVER;
        }
        virtual void OnClose()
        {}
    };
    struct Tty: FdObj
    {
        virtual int GetAttr(termios*) = 0;
        virtual int SetAttr(const termios*) = 0;
        virtual int Flush(int queue) = 0;
    };
    struct Sock: FdObj
    {
        virtual int Connect(const std::string& host, int port) = 0;
        virtual int SoError() = 0;
    };

    constexpr int FD0 = 500, FDN = 900;
    int Alloc(std::shared_ptr<FdObj> o);
    FdObj* Get(int fd);
    std::shared_ptr<FdObj> GetShared(int fd);
    int OpenFds();

    // supplied by the world
    std::shared_ptr<Tty> OpenTty(const std::string& path); // nullptr + errno; called for /dev/ttySIM*
    std::shared_ptr<Sock> NewSock();                       // nullptr + errno
    int Resolve(const std::string& host);                  // getaddrinfo return code
    bool EintrNow();                                       // should this select/poll be interrupted?

    // file system
    extern std::string Root; // scratch directory that stands for /etc and the writable part of the world
    // maps a path the daemon uses to a real one
    std::string MapPath(const char* p);
    // op: 'o' open for reading, 'O' open for writing, 'w' write, 'c' close after write, 'r' rename, 'u' unlink, 's' stat, 'd' directory
    // returns 0, an errno to fail with, or -n-1 for "write only n bytes". May not return (crash point).
    int FsHook(char op, const std::string& path, size_t n);
    void InotifyEvent(const std::string& realPath, uint32_t mask);
    extern int LiveFiles;

    // http
    struct HttpReply
    {
        int curlCode = 0;
        long status = 200;
        std::string body;
        sim::ns_t delay = 0;
    };
    HttpReply Http(const std::string& url);

    extern sim::ns_t WallOffset; // CLOCK_REALTIME = Now() + WallOffset
    void ProcessExit(int code);  // exit() was called by the daemon
}
