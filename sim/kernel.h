// Deterministic simulation kernel: fibers instead of threads, virtual time instead of clocks,
// a seeded scheduler instead of the OS one. Linked into the same executable as the daemon; see interpose.cpp.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
    using ns_t = int64_t;
    constexpr ns_t US = 1000, MS = 1000000, SEC = 1000000000LL;
    constexpr ns_t NEVER = INT64_MAX;

    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1): s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567)
        {
            next();
            next();
        }
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n)
        {
            return n ? next() % n : 0;
        }
        int64_t range(int64_t a, int64_t b)
        {
            return a + (int64_t)below((uint64_t)(b - a + 1));
        }
        bool chance(double p)
        {
            return (next() >> 11) * (1.0 / 9007199254740992.0) < p;
        }
        double unit()
        {
            return (next() >> 11) * (1.0 / 9007199254740992.0);
        }
        template<class T> const T& pick(const std::vector<T>& v)
        {
            return v[below(v.size())];
        }
    };

    struct SchedCfg
    {
        uint64_t seed = 1;
        int policy = 1;         // 0: run to block, FIFO; 1: random pick with random preemption; 2: priorities with change points
        int preemptMean = 2000; // mean number of instrumented points between preemptions (0: never)
        double stallProb = 0;   // chance that a preempted fiber is also put to sleep
        ns_t stallMax = 0;
        double spuriousProb = 0; // chance of a spurious condition variable wakeup per wait
        ns_t clockCost = 1500;   // virtual time consumed per clock read
    };

    struct Stats
    {
        uint64_t switches = 0, preemptions = 0, stalls = 0, spurious = 0, events = 0, steps = 0, clockReads = 0;
        uint64_t schedHash = 0xcbf29ce484222325ULL;
        uint64_t traceHash = 0xcbf29ce484222325ULL;
        int maxFibers = 0;
    };
    extern Stats stats;

    ns_t Now();
    void Mix(uint64_t v);            // adds to the trace hash
    void MixStr(const std::string&);
    bool InFiber();
    int CurFiberId();
    const char* CurFiberName();

    // Events: callbacks on the scheduler stack. Must not block.
    void At(ns_t t, std::function<void()> fn);
    inline void After(ns_t d, std::function<void()> fn)
    {
        At(Now() + d, std::move(fn));
    }

    // Fiber context only
    bool BlockOn(const void* obj, ns_t deadline); // true: woken, false: deadline passed
    void WakeAll(const void* obj);
    void WakeOne(const void* obj);
    void YieldPoint(int weight = 1); // may preempt
    void SleepFor(ns_t d);
    void Spawn(const std::string& name, std::function<void()> fn);

    // Runs until `stop` returns true or nothing can run any more. Returns: 0 stopped, 1 deadlock, 2 step limit
    int Run(const SchedCfg& cfg, std::function<bool()> stop);
    [[noreturn]] void EndRun(int code); // ends Run() immediately from a fiber (process death)
    void SetStalls(double prob, ns_t max);
    void SetSpurious(double prob);
    std::string DescribeFibers();

    // used by interpose.cpp
    struct Fiber;
    Fiber* Cur();
    Fiber* CreateThread(void* (*fn)(void*), void* arg);
    bool JoinThread(Fiber* f, void** ret);
    void DetachThread(Fiber* f);
    void ClockTick();
    void Spend(ns_t d); // of processor time
    void ArenaReset();
    // While one exists, the thread is not preempted at the instrumented points: the simulator shares instances of
    // templates and a few classes with the code under test. It may still block or pass a YieldPoint.
    struct Whole
    {
        Whole();
        ~Whole();
        Whole(const Whole&) = delete;

    private:
        Fiber* F;
    };
    struct Loose // suspends the Wholes of the thread
    {
        Loose();
        ~Loose();
        Loose(const Loose&) = delete;

    private:
        Fiber* F;
        int N;
    };
    double SpuriousProb();
    Rng& SchedRng();
}
