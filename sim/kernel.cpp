#include <dlfcn.h>
#include <cxxabi.h>
#include "kernel.h"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <queue>
#include <sys/mman.h>
#include <unistd.h>

#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif
extern "C" void sim_switch(void** saveSp, void* newSp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

namespace sim
{
    Stats stats;

    struct EhGlobals
    {
        void* caught;
        unsigned uncaught;
    };
    enum State
    {
        READY,
        BLOCKED,
        DEAD
    };
    struct Fiber
    {
        int id;
        std::string name;
        void* sp = nullptr;
        char* stack = nullptr;
        void* fake = nullptr;
        State state = READY;
        const void* waitObj = nullptr;
        uint64_t gen = 0;
        bool timedOut = false;
        int savedErrno = 0;
        EhGlobals eh{nullptr, 0};
        void* (*fn)(void*) = nullptr;
        void* arg = nullptr;
        std::function<void()> body;
        void* ret = nullptr;
        bool detached = false, joined = false;
        int prio = 0;
        int whole = 0;
    };

    // The address sanitizer has to be told about the stacks
#ifdef __SANITIZE_ADDRESS__
    static const void* SchedStack = nullptr;
    static size_t SchedStackSize = 0;
    static void* SchedFake = nullptr;
    static void Leave(void** fake, const void* stack, size_t size)
    {
        __sanitizer_start_switch_fiber(fake, stack, size);
    }
    static void Arrive(void* fake, const void** stack, size_t* size)
    {
        __sanitizer_finish_switch_fiber(fake, stack, size);
    }
#else
    static const void* SchedStack = nullptr;
    static size_t SchedStackSize = 0;
    static void* SchedFake = nullptr;
    static void Leave(void**, const void*, size_t)
    {}
    static void Arrive(void*, const void**, size_t*)
    {}
#endif
    namespace
    {
        constexpr size_t STACK = 1 << 20;
        char* const STACK_BASE = (char*)0x300000000000ULL;
        std::vector<char*> FreeStacks;
        size_t StacksMade = 0;

        ns_t NowNs = 1000 * SEC; // steady clock does not start at zero
        Rng R(1);
        SchedCfg Cfg;
        std::vector<Fiber*> All;
        std::vector<Fiber*> Ready;
        Fiber* Current = nullptr;
        void* SchedSp = nullptr;
        EhGlobals SchedEh{nullptr, 0};
        int NextId = 1;
        int64_t Budget = INT64_MAX;
        bool Ended = false;
        int EndCode = 0;
        uint64_t StepsAtTime = 0;
        ns_t LastAdvance = 0;

        struct Ev
        {
            ns_t t;
            uint64_t seq;
            Fiber* f;
            uint64_t gen;
            std::function<void()> fn;
        };
        struct EvCmp
        {
            bool operator()(const Ev* a, const Ev* b) const
            {
                return a->t != b->t ? a->t > b->t : a->seq > b->seq;
            }
        };
        std::priority_queue<Ev*, std::vector<Ev*>, EvCmp> Events;
        uint64_t EvSeq = 0;
        const ns_t SLICE = 20 * MS; // no thread keeps the processor for longer
        ns_t SliceEnd = 0;

        EhGlobals* Eh()
        {
            return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
        }
        void SHash(uint64_t v)
        {
            stats.schedHash = (stats.schedHash ^ v) * 0x100000001b3ULL;
            stats.schedHash ^= stats.schedHash >> 29;
        }
        void NewBudget()
        {
            if (Cfg.preemptMean <= 0) {
                Budget = INT64_MAX;
                return;
            }
            // geometric-like with heavy tail
            double u = R.unit();
            Budget = 1 + (int64_t)(Cfg.preemptMean * (u < 0.5 ? u : u / (1.02 - u)));
            if (Budget < 1)
                Budget = 1;
        }
        void SwitchToSched()
        {
            Fiber* f = Current;
            f->savedErrno = errno;
            f->eh = *Eh();
            *Eh() = SchedEh;
            Current = nullptr;
            Leave(&f->fake, SchedStack, SchedStackSize);
            sim_switch(&f->sp, SchedSp);
            Arrive(f->fake, &SchedStack, &SchedStackSize);
            // resumed
            errno = f->savedErrno;
        }
        void Resume(Fiber* f)
        {
            ++stats.switches;
            SHash(f->id);
            SchedEh = *Eh();
            *Eh() = f->eh;
            Current = f;
            NewBudget();
            SliceEnd = NowNs + SLICE;
            Leave(&SchedFake, f->stack, STACK);
            sim_switch(&SchedSp, f->sp);
            Arrive(SchedFake, nullptr, nullptr);
        }
        void FiberMain()
        {
            Arrive(nullptr, &SchedStack, &SchedStackSize);
            Fiber* f = Current;
            if (f->fn)
                f->ret = f->fn(f->arg);
            else
                f->body();
            f = Current;
            f->state = DEAD;
            f->body = nullptr;
            WakeAll(f);
            *Eh() = SchedEh;
            Current = nullptr;
            void* dummy;
            Leave(nullptr, SchedStack, SchedStackSize);
            sim_switch(&dummy, SchedSp);
            abort();
        }
        Fiber* NewFiber(const std::string& name)
        {
            auto f = new Fiber;
            f->id = NextId++;
            f->name = name;
            if (!FreeStacks.empty()) {
                f->stack = FreeStacks.back();
                FreeStacks.pop_back();
            } else {
                char* want = STACK_BASE + StacksMade * (STACK + 65536);
                auto p = (char*)mmap(want, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
                if (p == MAP_FAILED) {
                    perror("sim: stack mmap");
                    _exit(99);
                }
                ++StacksMade;
                f->stack = p;
            }
#ifdef __SANITIZE_ADDRESS__
            ASAN_UNPOISON_MEMORY_REGION(f->stack, STACK);
#endif
            uint64_t* top = (uint64_t*)(f->stack + STACK - 64);
            *--top = 0; // end of stack for the unwinder
            *--top = (uint64_t)&FiberMain;
            for (int i = 0; i < 6; ++i)
                *--top = 0;
            --top;
            uint32_t* cw = (uint32_t*)top;
            cw[0] = 0x1f80;
            cw[1] = 0x037f;
            f->sp = top;
            f->prio = (int)R.below(1000);
            All.push_back(f);
            Ready.push_back(f);
            int live = 0;
            for (auto x: All)
                live += x->state != DEAD;
            if (live > stats.maxFibers)
                stats.maxFibers = live;
            return f;
        }
        void MakeReady(Fiber* f)
        {
            f->state = READY;
            f->waitObj = nullptr;
            ++f->gen;
            Ready.push_back(f);
        }
        void Reap(Fiber* f)
        {
            if (f->stack) {
                FreeStacks.push_back(f->stack);
                f->stack = nullptr;
            }
        }
    }

    ns_t Now()
    {
        return NowNs;
    }
    void Mix(uint64_t v)
    {
        stats.traceHash = (stats.traceHash ^ v) * 0x100000001b3ULL;
        stats.traceHash ^= stats.traceHash >> 31;
    }
    void MixStr(const std::string& s)
    {
        for (unsigned char c: s)
            Mix(c);
    }
    bool InFiber()
    {
        return Current != nullptr;
    }
    Fiber* Cur()
    {
        return Current;
    }
    int CurFiberId()
    {
        return Current ? Current->id : 0;
    }
    const char* CurFiberName()
    {
        return Current ? Current->name.c_str() : "-";
    }
    void At(ns_t t, std::function<void()> fn)
    {
        if (t < NowNs)
            t = NowNs;
        Events.push(new Ev{t, EvSeq++, nullptr, 0, std::move(fn)});
    }
    bool BlockOn(const void* obj, ns_t deadline)
    {
        Fiber* f = Current;
        if (!f)
            return true; // before the simulation starts there is only one thread
        if (deadline <= NowNs) {
            // still a scheduling point
            f->timedOut = true;
            Ready.push_back(f);
            f->state = READY;
            SwitchToSched();
            return false;
        }
        f->state = BLOCKED;
        f->waitObj = obj;
        f->timedOut = false;
        uint64_t g = ++f->gen;
        if (deadline != NEVER)
            Events.push(new Ev{deadline, EvSeq++, f, g, nullptr});
        SwitchToSched();
        return !f->timedOut;
    }
    void WakeAll(const void* obj)
    {
        for (size_t i = 0; i < All.size(); ++i) {
            auto f = All[i];
            if (f->state == BLOCKED && f->waitObj == obj)
                MakeReady(f);
        }
    }
    void WakeOne(const void* obj)
    {
        Fiber* c[64];
        size_t n = 0;
        for (auto f: All)
            if (f->state == BLOCKED && f->waitObj == obj && n < 64)
                c[n++] = f;
        if (n)
            MakeReady(c[n == 1 ? 0 : R.below(n)]);
    }
    static void Lowest(Fiber* f)
    {
        for (auto x: All)
            if (x != f && x->state != DEAD)
                f->prio = std::min(f->prio, x->prio - 1);
    }
    static void Preempt()
    {
        Fiber* f = Current;
        ++stats.preemptions;
        SHash(0x5000 + f->id);
        if (Cfg.stallProb > 0 && Cfg.stallMax > 0 && R.chance(Cfg.stallProb)) {
            ++stats.stalls;
            BlockOn(f, NowNs + 1 + (ns_t)R.below(Cfg.stallMax));
            return;
        }
        if (Cfg.policy == 2)
            Lowest(f); // change point
        Ready.push_back(f);
        SwitchToSched();
    }
    void YieldPoint(int weight)
    {
        if (!Current)
            return;
        Budget -= weight;
        if (Budget <= 0)
            Preempt();
        else if (NowNs > SliceEnd) {
            if (Cfg.policy == 2)
                Lowest(Current);
            Ready.push_back(Current);
            SwitchToSched();
        }
    }
    void SleepFor(ns_t d)
    {
        static char key;
        BlockOn(&key + 0, d <= 0 ? NowNs : NowNs + d);
    }
    void Spawn(const std::string& name, std::function<void()> fn)
    {
        auto f = NewFiber(name);
        f->detached = true;
        f->body = std::move(fn);
    }
    Fiber* CreateThread(void* (*fn)(void*), void* arg)
    {
        auto f = NewFiber("thread");
        f->fn = fn;
        f->arg = arg;
        f->name = "thread" + std::to_string(f->id);
        return f;
    }
    bool JoinThread(Fiber* f, void** ret)
    {
        while (f->state != DEAD)
            BlockOn(f, NEVER);
        if (ret)
            *ret = f->ret;
        f->joined = true;
        return true;
    }
    void DetachThread(Fiber* f)
    {
        f->detached = true;
    }
    void ClockTick()
    {
        if (Current) {
            ++stats.clockReads;
            NowNs += Cfg.clockCost;
        }
    }
    void Spend(ns_t d)
    {
        if (Current)
            NowNs += d;
    }
    Whole::Whole(): F(Current)
    {
        if (F)
            ++F->whole;
    }
    Whole::~Whole()
    {
        if (F)
            --F->whole;
    }
    Loose::Loose(): F(Current), N(F ? F->whole : 0)
    {
        if (F)
            F->whole = 0;
    }
    Loose::~Loose()
    {
        if (F)
            F->whole = N;
    }
    void EndRun(int code)
    {
        Ended = true;
        EndCode = code;
        if (Current) {
            Current->state = DEAD;
            SwitchToSched();
        }
        abort();
    }
    void SetStalls(double p, ns_t m)
    {
        Cfg.stallProb = p;
        Cfg.stallMax = m;
    }
    void SetSpurious(double p)
    {
        Cfg.spuriousProb = p;
    }
    double SpuriousProb()
    {
        return Cfg.spuriousProb;
    }
    Rng& SchedRng()
    {
        return R;
    }
    // What is probably on the stack of a fiber: every word that points into a function of the daemon
    static std::string Where(Fiber* f)
    {
        std::string r;
        if (f == Current || !f->sp || !f->stack)
            return r;
        std::string last;
        int n = 0;
        for (auto p = (void**)f->sp; (char*)p < f->stack + STACK && n < 6; ++p) {
            Dl_info i;
            if (!*p || !dladdr(*p, &i) || !i.dli_sname)
                continue;
            int st = 0;
            char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
            std::string nm = d ? d : i.dli_sname;
            free(d);
            if (nm.find("sim::") != std::string::npos || nm.substr(0, 5) == "std::" || nm.find("vtable") != std::string::npos || nm[0] == '_' || nm == last ||
                nm.find('(') == std::string::npos)
                continue;
            last = nm;
            nm = nm.substr(0, nm.find('('));
            r += (n++ ? "<" : "[") + nm;
        }
        return n ? r + "]" : r;
    }
    std::string DescribeFibers()
    {
        std::string r;
        for (auto f: All)
            if (f->state != DEAD)
                r += f->name + (f->state == READY ? ":ready" : ":blocked") + Where(f) + " ";
        return r;
    }
    int Run(const SchedCfg& cfg, std::function<bool()> stop)
    {
        Cfg = cfg;
        R = Rng(cfg.seed ^ 0xC0FFEE);
        LastAdvance = NowNs;
        for (auto f: All)
            f->prio = (int)R.below(1000);
        while (true) {
            if (Ended)
                return EndCode ? EndCode : 3;
            if (stop())
                return 0;
            // due events first
            while (!Events.empty() && Events.top()->t <= NowNs) {
                auto e = Events.top();
                Events.pop();
                ++stats.events;
                if (e->f) {
                    if (e->f->state == BLOCKED && e->f->gen == e->gen) {
                        e->f->timedOut = true;
                        MakeReady(e->f);
                    }
                } else {
                    e->fn();
                }
                delete e;
            }
            if (!Ready.empty()) {
                size_t i = 0;
                if (Ready.size() > 1) {
                    if (Cfg.policy == 1)
                        i = R.below(Ready.size());
                    else if (Cfg.policy == 2) {
                        for (size_t k = 1; k < Ready.size(); ++k)
                            if (Ready[k]->prio > Ready[i]->prio)
                                i = k;
                    }
                }
                auto f = Ready[i];
                Ready.erase(Ready.begin() + i);
                ++stats.steps;
                Resume(f);
                if (f->state == DEAD)
                    Reap(f);
                if (NowNs - LastAdvance < MS) {
                    if (++StepsAtTime > 400000)
                        return 2;
                } else {
                    StepsAtTime = 0;
                    LastAdvance = NowNs;
                }
                continue;
            }
            if (Events.empty())
                return 1;
            NowNs = std::max(NowNs, Events.top()->t);
            StepsAtTime = 0;
            LastAdvance = NowNs;
        }
    }
}

// ------------------------------------------------------------------------------------------
// Instrumented points of the code under test
// ------------------------------------------------------------------------------------------
extern "C" {
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*, void*)
{
    if (sim::Current && !sim::Current->whole && --sim::Budget <= 0)
        sim::Preempt();
}
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*)
{
    if (sim::Current && !sim::Current->whole && --sim::Budget <= 0)
        sim::Preempt();
}
}

// ------------------------------------------------------------------------------------------
// Heap: fixed addresses (so that pointer order and pointer hashes repeat), poisoned on free,
// freed blocks are reused late.
// ------------------------------------------------------------------------------------------
namespace
{
    struct Hdr
    {
        uint32_t cls;
        uint32_t magic;
        uint64_t size;
    };
    struct Node
    {
        Node* next;
    };
    constexpr size_t ARENA = 4ULL << 30;
    char* const ABASE = (char*)0x200000000000ULL;
    char* Bump = nullptr;
    char* Low = nullptr;
    constexpr int NCLS = 96;
    Node *FreeHead[NCLS], *FreeTail[NCLS];
    uint32_t FreeCount[NCLS];

    int ClassOf(size_t n, size_t& rounded)
    {
        if (n <= 1024) {
            int c = (int)((n + 15) / 16);
            if (!c)
                c = 1;
            rounded = c * 16;
            return c; // 1..64
        }
        int c = 65;
        size_t s = 2048;
        while (s < n) {
            s <<= 1;
            ++c;
        }
        rounded = s;
        return c;
    }
#ifdef __SANITIZE_ADDRESS__
#define NOSAN __attribute__((no_sanitize("address")))
    // bytes behind a block, its header and freed blocks must not be touched
    void Usable(char* p, size_t n, size_t r)
    {
        ASAN_UNPOISON_MEMORY_REGION(p, n);
        ASAN_POISON_MEMORY_REGION(p + n, r + sizeof(Hdr) - n);
    }
    void Gone(char* p, size_t n)
    {
        ASAN_POISON_MEMORY_REGION(p, n);
    }
#else
#define NOSAN
    void Usable(char*, size_t, size_t)
    {}
    void Gone(char*, size_t)
    {}
#endif
    NOSAN void* Alloc(size_t n)
    {
        if (!Bump) {
            auto p = mmap(ABASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
            if (p == MAP_FAILED)
                _exit(98);
            Bump = Low = ABASE;
        }
        size_t r;
        int c = ClassOf(n, r);
        Hdr* h;
        // keep a quarantine: reuse only when enough blocks of the class have been freed since
        uint32_t keep = c <= 64 ? 256 : (c <= 70 ? 16 : 2);
        if (FreeCount[c] > keep) {
            Node* x = FreeHead[c];
            FreeHead[c] = x->next;
            if (!FreeHead[c])
                FreeTail[c] = nullptr;
            --FreeCount[c];
            h = (Hdr*)((char*)x - sizeof(Hdr));
        } else {
            if (Bump + r + sizeof(Hdr) > ABASE + ARENA)
                _exit(97);
            h = (Hdr*)Bump;
            Bump += r + sizeof(Hdr);
        }
        h->cls = c;
        h->magic = 0xA110C8ED;
        h->size = n;
        Usable((char*)(h + 1), n, r);
        memset(h + 1, 0xCD, n < 4096 ? n : 4096);
        return h + 1;
    }
    NOSAN void Free(void* p)
    {
        if (!p)
            return;
        Hdr* h = (Hdr*)p - 1;
        if (h->magic != 0xA110C8ED) {
            const char m[] = "SIM-HEAP: bad or double free\n";
            if (write(2, m, sizeof(m) - 1) < 0) {
            }
            abort();
        }
        h->magic = 0xDEADF2EE;
        size_t n = h->size;
        memset(p, 0xDB, n < 65536 ? n : 65536);
        if ((char*)p < Low)
            return;
        Node* x = (Node*)p;
        x->next = nullptr;
        int c = h->cls;
        if (FreeTail[c])
            FreeTail[c]->next = x;
        else
            FreeHead[c] = x;
        FreeTail[c] = x;
        ++FreeCount[c];
        Gone((char*)p, n);
    }
}
namespace sim
{
    void ArenaReset()
    {
        Low = Bump = ABASE + (1ULL << 30);
        memset(FreeHead, 0, sizeof(FreeHead));
        memset(FreeTail, 0, sizeof(FreeTail));
        memset(FreeCount, 0, sizeof(FreeCount));
    }
}
void* operator new(size_t n)
{
    return Alloc(n);
}
void* operator new[](size_t n)
{
    return Alloc(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    return Alloc(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    return Alloc(n);
}
void operator delete(void* p) noexcept
{
    Free(p);
}
void operator delete[](void* p) noexcept
{
    Free(p);
}
void operator delete(void* p, size_t) noexcept
{
    Free(p);
}
void operator delete[](void* p, size_t) noexcept
{
    Free(p);
}
