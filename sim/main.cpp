// Executes plans: one forked child per run, so that every run starts from the same state.
#include "check.h"
#include <algorithm>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/inotify.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <wblib/all.h>

int WbSerialMain(int argc, char** argv);
namespace world
{
    int FsFault(char op, const std::string& path, size_t n, bool& kill);
}

using namespace sim;
using namespace world;

static std::string RepoDir = "/repo";
static int ResFd = -1;
static std::string ScratchBase;

static std::string JsonStr(const Json::Value& v)
{
    Json::StreamWriterBuilder b;
    b["indentation"] = "";
    return Json::writeString(b, v);
}
static bool ParseJson(const std::string& s, Json::Value& v)
{
    Json::CharReaderBuilder b;
    std::string e;
    std::istringstream is(s);
    return Json::parseFromStream(b, is, &v, &e);
}
static std::string Slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
static void Spit(const std::string& p, const std::string& s)
{
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f << s;
}
static void WriteAll(int fd, const std::string& s)
{
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = syscall(SYS_write, fd, s.data() + o, s.size() - o);
        if (n <= 0)
            return;
        o += n;
    }
}
static void RmTree(const std::string& p)
{
    // only ever called with a directory this process created
    if (p.find("/wbsim.") == std::string::npos)
        return;
    std::string c = "rm -rf '" + p + "'";
    if (system(c.c_str())) {
    }
}

// ------------------------------------------------------------------------------ crash reporting
static char TermWhat[512];
static void OnTerminate()
{
    const char* n = "no exception";
    std::string what;
    if (auto t = abi::__cxa_current_exception_type()) {
        n = t->name();
        try {
            throw;
        } catch (const std::exception& e) {
            what = e.what();
        } catch (...) {
        }
    }
    int st;
    char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    snprintf(TermWhat, sizeof(TermWhat), "%s: %s", d ? d : n, what.c_str());
    abort();
}
static std::string Clean(std::string s)
{
    std::string r;
    for (char c: s)
        r += (c == '"' || c == '\\' || (unsigned char)c < 32 || (unsigned char)c > 126) ? '.' : c;
    return r;
}
#ifdef __SANITIZE_ADDRESS__
extern "C" void __asan_set_error_report_callback(void (*)(const char*));
extern "C" const char* __asan_default_options()
{
    return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:"
           "detect_stack_use_after_return=0:allocator_may_return_null=1:use_sigaltstack=0:quarantine_size_mb=32:symbolize=0:"
           "alloc_dealloc_mismatch=0:check_initialization_order=0";
}
static void OnAsan(const char* report)
{
    std::string r = report;
    auto p = r.find("AddressSanitizer: ");
    if (p != std::string::npos)
        r = r.substr(p, r.find('\n', p) - p);
    // addresses say nothing
    p = r.find(" on address");
    if (p == std::string::npos)
        p = r.find(" on unknown");
    snprintf(TermWhat, sizeof(TermWhat), "%s", r.substr(0, p).c_str());
}
#endif
// not sanitized: before a call that does not return the sanitizer asks for the stack of the thread, which takes a lock
__attribute__((no_sanitize("address"))) static void OnCrash(int sig)
{
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = 20; // the handler itself may hang, on a lock that the interrupted code holds
    setitimer(ITIMER_REAL, &it, nullptr);
    void* bt[40];
    int n = backtrace(bt, 40);
    std::string r = "{\"end\":\"" + std::string(sig == SIGPROF ? "hang" : "crash") + "\",\"sig\":" + std::to_string(sig) +
                    ",\"what\":\"" + Clean(TermWhat) + "\",\"fiber\":\"" + Clean(InFiber() ? CurFiberName() : "scheduler") +
                    "\",\"fns\":[";
    int k = 0;
    for (int i = 0; i < n && k < 16; ++i) {
        Dl_info di;
        if (!dladdr(bt[i], &di) || !di.dli_sname)
            continue;
        int st;
        char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        std::string nm = d ? d : di.dli_sname;
        if (nm.find("OnCrash") != std::string::npos || nm.find("OnTerminate") != std::string::npos)
            continue;
        if (nm.size() > 110)
            nm.resize(110);
        r += (k++ ? ",\"" : "\"") + Clean(nm) + "\"";
    }
    r += "]}";
    WriteAll(ResFd, r);
    _exit(77);
}

// ------------------------------------------------------------------------------ world callbacks
static bool DaemonDone = false;
static int DaemonRc = 0;
static check::Outcome Out;

namespace io
{
    void ProcessExit(int code)
    {
        Out.end = "exit";
        Out.code = code;
        Out.detail = DescribeFibers();
        EndRun(10);
    }
    int FsHook(char op, const std::string& path, size_t n)
    {
        bool kill = false;
        if (path.find(Root) != 0)
            return 0;
        int e = world::FsFault(op, path, n, kill);
        if (op == 'w' || op == 'r' || op == 'u' || op == 'O') {
            H.fs.push_back({Now(), op, path.substr(Root.size()), e});
            Mix(Hash(op, n, e));
        }
        if (kill) {
            Out.end = "killed";
            EndRun(11);
        }
        return e;
    }
}
static std::string Dir; // scratch of this run
static void MkDirs(const std::string& p)
{
    for (size_t i = 1; i <= p.size(); ++i)
        if (i == p.size() || p[i] == '/')
            mkdir(p.substr(0, i).c_str(), 0755);
}
static void PopulateDisk(const Json::Value& plan)
{
    auto share = Dir + "/usr/share/wb-mqtt-serial";
    MkDirs(share + "/templates");
    MkDirs(Dir + "/etc/wb-mqtt-serial.conf.d/templates");
    MkDirs(Dir + "/usr/lib/wb-release-dir");
    MkDirs(Dir + "/var/lib/wb-mqtt-serial");
    for (auto n: {"wb-mqtt-serial.schema.json",
                  "wb-mqtt-serial-device-template.schema.json",
                  "wb-mqtt-serial-rpc-device-load-request.schema.json"})
        (void)n;
    static std::vector<std::pair<std::string, std::string>> schemas;
    if (schemas.empty()) {
        FILE* f = popen(("ls " + RepoDir + "/*.schema.json").c_str(), "r");
        char b[512];
        while (f && fgets(b, sizeof(b), f)) {
            std::string s(b);
            while (!s.empty() && s.back() == '\n')
                s.pop_back();
            schemas.push_back({s.substr(s.rfind('/') + 1), s});
        }
        if (f)
            pclose(f);
    }
    for (auto& s: schemas)
        if (symlink(s.second.c_str(), (share + "/" + s.first).c_str())) {
        }
    if (symlink((RepoDir + "/protocols").c_str(), (share + "/protocols").c_str())) {
    }
    if (symlink((RepoDir + "/groups.json").c_str(), (share + "/groups.json").c_str())) {
    }
    for (const auto& n: plan["templates"].getMemberNames())
        Spit(share + "/templates/" + n,
             plan["templates"][n].isString() ? plan["templates"][n].asString() : JsonStr(plan["templates"][n]));
    for (const auto& n: plan["repoTemplates"])
        if (symlink((RepoDir + "/templates/" + n.asString()).c_str(), (share + "/templates/" + n.asString()).c_str())) {
        }
    for (const auto& n: plan["userTemplates"].getMemberNames())
        Spit(Dir + "/etc/wb-mqtt-serial.conf.d/templates/" + n,
             plan["userTemplates"][n].isString() ? plan["userTemplates"][n].asString()
                                                 : JsonStr(plan["userTemplates"][n]));
    if (plan.isMember("release"))
        Spit(Dir + "/usr/lib/wb-release", plan["release"].asString());
    Spit(Dir + "/etc/wb-mqtt-serial.conf", JsonStr(plan["config"]));
}

// ------------------------------------------------------------------------------ the clients
static ns_t T0;
static void DeviceOp(const Json::Value& o)
{
    auto k = o["k"].asString();
    if (k == "set") {
        std::vector<int> v;
        for (const auto& x: o["v"])
            v.push_back(x.asInt());
        SetMem(*Ports[o["port"].asInt()]->slaves[o["slave"].asInt()], o["s"].asInt(), o["a"].asInt(), v, -1);
    } else if (k == "file") {
        // somebody else (an editor, a package update) changes a file
        auto p = Dir + o["path"].asString();
        if (o["body"].isNull()) {
            unlink(p.c_str());
            io::InotifyEvent(p, IN_DELETE);
        } else {
            Spit(p, o["body"].isString() ? o["body"].asString() : JsonStr(o["body"]));
            io::InotifyEvent(p, IN_CREATE);
            io::InotifyEvent(p, IN_CLOSE_WRITE);
        }
    } else if (k == "term") {
    }
}
static void Client(const Json::Value& plan, int c)
{
    int idx = -1, prev = -1;
    for (const auto& o: plan["ops"]) {
        ++idx;
        if (o["c"].asInt() != c || o["ph"].asInt() != world::Phase)
            continue;
        Whole whole;
        auto k = o["k"].asString();
        if (k != "on" && k != "rpc")
            continue;
        if (o.isMember("after") || (o["turn"].asBool() && prev >= 0)) {
            int want = o.isMember("after") ? o["after"].asInt() : prev;
            ns_t lim = Now() + 120 * SEC;
            while (Now() < lim && std::none_of(H.replies.begin(), H.replies.end(), [&](const Reply& r) { return r.id == want; }))
                SleepFor(5 * MS);
        }
        ns_t t = T0 + (ns_t)(o["t"].asDouble() * MS);
        if (t > Now())
            SleepFor(t - Now());
        // a name is a control's name only once the daemon has announced it; clients of a real broker may be early
        OpRec r{idx, Now(), false, idx};
        size_t at = H.ops.size();
        H.ops.push_back(r);
        Mix(Hash(0x0b, idx));
        auto dev = o["dev"].asString(), ctl = o["ctl"].asString(), val = o["val"].asString(), m = o["method"].asString();
        bool acc;
        {
            Loose loose;
            if (k == "on")
                acc = WBMQTT::TStub::ClientOn(dev, ctl, val);
            else
                acc = WBMQTT::TStub::ClientRpc(m.substr(0, m.find('/')), m.substr(m.find('/') + 1), o["params"], idx);
        }
        H.ops[at].accepted = acc;
        if (k == "rpc" && acc)
            prev = idx;
    }
}
static void Director(const Json::Value& plan)
{
    SleepFor((ns_t)(plan["endMs"].asDouble() * MS));
    H.tActiveEnd = Now();
    if (!plan["faultsStay"].asBool()) {
        FaultsOff();
        SetStalls(0, 0);
        SetSpurious(0);
    }
    SleepFor((ns_t)(plan["quiesceMs"].asDouble() * MS));
    {
        Whole whole;
        check::AtQuiesce(plan);
    }
    H.tQuiesced = Now();
    H.tTerm = Now();
    WBMQTT::TStub::Terminate();
    SleepFor(120 * SEC);
    if (!DaemonDone) {
        Out.end = "no_exit";
        Out.detail = DescribeFibers();
        EndRun(12);
    }
}

static Json::Value ExecChild(const Json::Value& plan, int phase, Json::Value carry)
{
    ArenaReset();
    TermWhat[0] = 0;
    io::Root = Dir;
    T0 = Now();
    world::Phase = phase;
    world::Load(plan);
    if (carry.isMember("world"))
        world::LoadState(carry["world"]);
    io::WallOffset = (plan.isMember("wall") ? plan["wall"].asInt64() : 1700000000LL) * SEC;
    auto& SH = WBMQTT::StubHooks;
    SH.Publish = [](const std::string& t, const std::string& p, bool r) {
        Whole whole;
        H.topics.push_back({Now(), t, p, r});
        MixStr(t);
        MixStr(p);
    };
    SH.Control = [](char w, const std::string& d, const std::string& c, const std::string& v, const std::string& e) {
        Whole whole;
        H.pubs.push_back({Now(), w, d, c, v, e});
        Mix(w);
        MixStr(d);
        MixStr(c);
        MixStr(v);
        MixStr(e);
    };
    SH.RpcReply = [](int id, bool ok, const Json::Value& r, int code, const std::string& m) {
        Whole whole;
        H.replies.push_back({Now(), id, ok, r, code, m, -1});
        Mix(Hash(id, ok, code));
        MixStr(JsonStr(r));
    };
    bool verbose = getenv("SIM_LOG") != nullptr;
    SH.Log = [verbose](const std::string& p, const std::string& m) {
        Whole whole;
        if (H.log.size() < 20000)
            H.log.push_back(std::to_string((Now() - T0) / MS) + " [" + CurFiberName() + "] " + p + m);
        if (verbose)
            std::cerr << H.log.back() << "\n";
        MixStr(m);
    };
    SH.Yield = [] { YieldPoint(20); };
    SH.Signal = [](char c) {
        Whole whole;
        if (c == 'T')
            Alarm("shutdown_timeout", "the signal handlers did not finish in time");
    };
    SchedCfg cfg;
    const auto& sc = plan["sched"];
    cfg.seed = sc["seed"].asUInt64();
    cfg.policy = sc["policy"].asInt();
    cfg.preemptMean = sc["preempt"].asInt();
    cfg.stallProb = sc["stallP"].asDouble();
    cfg.stallMax = sc["stallMs"].asInt() * MS;
    cfg.spuriousProb = sc["spurious"].asDouble();
    if (sc.isMember("clockCost"))
        cfg.clockCost = sc["clockCost"].asInt();

    for (const auto& o: plan["ops"]) {
        auto k = o["k"].asString();
        if (k != "on" && k != "rpc" && o["ph"].asInt() == phase)
            At(T0 + (ns_t)(o["t"].asDouble() * MS), [&o] { DeviceOp(o); });
    }
    Spawn("main", [&] {
        const char* argv[] = {"wb-mqtt-serial", nullptr};
        DaemonRc = WbSerialMain(1, (char**)argv);
        DaemonDone = true;
    });
    std::set<int> clients;
    for (const auto& o: plan["ops"])
        clients.insert(o["c"].asInt());
    for (int c: clients)
        Spawn("client" + std::to_string(c), [&plan, c] { Client(plan, c); });
    Spawn("director", [&] { Director(plan); });
    int rc = Run(cfg, [] { return DaemonDone; });
    H.tEnd = Now();
    if (rc == 1)
        Out.end = "deadlock", Out.detail = DescribeFibers();
    if (rc == 2)
        Out.end = "livelock", Out.detail = DescribeFibers();
    if (DaemonDone) {
        Out.code = DaemonRc;
        if (!H.tTerm && Out.end != "killed") {
            Out.end = "exit";
            Out.code = DaemonRc;
        }
    }
    Json::Value res;
    Json::Value next = carry;
    auto vs = check::Judge(plan, Out, phase, next);
    res["end"] = Out.end;
    res["detail"] = Out.detail;
    res["rc"] = Out.code;
    res["vs"] = Json::Value(Json::arrayValue);
    for (auto& v: vs) {
        Json::Value x;
        x["key"] = v.key;
        x["msg"] = v.msg;
        res["vs"].append(x);
    }
    char hx[40];
    snprintf(hx, sizeof(hx), "%016llx", (unsigned long long)stats.traceHash);
    res["hash"] = hx;
    snprintf(hx, sizeof(hx), "%016llx", (unsigned long long)stats.schedHash);
    res["sched"] = hx;
    res["virtMs"] = (double)((Now() - T0) / MS);
    res["switches"] = (Json::UInt64)stats.switches;
    res["preempt"] = (Json::UInt64)stats.preemptions;
    res["stalls"] = (Json::UInt64)stats.stalls;
    res["spurious"] = (Json::UInt64)stats.spurious;
    for (auto& f: H.faults)
        res["faults"][f.first] = (Json::UInt64)f.second;
    for (auto& f: H.probes)
        res["probes"][f.first] = (Json::UInt64)f.second;
    std::map<std::string, uint64_t> cov;
    check::Coverage(plan, cov);
    for (auto& f: cov)
        res["cov"][f.first] = (Json::UInt64)f.second;
    if (getenv("SIM_DUMP")) {
        std::ofstream o(getenv("SIM_DUMP"));
        auto ms = [](ns_t t) { return (double)(t - T0) / MS; };
        std::multimap<ns_t, std::string> ev;
        for (auto& f: H.frames) {
            std::ostringstream s;
            s << "F" << f.id << " p" << f.port << " u" << f.unit << " fn" << f.fn << " a" << f.addr << " c" << f.count
              << " [" << Hex(f.b) << "] gap " << f.gap / 1000 << "us " << f.line.Str() << " fate=" << f.fate
              << (f.applied ? " applied" : "") << (f.replied ? " replied" : "") << " exc" << f.exc << " rsp [" << Hex(f.rsp)
              << "] " << ms(f.rsp0) << ".." << ms(f.rsp1);
            ev.insert({f.t0, s.str()});
        }
        for (auto& m: H.mem) {
            std::ostringstream s;
            s << "MEM p" << m.port << " s" << m.slave << " sp" << m.space << " a" << m.addr << " " << m.old << "->" << m.val
              << " frame " << m.frame;
            ev.insert({m.t, s.str()});
        }
        for (auto& p: H.pubs)
            ev.insert({p.t, std::string("PUB ") + p.what + " " + p.dev + "/" + p.ctl + " = " + p.val + " err='" + p.err + "'"});
        for (auto& p: H.topics)
            ev.insert({p.t, "TOPIC " + p.topic + " " + p.payload});
        for (auto& r: H.ops)
            ev.insert({r.t, "OP " + JsonStr(plan["ops"][r.idx]) + (r.accepted ? "" : " REFUSED")});
        for (auto& r: H.replies)
            ev.insert({r.t, "REPLY " + std::to_string(r.id) + (r.ok ? " ok " : " ERR ") + JsonStr(r.res) + " " + std::to_string(r.code) + " " + r.msg});
        for (auto& p: H.ports)
            ev.insert({p.t, std::string("PORT ") + std::to_string(p.port) + " " + p.what + " " + p.line.Str()});
        for (auto& p: H.slaves)
            ev.insert({p.t, std::string("SLAVE ") + std::to_string(p.port) + "." + std::to_string(p.slave) + " " + p.what});
        for (auto& p: H.boots)
            ev.insert({p.t, "BOOT " + std::to_string(p.port) + "." + std::to_string(p.slave) + " " + p.what});
        for (auto& p: H.fs)
            ev.insert({p.t, std::string("FS ") + p.op + " " + p.path + " " + std::to_string(p.err)});
        for (auto& p: H.events)
            ev.insert({p.t, "EVENT p" + std::to_string(p.port) + " s" + std::to_string(p.slave) + " type " + std::to_string(p.type) + " id " + std::to_string(p.id) + " val " + std::to_string(p.val) + " frame " + std::to_string(p.frame)});
        ev.insert({H.tActiveEnd, "==== ACTIVE END"});
        ev.insert({H.tTerm, "==== TERM"});
        for (auto& e: ev)
            o << ms(e.first) << " " << e.second << "\n";
        o << "LOG\n";
        for (auto& l: H.log)
            o << l << "\n";
    }
    next["world"] = world::SaveState();
    res["carry"] = next;
    return res;
}

// ------------------------------------------------------------------------------ parent side
static int RunNo = 0;
static Json::Value ExecPhase(const Json::Value& plan, int phase, const Json::Value& carry)
{
    int fd[2];
    if (pipe(fd))
        exit(2);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        ResFd = fd[1];
        for (int s: {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGPIPE}) {
            struct sigaction sa;
            memset(&sa, 0, sizeof(sa));
            sa.sa_handler = s == SIGPIPE ? SIG_DFL : OnCrash;
            sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESETHAND;
            if (s == SIGPIPE)
                sa.sa_flags = 0;
            sigaction(s, &sa, nullptr);
        }
        static char alt[256 * 1024];
        stack_t st;
        memset(&st, 0, sizeof(st));
        st.ss_sp = alt;
        st.ss_size = sizeof(alt);
        sigaltstack(&st, nullptr);
        struct itimerval it;
        memset(&it, 0, sizeof(it));
        it.it_value.tv_sec = 40;
        setitimer(ITIMER_PROF, &it, nullptr);
        std::set_terminate(OnTerminate);
#ifdef __SANITIZE_ADDRESS__
        __asan_set_error_report_callback(OnAsan);
#endif
        {
            void* b[4];
            backtrace(b, 4); // loads libgcc now
        }
        auto r = ExecChild(plan, phase, carry);
        WriteAll(ResFd, JsonStr(r));
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char b[65536];
    while (true) {
        ssize_t n = read(fd[0], b, sizeof(b));
        if (n < 0 && errno == EINTR)
            continue;
        if (n <= 0)
            break;
        s.append(b, n);
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    Json::Value r;
    if (s.empty() || !ParseJson(s, r)) {
        r = Json::Value();
        r["end"] = "lost";
        r["detail"] = "child status " + std::to_string(st);
    }
    return r;
}
static Json::Value Exec(const Json::Value& plan)
{
    Dir = ScratchBase + "/wbsim." + std::to_string(getpid());
    RmTree(Dir);
    MkDirs(Dir);
    PopulateDisk(plan);
    Json::Value carry(Json::objectValue), res;
    int phases = plan.isMember("phases") ? plan["phases"].asInt() : 1;
    for (int p = 0; p < phases; ++p) {
        Json::Value r = ExecPhase(plan, p, carry);
        if (r["end"].asString() == "crash" || r["end"].asString() == "hang") {
            Json::Value v;
            v["key"] = r["end"].asString() == "hang" ? "hang" : "crash";
            std::string m = "the service died: signal " + std::to_string(r["sig"].asInt()) + " " + r["what"].asString() + " in thread " +
                            r["fiber"].asString() + " at";
            for (auto& f: r["fns"])
                m += " <- " + f.asString();
            v["msg"] = m;
            r["vs"].append(v);
            std::string hs = m;
            uint64_t h = 1469598103934665603ULL;
            for (char c: hs)
                h = (h ^ (uint8_t)c) * 1099511628211ULL;
            char hx[40];
            snprintf(hx, sizeof(hx), "%016llx", (unsigned long long)h);
            r["hash"] = hx;
        }
        if (p == 0)
            res = r;
        else {
            for (auto& v: r["vs"])
                res["vs"].append(v);
            res["hash"] = res["hash"].asString() + r["hash"].asString();
            res["virtMs"] = res["virtMs"].asDouble() + r["virtMs"].asDouble();
            for (auto k: {"faults", "probes", "cov"})
                for (auto& n: r[k].getMemberNames())
                    res[k][n] = (Json::UInt64)(res[k][n].asUInt64() + r[k][n].asUInt64());
            if (r["end"].asString() != "ok")
                res["end"] = r["end"];
        }
        carry = r["carry"];
        if (r["end"].asString() == "lost" || r["end"].asString() == "crash" || r["end"].asString() == "hang")
            break;
    }
    res.removeMember("carry");
    RmTree(Dir);
    return res;
}

static double RealNow()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static bool SameFailure(const Json::Value& r, const std::string& key)
{
    for (auto& v: r["vs"])
        if (v["key"].asString() == key)
            return true;
    return false;
}
// Delta debugging over faults, operations and scheduling noise
static Json::Value Minimise(Json::Value plan, const std::string& key, double secs)
{
    auto t0 = RealNow();
    auto ok = [&](const Json::Value& p) {
        if (RealNow() - t0 > secs)
            return false;
        return SameFailure(Exec(p), key);
    };
    for (auto what: {"faults", "ticks", "ops"}) {
        if (!plan.isMember(what))
            continue;
        size_t chunk = std::max<size_t>(1, plan[what].size() / 2);
        while (plan[what].size() && RealNow() - t0 <= secs) {
            bool any = false;
            for (size_t i = 0; i < plan[what].size() && RealNow() - t0 <= secs;) {
                Json::Value p = plan;
                Json::Value keep(Json::arrayValue);
                bool is_ops = std::string(what) == "ops";
                for (size_t k = 0; k < plan[what].size(); ++k) {
                    bool drop = k >= i && k < i + chunk;
                    if (!drop)
                        keep.append(plan[what][(int)k]);
                    else if (is_ops) {
                        // operations keep their numbers: others refer to them
                        Json::Value nop;
                        nop["k"] = "nop";
                        nop["t"] = 0;
                        keep.append(nop);
                    }
                }
                p[what] = keep;
                bool changed = !(keep == plan[what]);
                if (changed && ok(p)) {
                    plan = p;
                    any = true;
                    if (is_ops)
                        i += chunk;
                } else
                    i += chunk;
            }
            if (chunk == 1 && !any)
                break;
            if (chunk == 1 && std::string(what) == "ops")
                break;
            chunk = std::max<size_t>(1, chunk / 2);
        }
    }
    for (auto kv: {std::make_pair("stallP", 0), std::make_pair("spurious", 0), std::make_pair("preempt", 0), std::make_pair("policy", 0)}) {
        if (plan["sched"][kv.first].asDouble() == 0)
            continue;
        Json::Value p = plan;
        p["sched"][kv.first] = kv.second;
        if (ok(p))
            plan = p;
    }
    return plan;
}

int main(int argc, char** argv)
{
    std::map<std::string, std::string> a;
    std::vector<std::string> pos;
    for (int i = 1; i < argc; ++i) {
        std::string s = argv[i];
        if (s.substr(0, 2) == "--" && i + 1 < argc) {
            a[s.substr(2)] = argv[i + 1];
            ++i;
        } else
            pos.push_back(s);
    }
    if (a.count("repo"))
        RepoDir = a["repo"];
    ScratchBase = a.count("scratch") ? a["scratch"] : "/dev/shm";
    std::string cmd = pos.empty() ? "" : pos[0];
    if (cmd == "gen") {
        std::cout << check::Generate(a["prop"], strtoull(a["seed"].c_str(), nullptr, 10), a.count("thorough")).toStyledString();
        return 0;
    }
    if (cmd == "run") {
        Json::Value plan;
        if (a.count("plan")) {
            if (!ParseJson(Slurp(a["plan"]), plan)) {
                std::cerr << "bad plan\n";
                return 2;
            }
            if (plan.isMember("plan"))
                plan = Json::Value(plan["plan"]);
        } else {
            plan = check::Generate(a["prop"], strtoull(a["seed"].c_str(), nullptr, 10), a.count("thorough"));
            Json::Value p2;
            ParseJson(JsonStr(plan), p2);
            plan = p2;
        }
        auto r = Exec(plan);
        std::cout << r.toStyledString() << "\n";
        return r["vs"].size() ? 1 : 0;
    }
    if (cmd == "min") {
        Json::Value plan;
        if (!ParseJson(Slurp(a["plan"]), plan))
            return 2;
        if (plan.isMember("plan"))
            plan = Json::Value(plan["plan"]);
        auto m = Minimise(plan, a["key"], atof(a["secs"].c_str()));
        Spit(a["out"], JsonStr(m));
        return 0;
    }
    if (cmd == "search") {
        // one line of JSON per run
        uint64_t seed = strtoull(a["seed"].c_str(), nullptr, 10);
        uint64_t from = strtoull(a["from"].c_str(), nullptr, 10), step = strtoull(a["step"].c_str(), nullptr, 10);
        uint64_t count = strtoull(a["count"].c_str(), nullptr, 10);
        double secs = atof(a["secs"].c_str());
        int maxFail = a.count("maxfail") ? atoi(a["maxfail"].c_str()) : 3;
        bool stop1 = a.count("maxfail");
        int fails = 0;
        double ts0 = RealNow();
        for (uint64_t i = from; i < count; i += step) {
            if (RealNow() - ts0 > secs)
                break;
            uint64_t s = Hash(seed, i, 0x5eed) >> 12;
            Json::Value plan, r;
            ParseJson(JsonStr(check::Generate(a["prop"], s, a.count("thorough"))), plan);
            r = Exec(plan);
            r["i"] = (Json::UInt64)i;
            r["seed"] = (Json::UInt64)s;
            r["profile"] = plan["profile"];
            std::cout << JsonStr(r) << std::endl;
            if (r["vs"].size() && stop1 && ++fails >= maxFail)
                break;
        }
        return 0;
    }
    std::cerr << "usage: gen|run|min|search\n";
    return 2;
}
