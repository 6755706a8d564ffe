// C16: ports that go away and come back
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    Json::Value Gen(uint64_t seed, bool)
    {
        G g(seed);
        g.o.portsMax = 3;
        g.o.tcp = 0.35;
        g.o.mtcp = 0.3;
        g.o.chansMax = 4;
        g.o.readPeriod = 0.15;
        g.o.writable = 0.4;
        g.o.wbDev = 0.2;
        g.endMs = g.r.range(8000, 60000);
        g.Ports();
        static const std::vector<std::string> ser{"unplug", "unplug", "open_fail", "write_err", "short_write", "tcset_err", "noise"},
            tcp{"refuse", "refuse_late", "blackhole", "rst", "fin", "fin", "short_write", "nosock"};
        for (auto& p: g.ports) {
            if (g.r.chance(0.2)) {
                static const std::vector<int> ms{-1, 0, 300, 2000, 5000, 12000}, cyc{-1, 0, 1, 2, 5};
                p.cfg["connection_timeout_ms"] = g.r.pick(ms);
                p.cfg["connection_max_fail_cycles"] = g.r.pick(cyc);
            }
        }
        // without reconnects only what the connection itself tells is noticed
        static const std::vector<std::string> told{"refuse", "refuse_late", "fin", "rst"}, quiet{"noise"};
        int n = (int)g.r.range(1, 8);
        for (int i = 0; i < n; ++i) {
            int port = (int)g.r.below(g.ports.size());
            bool off = g.ports[port].cfg.get("connection_timeout_ms", 0).asInt() < 0 || g.ports[port].cfg.get("connection_max_fail_cycles", 0).asInt() < 0;
            auto& kinds = g.ports[port].kind == "serial" ? off ? quiet : ser : off ? told : tcp;
            double t0 = g.r.chance(0.15) ? 0 : g.r.unit() * g.endMs;
            // one after the other: what breaks the connection and what keeps it from being opened again
            for (int k = (int)g.r.range(1, 3); k > 0 && t0 < g.endMs; --k) {
                double len = LogU(g.r, 5, 25000);
                g.Fault(g.r.pick(kinds), t0, std::min(t0 + len, g.endMs), port);
                if (g.r.chance(0.3))
                    g.LastFault()["p"] = LogU(g.r, 0.05, 1);
                t0 += g.r.chance(0.5) ? g.r.unit() * len : LogU(g.r, 1, 8000);
            }
        }
        if (g.r.chance(0.2)) {
            // a line on which nobody answers
            auto& p = g.r.pick(g.ports);
            double t0 = g.r.unit() * g.endMs, t1 = std::min(t0 + LogU(g.r, 5000, 40000), g.endMs);
            for (auto& s: p.slaves)
                g.Fault("offline", t0, t1, s.port, s.idx);
        }
        if (g.r.chance(0.3))
            g.Faults({"offline", "power", "drop_req", "drop_rsp"}, (int)g.r.range(1, 3), 0, g.endMs, 9000);
        for (int i = (int)g.r.range(0, 10); i > 0; --i) {
            int c = (int)g.r.below(g.chans.size());
            double t = 50 + g.r.unit() * (g.endMs - 60);
            if (!g.chans[c].regs[0].ro && g.r.chance(0.5))
                g.OnOp(c, t);
            else
                g.SetOp(c, t);
        }
        if (g.r.chance(0.4))
            for (int i = (int)g.r.range(1, 6); i > 0; --i) {
                auto& p = g.r.pick(g.ports);
                auto q = g.PortReq(p);
                if (g.r.chance(0.3)) {
                    q["mode"] = "all";
                    g.RpcOp(50 + g.r.unit() * (g.endMs - 60), "port/Scan", q);
                    continue;
                }
                q["protocol"] = p.kind == "mtcp" ? "modbus-tcp" : "modbus";
                q["slave_id"] = p.slaves[0].id;
                q["function"] = 3;
                q["address"] = (int)g.r.range(0, 30);
                q["count"] = 1;
                q["response_timeout"] = 200;
                q["total_timeout"] = (int)g.r.range(500, 12000);
                g.RpcOp(50 + g.r.unit() * (g.endMs - 60), "port/Load", q);
            }
        return g.Finish("C16", "ports");
    }
    // Without an error of the connection itself a port is closed only after it has been silent for long enough
    void Needless(Ctx& c, size_t p)
    {
        auto& cfg = c.plan["config"]["ports"][(int)p];
        int ms = cfg.get("connection_timeout_ms", 5000).asInt(), cyc = cfg.get("connection_max_fail_cycles", 2).asInt();
        ns_t open = 0;
        for (auto& e: H.ports) {
            if (e.port != (int)p)
                continue;
            if (e.what == 'o')
                open = e.t;
            if (e.what != 'c' || !open || e.t >= H.tTerm)
                continue;
            ns_t o = open;
            open = 0;
            bool skip = false, unheard = false; // requests may have been sent that nobody has heard
            for (auto& f: c.plan["faults"]) {
                auto k = f["k"].asString();
                if ((f.isMember("port") && f["port"].asInt() != (int)p) || k == "offline" || k == "drop_req" || k == "drop_rsp" || k == "refuse" || k == "open_fail" ||
                    k == "stall" || c.T0 + (ns_t)(f["t0"].asDouble() * 1e6) > e.t)
                    continue;
                ns_t t1 = c.T0 + (ns_t)(f["t1"].asDouble() * 1e6);
                skip |= t1 >= e.t - 2 * sim::SEC;
                unheard |= t1 >= o;
            }
            for (auto& x: H.ports)
                skip |= x.port == (int)p && x.what == 'e' && x.t <= e.t && x.t >= o;
            for (auto& x: H.ops)
                skip |= c.plan["ops"][x.idx]["k"].asString() == "rpc" && x.t <= e.t && x.t > e.t - 25 * sim::SEC;
            if (skip)
                continue;
            ++H.probes["judged"];
            std::string what = "port " + Ports[p]->path + " was closed at " + c.Ms(e.t) + " without an error of the connection";
            if (ms < 0 || cyc < 0) {
                c.Add("closed_needlessly", what + " although reconnecting is disabled");
                continue;
            }
            if (e.t - o < (ns_t)ms * sim::MS)
                c.Add("closed_needlessly", what + " " + std::to_string((e.t - o) / sim::MS) + " ms after it had been opened (connection_timeout_ms " + std::to_string(ms) + ")");
            int tries = 0;
            for (auto& f: H.frames) {
                if (f.port != (int)p || f.t0 < o || f.t0 > e.t || f.fn >= 0x41)
                    continue;
                ++tries;
                if (Intact(c, f) && IsRead(f) && f.rsp1 > e.t - (ns_t)ms * sim::MS) {
                    std::string st = "?";
                    for (auto& x: H.pubs)
                        if (x.what == 'd' && x.t < f.rsp1)
                            for (auto& ch: c.chans)
                                if (ch.dev == x.dev && ch.regs[0].port == f.port && ch.regs[0].slave == f.slave)
                                    st = x.err;
                    if (st == "")
                        c.Add("closed_needlessly", what + " although " + FrameStr(c, f) + " was answered");
                }
            }
            if (tries < cyc && !unheard)
                c.Add("closed_needlessly", what + " after " + std::to_string(tries) + " requests (connection_max_fail_cycles " + std::to_string(cyc) + ")");
        }
    }
    void Judge(Ctx& c)
    {
        Converged(c);
        for (size_t p = 0; p < Ports.size(); ++p)
            Needless(c, p);
        for (size_t p = 0; p < Ports.size(); ++p) {
            auto nm = "port " + Ports[p]->path;
            // attempts to open: not too often, and again and again
            struct Ev
            {
                ns_t t;
                char what; // 'E', 'o', 'c', 'd' all devices are lost, 'u' not all
            };
            std::vector<Ev> evs;
            bool nosock = false;
            for (auto& e: H.ports)
                if (e.port == (int)p)
                    evs.push_back({e.t, e.what});
                else if (e.port == -1)
                    nosock = true; // attempts not attributed to a port
            std::map<std::string, bool> lost;
            for (auto& ch: c.chans)
                if (ch.regs[0].port == (int)p)
                    lost[ch.dev] = false;
            bool all = false;
            for (auto& x: H.pubs) {
                if (x.what != 'd' || !lost.count(x.dev))
                    continue;
                lost[x.dev] = x.err == "r";
                bool now = std::all_of(lost.begin(), lost.end(), [](auto& l) { return l.second; });
                if (now != all)
                    evs.push_back({x.t, now ? 'd' : 'u'});
                all = now;
            }
            std::stable_sort(evs.begin(), evs.end(), [](const Ev& a, const Ev& b) { return a.t < b.t; });
            ns_t failed = 0, closed = c.T0;
            bool open = false;
            std::vector<ns_t> tries; // while all devices are lost
            bool dead = false;
            // requests by RPC may use the port at any time
            std::vector<ns_t> rpc;
            for (auto& o: H.ops)
                if (c.plan["ops"][o.idx]["k"].asString() == "rpc")
                    rpc.push_back(o.t);
            for (auto& e: evs) {
                if (e.what == 'd' || e.what == 'u') {
                    dead = e.what == 'd';
                    tries.clear();
                } else if (e.what == 'c') {
                    if (open)
                        closed = e.t;
                    open = false;
                } else if (e.what == 'o' || e.what == 'E') {
                    ++H.probes["judged"];
                    size_t k = 0;
                    for (auto t: rpc)
                        k += t > e.t - 25 * sim::SEC && t <= e.t;
                    if (failed && !k && e.t - failed < 4800 * sim::MS)
                        c.Add("opened_too_often", nm + ": an attempt to open it at " + c.Ms(e.t) + " follows the failed one of " + c.Ms(failed) + " at once");
                    ns_t gap = e.t - closed;
                    if (gap > 13 * sim::SEC + c.StallSlack() && !nosock)
                        c.Add("not_opened_again", nm + ": no attempt to open it between " + c.Ms(closed) + " and " + c.Ms(e.t));
                    open = e.what == 'o';
                    failed = open ? 0 : e.t;
                    closed = e.t;
                    if (dead) {
                        tries.push_back(e.t);
                        size_t n = 0;
                        for (auto t: tries)
                            n += t > e.t - 10 * sim::SEC;
                        if (n > 5 + 20 * lost.size() + 10 * k)
                            c.Add("opened_too_often", nm + " was opened " + std::to_string(n) + " times in 10 s up to " + c.Ms(e.t) +
                                                          " although all its devices are known to be lost");
                    }
                }
            }
            if (!open && c.out.end == "ok" && H.tTerm - closed > 13 * sim::SEC + c.StallSlack() && !nosock)
                c.Add("not_opened_again", nm + ": no attempt to open it between " + c.Ms(closed) + " and the end");
        }
        if (c.out.end != "ok" || H.tTerm < H.tActiveEnd + 25 * sim::SEC)
            return;
        for (size_t p = 0; p < Ports.size(); ++p)
            for (auto& s: Ports[p]->slaves) {
                bool readable = false;
                for (auto& ch: c.chans)
                    for (auto& r: ch.regs)
                        readable |= r.port == (int)p && r.slave == s->idx && !r.wo;
                if (!readable)
                    continue;
                ++H.probes["judged"];
                ns_t first = -1;
                for (auto& f: H.frames)
                    if (f.port == (int)p && f.slave == s->idx && f.t0 >= H.tActiveEnd && f.replied && IsRead(f)) {
                        first = f.t0 - H.tActiveEnd;
                        break;
                    }
                if (first < 0 || first > 16 * sim::SEC + c.StallSlack())
                    c.Add("not_polled_again", "port " + Ports[p]->path + " works since " + c.Ms(H.tActiveEnd) + " at the latest but slave " + std::to_string(s->id) +
                                                  " was not polled until " + (first >= 0 ? c.Ms(H.tActiveEnd + first) : "the end"));
            }
    }
}
static Register r16("C16", Gen, Judge);
