// C11: polling suspended and resumed by request
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    const ns_t Timeout = 600 * sim::SEC;

    Json::Value Gen(uint64_t seed, bool)
    {
        G g(seed);
        g.o.setup = 0;
        g.o.templates = 0.3;
        g.o.chansMax = 4;
        g.o.fast = 0.25;
        g.o.wbDev = 0.2;
        g.o.readPeriod = 0.15;
        g.o.writable = 0.4;
        g.o.wo = 0;
        bool lng = g.r.chance(0.2);
        if (lng) {
            // long enough for a suspension to time out; slow devices keep the number of requests low
            g.o.portsMax = 1;
            g.o.slavesMax = 3;
            g.o.rateLimit = 0.5;
            g.endMs = g.r.range(620000, 1500000);
        } else
            g.endMs = g.r.range(4000, 40000);
        g.Ports();
        for (auto& p: g.ports)
            for (auto& s: p.slaves) {
                if (lng) {
                    s.world["delayUs"] = Json::Value(Json::arrayValue);
                    s.world["delayUs"].append((int)g.r.range(10000, 30000));
                    s.world["delayUs"].append((int)g.r.range(30000, 60000));
                }
                if (g.r.chance(0.6))
                    g.AddSetup2(s);
            }
        bool faults = g.r.chance(0.6);
        if (faults) {
            g.Faults({"offline", "power", "reboot", "drop_req", "drop_rsp"}, (int)g.r.range(1, 4), 0, g.endMs, 12000);
            if (g.r.chance(0.3))
                g.Faults(LineFaults, (int)g.r.range(1, 3), 0, g.endMs, 5000);
        }
        std::vector<SlaveG*> ds;
        for (auto& p: g.ports)
            for (auto& s: p.slaves)
                if (!s.extra)
                    ds.push_back(&s);
        auto poll = [&](SlaveG& s, double t, bool on) {
            Json::Value q;
            if (g.r.chance(0.7))
                q["device_id"] = s.dev;
            else {
                q = g.PortReq(g.ports[s.port]);
                q["slave_id"] = s.cfg["slave_id"];
            }
            q["poll"] = on;
            auto& op = g.RpcOp(t, "device/SetPoll", q);
            op["x"]["port"] = s.port;
            op["x"]["slave"] = s.idx;
            op["x"]["poll"] = on;
        };
        std::set<SlaveG*> touched;
        int n = (int)g.r.range(1, lng ? 5 : 10);
        double at = g.r.chance(0.3) ? LogU(g.r, 1, 300) : 20 + g.r.unit() * g.endMs / 2;
        for (int i = 0; i < n; ++i) {
            auto& s = *g.r.pick(ds);
            touched.insert(&s);
            bool on = g.r.chance(0.35);
            poll(s, at, on);
            if (!on && g.r.chance(0.5))
                poll(s, at + (lng && g.r.chance(0.5) ? g.r.unit() * 620000 : LogU(g.r, 1, 15000)), true);
            if (lng && !on && g.r.chance(0.3))
                poll(s, at + 600000 + (g.r.unit() - 0.5) * 600, g.r.chance(0.7)); // just when it times out
            if (lng)
                at += g.r.chance(0.5) ? LogU(g.r, 1, 30000) : g.r.unit() * 500000;
            else
                at = g.r.chance(0.5) ? at + LogU(g.r, 0.5, 3000) : 20 + g.r.unit() * (g.endMs - 60);
            if (at > g.endMs)
                at = g.r.unit() * g.endMs;
        }
        for (int i = (int)g.r.range(0, 6); i > 0; --i) {
            auto& p = g.r.pick(g.ports);
            auto q = g.PortReq(p);
            q["protocol"] = p.kind == "mtcp" ? "modbus-tcp" : "modbus";
            q["slave_id"] = g.r.pick(p.slaves).id;
            q["function"] = 3;
            q["address"] = (int)g.r.range(60000, 60010);
            q["count"] = 1;
            q["response_timeout"] = 200;
            g.RpcOp(g.r.unit() * g.endMs, "port/Load", q);
        }
        for (int i = (int)g.r.range(0, 10); i > 0; --i) {
            int c = (int)g.r.below(g.chans.size());
            double t = 50 + g.r.unit() * (g.endMs - 60);
            if (!g.chans[c].regs[0].ro && g.r.chance(0.5))
                g.OnOp(c, t);
            else
                g.SetOp(c, t);
        }
        if (g.r.chance(0.8) || g.endMs < 300000)
            for (auto s: touched)
                poll(*s, g.endMs + 100 + g.r.unit() * 200, true);
        else
            g.quiesceMs = 640000;
        return g.Finish("C11", std::string(lng ? "long" : "short") + (faults ? "+faults" : ""));
    }
    struct Span
    {
        ns_t a, b;         // surely suspended
        ns_t resumed;      // surely not suspended (by request or time) from then on; 0: unknown
        std::string how;
    };
    void Judge(Ctx& c)
    {
        struct Req
        {
            ns_t t, done;
            bool poll, ok, answered;
        };
        std::map<std::pair<int, int>, std::vector<Req>> reqs;
        for (auto& o: H.ops) {
            auto& op = c.plan["ops"][o.idx];
            if (op["k"].asString() != "rpc" || op["method"].asString() != "device/SetPoll")
                continue;
            Req r{o.t, H.tEnd, op["x"]["poll"].asBool(), false, false};
            for (auto& x: H.replies)
                if (x.id == o.callId) {
                    r.done = x.t;
                    r.ok = x.ok;
                    r.answered = true;
                }
            reqs[{op["x"]["port"].asInt(), op["x"]["slave"].asInt()}].push_back(r);
        }
        std::set<std::pair<int, int>> stillOff;
        for (auto& kv: reqs) {
            int port = kv.first.first, slave = kv.first.second;
            auto& s = c.plan["ports"][port]["slaves"][slave];
            int unit = s["id"].asInt();
            std::string name = "slave " + std::to_string(unit) + " of port " + std::to_string(port);
            std::set<std::array<int, 2>> regs;
            for (auto& ch: c.chans)
                for (auto& r: ch.regs)
                    if (r.port == port && r.slave == slave && !r.wo)
                        for (int i = 0; i < r.words; ++i)
                            regs.insert({r.space, r.addr + i});
            std::vector<Span> spans;
            int state = 0;  // 0 polled, 1 suspended, -1 unknown
            ns_t until0 = 0, until1 = 0; // of a suspension: it times out between these
            auto tick = [&](ns_t t0, ns_t t1) {
                // what is the state while a request comes in at [t0, t1]
                if (state == 1 && t1 >= until0)
                    state = t0 > until1 ? 0 : -1;
                else if (state == -1 && until1 && t0 > until1)
                    state = 0;
            };
            ns_t Slack = 3 * sim::SEC + c.StallSlack();
            for (auto& q: kv.second) {
                tick(q.t, q.done);
                ++H.probes["judged"];
                if (!q.answered) {
                    state = -1;
                    until1 = q.t + 4 * Timeout;
                    continue;
                }
                if (!q.poll) {
                    if (!q.ok) {
                        if (!regs.empty() && q.t > c.T0 + 3 * sim::SEC)
                            c.Add("suspend_refused", "the request of " + c.Ms(q.t) + " to suspend polling of " + name + " was answered with an error");
                        continue;
                    }
                    if (state != 1)
                        spans.push_back({q.done, q.t + Timeout, 0, "request of " + c.Ms(q.t)});
                    else
                        spans.back().b = q.t + Timeout;
                    state = 1;
                    until0 = q.t + Timeout;
                    until1 = q.done + Timeout + Slack;
                } else {
                    if (state == 1 && !q.ok)
                        c.Add("resume_refused", "the request of " + c.Ms(q.t) + " to resume polling of " + name + " was answered with an error although it is suspended");
                    if (state == 0 && q.ok)
                        c.Add("resume_accepted", "the request of " + c.Ms(q.t) + " to resume polling of " + name + " was accepted although it is not suspended");
                    if (q.ok) {
                        if (!spans.empty()) {
                            spans.back().b = std::min(spans.back().b, q.t);
                            spans.back().resumed = q.done;
                        }
                        state = 0;
                    }
                }
            }
            for (auto& sp: spans) {
                if (!sp.resumed && sp.b + Slack < H.tTerm)
                    sp.resumed = sp.b + Slack;
                for (auto& f: H.frames)
                    if (f.port == port && f.unit == unit && f.crcOk && f.t0 > sp.a && f.t0 < sp.b) {
                        bool own = false;
                        if (IsRead(f))
                            for (int i = 0; i < f.count; ++i)
                                own |= regs.count({SpaceOf(f.fn), f.addr + i}) > 0;
                        own |= f.fn == 70 && f.b.size() > 2 && f.b[2] == 24;
                        // the rest of a word that a command is about to write
                        for (size_t k = &f - &H.frames[0] + 1; own && k < H.frames.size() && H.frames[k].t0 < f.t0 + 5 * sim::SEC; ++k)
                            if (H.frames[k].port == port && H.frames[k].unit == unit) {
                                own = !(IsWrite(H.frames[k]) && H.frames[k].addr < f.addr + f.count && f.addr < H.frames[k].addr + H.frames[k].count);
                                break;
                            }
                        if (own) {
                            c.Add("polled_while_suspended", FrameStr(c, f) + ": polling of this device has been suspended (" + sp.how + ", answered at " + c.Ms(sp.a) + ")");
                            break;
                        }
                    }
            }
            if (!spans.empty() && (!spans.back().resumed || spans.back().b > H.tActiveEnd))
                stillOff.insert(kv.first);
            // polled again after that
            for (size_t i = 0; i < spans.size(); ++i) {
                ns_t a = spans[i].resumed, b = a + 16 * sim::SEC + c.StallSlack();
                if (!a || regs.empty() || H.tTerm < b || (i + 1 < spans.size() && spans[i + 1].a < b) || (!c.FaultFree() && a < H.tActiveEnd))
                    continue;
                bool polled = false;
                for (auto& f: H.frames)
                    polled |= f.port == port && f.slave == slave && f.t0 >= a && f.t0 <= b && f.replied;
                if (!polled)
                    c.Add("not_polled_after_resume", name + " was resumed at " + c.Ms(a) + " but not polled until " + c.Ms(b));
            }
            // others go on
            if (c.FaultFree() && c.out.end == "ok")
                for (auto& sp: spans)
                    for (size_t o = 0; o < c.plan["ports"][port]["slaves"].size(); ++o) {
                        if ((int)o == slave || sp.b - sp.a < 30 * sim::SEC)
                            continue;
                        bool off = false, readable = false;
                        if (reqs.count({port, (int)o}))
                            off = true;
                        int limited = 0;
                        for (auto& ch: c.chans)
                            for (auto& r: ch.regs)
                                readable |= r.port == port && r.slave == (int)o && !r.wo;
                        (void)limited;
                        if (off || !readable)
                            continue;
                        bool polled = false;
                        for (auto& f: H.frames)
                            polled |= f.port == port && f.slave == (int)o && f.t0 > sp.a && f.t0 < std::min(sp.b, H.tTerm) && f.replied;
                        bool fast = c.plan["ports"][port]["slaves"][(int)o]["fast"].asBool();
                        if (!polled && !fast && H.tTerm > sp.a + 30 * sim::SEC)
                            c.Add("others_not_polled", "slave number " + std::to_string(o) + " of port " + std::to_string(port) + " is not polled while " + name + " is suspended");
                    }
        }
        SetupFirst(c, stillOff);
        if (stillOff.empty())
            Converged(c);
    }
}
static Register r11("C11", Gen, Judge);
