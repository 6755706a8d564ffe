// C03: failures are shown, and taken back
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    Json::Value Gen(uint64_t seed, bool)
    {
        G g(seed);
        g.o.readPeriod = 0.1;
        g.o.errval = 0.1;
        g.o.wo = 0.08;
        g.o.press = 0.5;
        g.endMs = g.r.range(8000, 60000);
        g.Ports();
        // long silence
        static const std::vector<std::string> dead{"offline", "power", "drop_rsp", "drop_req", "offline"}, serial{"unplug", "offline"}, tcp{"blackhole", "refuse", "nosock", "offline"};
        for (int i = (int)g.r.range(0, 3); i > 0; --i) {
            int port = (int)g.r.below(g.ports.size());
            bool whole = g.r.chance(0.4);
            auto k = !whole ? g.r.pick(dead) : g.ports[port].kind == "serial" ? g.r.pick(serial) : g.r.pick(tcp);
            int slave = whole ? -1 : (int)g.r.below(g.ports[port].slaves.size());
            double t0 = g.r.chance(0.2) ? 0 : g.r.unit() * g.endMs * 0.6;
            g.Fault(k, t0, g.r.chance(0.4) ? g.endMs : std::min(g.endMs, t0 + LogU(g.r, 2000, 50000)), port, slave);
        }
        if (g.r.chance(0.6))
            g.Faults(LineFaults, (int)g.r.range(1, 6), 0, g.endMs, 12000);
        std::vector<int> w;
        for (size_t i = 0; i < g.chans.size(); ++i)
            if (!g.chans[i].regs[0].ro)
                w.push_back((int)i);
        for (int i = (int)g.r.range(0, 25); i > 0 && !w.empty(); --i) {
            int c = g.r.pick(w);
            double t = 50 + g.r.unit() * (g.endMs - 60);
            g.OnOp(c, t);
            if (g.r.chance(0.15))
                g.OnOp(c, t + LogU(g.r, 0.01, 3000));
        }
        // device refuses to write or read something, at first or later on
        for (int i = g.r.chance(0.3) ? (int)g.r.range(1, 2) : 0; i > 0 && !w.empty(); --i) {
            auto& c = g.chans[g.r.pick(w)];
            auto& x = c.regs[0];
            Json::Value v;
            v.append(x.space);
            v.append(x.WAddr());
            v.append(x.words);
            g.SlaveOf(c).world["ro"].append(v);
        }
        for (int i = (int)g.r.range(0, 10); i > 0; --i)
            g.SetOp((int)g.r.below(g.chans.size()), 50 + g.r.unit() * (g.endMs - 60));
        return g.Finish("C03", g.plan["faults"].empty() ? "clean" : "faults");
    }

    struct Span
    {
        ns_t a, b;
    };
    bool In(const std::vector<Span>& v, ns_t a, ns_t b)
    {
        for (auto& s: v)
            if (s.a <= b && s.b >= a)
                return true;
        return false;
    }
    void Judge(Ctx& c)
    {
        if (c.out.end != "ok")
            return;
        auto shown = ShownStates(c);
        ns_t slack = sim::SEC + c.StallSlack(); // a stalled thread may find its time-out over although the answer is there
        std::map<std::pair<int, int>, const Json::Value*> cfg;
        std::map<std::pair<int, int>, std::string> devIds;
        std::map<int, std::vector<const Frame*>> byPort;
        std::map<std::pair<int, int>, std::vector<const Frame*>> bySlave;
        std::map<std::pair<int, int>, std::vector<ns_t>> failed; // something went wrong while talking to the device
        for (auto& f: H.frames) {
            byPort[f.port].push_back(&f);
            int sl = c.SlaveByUnit(f.port, f.unit);
            if (sl < 0)
                continue;
            bySlave[{f.port, sl}].push_back(&f);
            if (!Intact(c, f) || f.exc) {
                failed[{f.port, sl}].push_back(f.t0);
                failed[{f.port, sl}].push_back(std::max(f.t1, f.rsp1));
            }
        }
        // moments at which a port was not usable
        std::map<int, std::vector<Span>> closed;
        std::map<int, ns_t> since;
        for (auto& p: Ports)
            since[p->idx] = 0;
        for (auto& e: H.ports) {
            if (e.what == 'e' && e.port >= 0)
                closed[e.port].push_back({e.t, e.t});
            if (e.what == 'o') {
                if (since.count(e.port)) {
                    closed[e.port].push_back({since[e.port], e.t});
                    since.erase(e.port);
                }
            } else if ((e.what == 'c' || e.what == 'E') && !since.count(e.port))
                since[e.port] = e.t;
        }
        for (auto& s: since)
            closed[s.first].push_back({s.second, H.tEnd + sim::SEC});
        auto anyFail = [&](int port, int slave, ns_t a, ns_t b) {
            auto& v = failed[{port, slave}];
            auto i = std::lower_bound(v.begin(), v.end(), a);
            return (i != v.end() && *i <= b) || In(closed[port], a, b) || c.HostFault(port, a, b);
        };
        for (auto& x: failed)
            std::sort(x.second.begin(), x.second.end());

        // the last request to the device failed: it may count as disconnected
        auto lastFailed = [&](int port, int slave, ns_t t) {
            const Frame* l = nullptr;
            for (auto* f: bySlave[{port, slave}])
                if (f->t0 <= t)
                    l = f;
            return !l || !Intact(c, *l) || l->exc;
        };

        // commands by channel
        std::vector<std::vector<ns_t>> cmds(c.chans.size());
        for (auto& o: H.ops) {
            auto& op = c.plan["ops"][o.idx];
            if (op["k"].asString() == "on" && op.isMember("chan") && o.accepted)
                cmds[op["chan"].asInt()].push_back(o.t);
        }
        // dead: a device does not answer at all
        std::map<std::pair<int, int>, std::vector<Span>> dead;
        for (auto& f: c.plan["faults"]) {
            static const std::set<std::string> kinds{"offline", "power", "drop_rsp", "drop_req", "unplug", "blackhole"};
            auto k = f["k"].asString();
            if (!kinds.count(k) || f.isMember("n") || (f.isMember("p") && f["p"].asDouble() < 1))
                continue;
            for (auto& p: Ports) {
                if (f.isMember("port") && f["port"].asInt() != p->idx)
                    continue;
                for (auto& s: p->slaves)
                    if (!f.isMember("slave") || f["slave"].asInt() == s->idx)
                        dead[{p->idx, s->idx}].push_back({c.T0 + (ns_t)(f["t0"].asDouble() * 1e6), std::min(H.tTerm, c.T0 + (ns_t)(f["t1"].asDouble() * 1e6))});
            }
        }
        std::map<std::pair<int, int>, int> regsOf;
        for (auto& ch: c.chans)
            for (auto& r: ch.regs)
                ++regsOf[{r.port, r.slave}];
        // devices marked as lost
        std::map<std::string, std::vector<const Pub*>> devErr;
        for (auto& p: H.pubs)
            if (p.what == 'd')
                devErr[p.dev].push_back(&p);
        for (size_t ci = 0; ci < c.chans.size(); ++ci) {
            auto& ch = c.chans[ci];
            auto& sh = shown[ci];
            std::string nm = ch.dev + "/" + ch.ctl;
            int port = ch.regs[0].port, slave = ch.regs[0].slave;
            // found by trial: the longest seen without a fault of the daemon is about half of it
            ns_t bound = 12 * sim::SEC + (Ports[port]->kind == "serial" ? 0 : 8 * sim::SEC) + 20 * (slack - sim::SEC);
            bool hasErr = false;
            for (auto& r: ch.regs)
                hasErr |= r.hasErr;
            auto errAt = [&](ns_t t) {
                std::string e;
                for (auto& s: sh) {
                    if (s.t > t)
                        break;
                    e = s.err;
                }
                return e;
            };
            auto everErr = [&](char x, ns_t a, ns_t b) {
                if (errAt(a).find(x) != std::string::npos)
                    return true;
                for (auto& s: sh)
                    if (s.t >= a && s.t <= b && s.err.find(x) != std::string::npos)
                        return true;
                return false;
            };
            // marks without a reason
            std::string prev;
            for (auto& s: sh) {
                ++H.probes["judged"];
                if (s.err.find('r') != std::string::npos && prev.find('r') == std::string::npos && !hasErr && slack == sim::SEC &&
                    !anyFail(port, slave, s.t - 3 * slack, s.t))
                    c.Add("error_invented", "control " + nm + " shows a read error at " + c.Ms(s.t) + ", but its device has answered everything");
                if (s.err.find('w') != std::string::npos && prev.find('w') == std::string::npos) {
                    bool any = false;
                    for (auto t: cmds[ci])
                        any |= t <= s.t;
                    if (!any)
                        c.Add("error_invented", "control " + nm + " shows a write error at " + c.Ms(s.t) + ", but nobody has sent a command");
                    else if (slack == sim::SEC && !anyFail(port, slave, s.t - 3 * slack, s.t) && !lastFailed(port, slave, s.t))
                        c.Add("error_invented", "control " + nm + " shows a write error at " + c.Ms(s.t) + ", but its device has answered everything");
                }
                prev = s.err;
            }
            // a silent device
            if (!ch.regs[0].wo)
                for (auto& d: dead[{port, slave}]) {
                    ns_t first = d.b;
                    for (auto& s: sh)
                        if (s.t <= d.b && s.err.find('r') != std::string::npos && (s.t >= d.a || &s == &sh.back() || (&s)[1].t > d.a)) {
                            first = std::max(s.t, d.a);
                            break;
                        }
                    ns_t dd = first - d.a;
                    // a lost device is asked less and less often, for one range of registers at a time
                    ns_t grow = 0;
                    int regs = 0;
                    for (auto& x: regsOf)
                        if (x.first.first == port)
                            regs += x.second;
                    for (int i = 1; i <= regs; ++i)
                        grow += std::min(10 * sim::SEC, i * sim::SEC / 2);
                    grow += std::max(ch.rateLimit, ch.readPeriod) * sim::MS + 20 * (slack - sim::SEC);
                    ns_t firstD = d.b;
                    {
                        auto& v = devErr[ch.dev];
                        for (size_t i = 0; i < v.size(); ++i)
                            if (v[i]->t <= d.b && v[i]->err == "r" && (i + 1 == v.size() || v[i + 1]->t > d.a)) {
                                firstD = std::max(v[i]->t, d.a);
                                break;
                            }
                    }
                    ns_t dm = std::min(firstD, first) - d.a;
                    if (dm > bound + (ns_t)Ports[port]->slaves.size() * 3 * sim::SEC)
                        c.Add("device_not_marked", "device " + ch.dev + " is not shown as lost until " + c.Ms(d.a + dm) + ", it has been silent since " + c.Ms(d.a));
                    if (dd > bound + grow)
                        c.Add("not_shown", "control " + nm + " shows no read error until " + c.Ms(d.a + dd) + ", its device has been silent since " + c.Ms(d.a));
                }
            // a command that is not delivered
            if (ch.regs.size() == 1) {
                auto& r = ch.regs[0];
                // is the register, as far as one can tell, one of those a request was sent for?
                auto wanted = [&](const Frame& f) {
                    int a = f.addr, b = f.addr + f.count;
                    if (a > r.addr || b < r.addr + r.words || (a != r.addr && b != r.addr + r.words))
                        return false;
                    for (auto& o: c.chans)
                        for (auto& x: o.regs)
                            if (&x != &r && x.port == port && x.slave == slave && x.space == r.space &&
                                ((a == r.addr && x.addr == a) || (b == r.addr + r.words && x.addr + x.words == b)))
                                return false;
                    return true;
                };
                auto touches = [&](const Frame& f) {
                    return f.port == port && c.SlaveByUnit(port, f.unit) == slave && SpaceOf(f.fn) == r.space && IsWrite(f) && f.addr < r.WAddr() + r.words &&
                           f.addr + std::max(1, f.count) > r.WAddr();
                };
                for (auto t: cmds[ci]) {
                    ns_t done = H.tTerm;
                    for (auto* f: bySlave[{port, slave}])
                        if (f->t0 >= t - sim::SEC && touches(*f) && f->applied && !f->exc) {
                            done = f->t0;
                            break;
                        }
                    if (done - t > bound && !everErr('w', t, std::min(done, t + bound)))
                        c.Add("not_shown", "control " + nm + " shows no write error until " + c.Ms(t + bound) + ", although the command sent at " + c.Ms(t) +
                                               " was not delivered until " + c.Ms(done));
                }
                // taken back
                for (auto* f: bySlave[{port, slave}]) {
                    if (slack != sim::SEC || f->exc || !Intact(c, *f) || f->rsp1 + slack > H.tTerm)
                        continue;
                    if (IsRead(*f) && !r.wo && !hasErr && SpaceOf(f->fn) == r.space && wanted(*f) &&
                        !r.width && !anyFail(port, slave, f->rsp1 + 1, f->rsp1 + slack) && !anyFail(port, slave, f->t0 - slack, f->t0)) {
                        ++H.probes["judged"];
                        if (errAt(f->rsp1 + slack).find('r') != std::string::npos)
                            c.Add("not_taken_back", "control " + nm + " still shows a read error at " + c.Ms(f->rsp1 + slack) + ", " + FrameStr(c, *f) +
                                                        " was answered");
                    }
                    if (touches(*f) && f->addr == r.WAddr() && std::max(1, f->count) >= r.words && !r.width) {
                        bool more = false;
                        for (auto t: cmds[ci])
                            more |= t > f->t0 - slack && t < f->rsp1 + slack;
                        if (more || anyFail(port, slave, f->rsp1 + 1, f->rsp1 + slack))
                            continue;
                        ++H.probes["judged"];
                        if (errAt(f->rsp1 + slack).find('w') != std::string::npos)
                            c.Add("not_taken_back", "control " + nm + " still shows a write error at " + c.Ms(f->rsp1 + slack) + ", " + FrameStr(c, *f) +
                                                        " was acknowledged");
                    }
                }
            }
        }
        Converged(c);
    }
}
static Register r03("C03", Gen, Judge);
