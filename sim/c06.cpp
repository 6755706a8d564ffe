// C06: Fast Modbus events
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    Json::Value Gen(uint64_t seed, bool)
    {
        G g(seed);
        g.o.fast = 0.85;
        g.o.mtcp = 0;
        g.o.tcp = 0.2;
        g.o.chansMin = 0;
        g.o.chansMax = 2;
        g.o.writable = 0.5;
        g.o.strings = g.o.partial = g.o.multi = g.o.bits = 0;
        g.o.hexId = 0;
        g.o.setup = 0.3;
        g.endMs = g.r.range(4000, 30000);
        g.Ports();
        std::vector<int> evs, writable, wide;
        for (auto& p: g.ports)
            for (auto& s: p.slaves) {
                if (!s.fast)
                    continue;
                for (auto& n: s.next)
                    n += (int)g.r.range(0, 5);
                for (int k = (int)g.r.range(1, 6); k > 0; --k) {
                    Chan c;
                    Reg x;
                    x.port = s.port;
                    x.slave = s.idx;
                    static const int sp[] = {HOLDING, HOLDING, INPUT, INPUT, COIL, DISCRETE};
                    x.space = sp[g.r.below(6)];
                    static const char* names[] = {"coil", "discrete", "holding", "input"};
                    x.type = names[x.space];
                    x.addr = s.next[x.space] + (g.r.chance(0.3) ? (int)g.r.range(1, 4) : 0);
                    x.ro = x.space == DISCRETE || x.space == INPUT || g.r.chance(0.4);
                    x.fmt = x.IsBit() ? "u16" : g.r.chance(0.6) ? "u16" : "s16";
                    c.semi = g.r.chance(0.35);
                    c.sporadic = !c.semi;
                    if (!x.IsBit() && g.r.chance(0.12)) {
                        x.fmt = "u32";
                        x.words = 2;
                    }
                    s.next[x.space] = x.addr + x.words;
                    for (int i = 0; i < x.words; ++i)
                        s.mem[{x.space, x.addr + i}] = x.IsBit() ? (int)g.r.below(2) : (int)g.r.below(65536);
                    if (!x.IsBit() && g.r.chance(0.2))
                        x.scale = 0.5;
                    c.type = x.IsBit() ? "switch" : "value";
                    c.regs.push_back(x);
                    if (c.semi && g.r.chance(0.3))
                        c.readPeriod = (int)g.r.range(300, 3000);
                    else if (c.semi && g.r.chance(0.3))
                        c.rateLimit = (int)g.r.range(300, 6000);
                    int ci = g.AddChan(s, c);
                    if (g.r.chance(0.9)) {
                        Json::Value v;
                        v.append(x.space);
                        v.append(x.addr);
                        v.append(1);
                        s.world["events"].append(v);
                        if (x.words == 2) {
                            Json::Value w;
                            w.append(x.space);
                            w.append(x.addr);
                            s.world["evWide"].append(w);
                        }
                    }
                    evs.push_back(ci);
                    if (!x.ro)
                        writable.push_back(ci);
                    if (g.r.chance(0.12)) { // a second control for the same register
                        Chan c2;
                        c2.regs.push_back(x);
                        c2.type = c.type;
                        (g.r.chance(0.7) ? c2.sporadic : c2.semi) = true;
                        g.AddChan(s, c2);
                    }
                }
                // events nobody wants any more
                if (g.r.chance(0.15)) {
                    int a = s.next[HOLDING] + (int)g.r.range(5, 40);
                    s.mem[{HOLDING, a}] = 7;
                    Json::Value v;
                    v.append(HOLDING);
                    v.append(a);
                    s.world["evOn"].append(v);
                    v.append(1);
                    s.world["events"].append(v);
                    for (int k = (int)g.r.range(1, 5); k > 0; --k) {
                        auto& op = g.Op(50 + g.r.unit() * (g.endMs - 60), "set");
                        op["port"] = s.port;
                        op["slave"] = s.idx;
                        op["s"] = HOLDING;
                        op["a"] = a;
                        op["v"].append((int)g.r.below(65536));
                    }
                }
                if (g.r.chance(0.07))
                    s.world["oldFw"] = true;
            }
        bool faults = g.r.chance(0.8);
        if (faults) {
            static const std::vector<std::string> kinds{"drop_req", "drop_rsp", "trunc", "corrupt", "offline", "power", "noise", "reboot", "reboot", "unplug", "open_fail",
                                                        "write_err", "short_write", "refuse", "blackhole", "rst", "fin", "delay"};
            g.Faults(kinds, (int)g.r.range(1, 7), 0, g.endMs, 8000);
            // only the event exchange suffers
            for (int i = g.r.chance(0.5) ? (int)g.r.range(1, 3) : 0; i > 0; --i) {
                static const std::vector<std::string> k2{"drop_req", "drop_rsp", "trunc", "corrupt"};
                double t0 = g.r.unit() * g.endMs * 0.8;
                g.Fault(g.r.pick(k2), t0, std::min(g.endMs, t0 + LogU(g.r, 50, 15000)), (int)g.r.below(g.ports.size()));
                g.LastFault()["fn"] = 0x46;
                if (g.r.chance(0.7))
                    g.LastFault()["p"] = LogU(g.r, 0.05, 1);
            }
            // for so long that it has to be noticed
            if (g.r.chance(0.15)) {
                static const std::vector<std::string> k3{"drop_rsp", "trunc", "corrupt"};
                g.endMs = std::max(g.endMs, 24000.0);
                double t0 = g.r.range(1000, 4000);
                g.Fault(g.r.pick(k3), t0, t0 + g.r.range(14000, 19000), (int)g.r.below(g.ports.size()));
                g.LastFault()["fn"] = 0x46;
            }
            // the answer to the request that enables events is lost, then the device reboots
            if (g.r.chance(0.3)) {
                int pi = (int)g.r.below(g.ports.size());
                auto& p = g.ports[pi];
                int sl = (int)g.r.below(p.slaves.size());
                double t0 = g.r.chance(0.5) ? 0 : g.r.range(500, 4000);
                if (t0 > 0)
                    g.Fault("reboot", t0, t0 + 1, pi, sl);
                g.Fault("drop_rsp", t0, t0 + g.r.range(200, 1500), pi, sl);
                g.LastFault()["fn"] = 0x46;
                t0 += g.r.range(2000, 6000);
                g.Fault("reboot", t0, t0 + 1, pi, sl);
            }
        }
        for (int i = (int)g.r.range(3, 60); i > 0 && !evs.empty(); --i) {
            int c = g.r.pick(evs);
            double t = 50 + g.r.unit() * (g.endMs - 60);
            g.SetOp(c, t);
            if (g.r.chance(0.2))
                for (int k = (int)g.r.range(1, 5); k > 0; --k)
                    g.SetOp(c, t + LogU(g.r, 1, 500));
        }
        for (int i = (int)g.r.range(0, 8); i > 0 && !writable.empty(); --i)
            g.OnOp(g.r.pick(writable), 50 + g.r.unit() * (g.endMs - 60));
        g.quiesceMs = 40000;
        return g.Finish("C06", faults ? "faults" : "clean");
    }

    void Judge(Ctx& c)
    {
        Values(c);
        if (c.out.end != "ok")
            return;
        Converged(c);
        auto shown = ShownStates(c);
        ns_t slack = sim::SEC + c.StallSlack();
        auto rebooted = [&](int port, int slave, ns_t a, ns_t b) {
            for (auto& e: H.slaves)
                if (e.port == port && e.slave == slave && e.t >= a && e.t <= b)
                    return true;
            return false;
        };
        // packets are confirmed only after they have arrived
        for (auto& k: H.confirms) {
            if (k.sent.empty())
                continue;
            ++H.probes["judged"];
            auto& first = H.frames[k.sent[0]];
            if (rebooted(k.port, k.slave, first.t0 - 20 * sim::SEC, k.t))
                continue; // the flag of an earlier life may happen to fit
            bool any = false;
            for (int i: k.sent) {
                auto& f = H.frames[i];
                any |= f.replied || f.fate == "unheard" || f.fate == "destroyed" || f.fate == "late" || c.HostFault(k.port, f.t0, f.rsp1 + sim::SEC);
            }
            if (!any)
                c.Add("confirmed_unread", FrameStr(c, H.frames[k.frame]) + ": confirms an event packet of device " + std::to_string(Ports[k.port]->slaves[k.slave]->id) +
                                              " that never arrived undamaged, sent in answer to " + FrameStr(c, H.frames[k.sent.back()]));
        }
        // what has been reported is shown
        std::map<std::array<int, 4>, std::vector<int>> at;
        for (size_t ci = 0; ci < c.chans.size(); ++ci)
            if (c.chans[ci].regs.size() == 1 && (c.chans[ci].sporadic || c.chans[ci].semi)) {
                auto& r = c.chans[ci].regs[0];
                at[{r.port, r.slave, r.space, r.addr}].push_back((int)ci);
            }
        for (auto& e: H.events) {
            if (e.reboot)
                continue;
            auto& f = H.frames[e.frame];
            auto i = at.find({e.port, e.slave, e.type - 1, e.id});
            if (i == at.end() || !Intact(c, f) || f.rsp1 + slack > H.tTerm)
                continue;
            for (int ci: i->second) {
                auto& ch = c.chans[ci];
                auto& r = ch.regs[0];
                std::vector<int> w{(int)(e.val & 0xFFFF)};
                if (r.words == 2)
                    w = {(int)(e.val >> 16 & 0xFFFF), (int)(e.val & 0xFFFF)};
                ++H.probes["judged"];
                bool ok = false;
                std::string last;
                for (auto& s: shown[ci]) {
                    if (s.t > f.rsp1 + slack)
                        break;
                    if (s.t < f.rsp1)
                        ok = false;
                    if (s.err.find('w') != std::string::npos)
                        ok = true; // not updated while a command has failed
                    if (!s.val.empty()) {
                        last = s.val;
                        ok |= PartMatches(ch, r, w, s.val);
                    }
                }
                if (!ok)
                    c.Add("event_not_shown", "control " + ch.dev + "/" + ch.ctl + " does not show " + Text(r, w) + ", which was reported by an event in answer to " +
                                                 FrameStr(c, f) + (last.empty() ? "; it shows nothing" : "; it shows \"" + last + "\""));
            }
        }
        // a device that says it has rebooted is set up again
        for (auto& e: H.events) {
            if (!e.reboot)
                continue;
            auto& f = H.frames[e.frame];
            ns_t until = f.rsp1 + 8 * sim::SEC + 4 * c.StallSlack();
            if (!Intact(c, f) || until > H.tTerm || c.HostFault(e.port, f.rsp1, until))
                continue;
            bool fault = true; // or a device without events
            for (auto& ch: c.chans)
                if (ch.regs[0].port == e.port && ch.regs[0].slave == e.slave && (ch.sporadic || ch.semi))
                    fault = false;
            for (auto& x: c.plan["faults"])
                if (x["port"].asInt() == e.port && sim::ns_t(x["t0"].asDouble() * sim::MS) < until && sim::ns_t(x["t1"].asDouble() * sim::MS) > f.rsp1)
                    fault = true;
            if (fault)
                continue;
            ++H.probes["judged"];
            bool again = false;
            for (size_t k = e.frame + 1; k < H.frames.size() && H.frames[k].t0 < until; ++k) {
                auto& n = H.frames[k];
                again |= n.port == e.port && n.unit == Ports[e.port]->slaves[e.slave]->id && n.fn == 0x46 && n.b.size() > 2 && (uint8_t)n.b[2] == 0x18;
            }
            if (!again)
                c.Add("not_set_up_again", "device " + std::to_string(Ports[e.port]->slaves[e.slave]->id) + " on port " + std::to_string(e.port) + " reported its reboot in answer to " +
                                              FrameStr(c, f) + ", but its events were not enabled again by " + c.Ms(until));
        }
        // after the quiet time
        for (auto& p: Ports)
            for (auto& s: p->slaves) {
                if (!s->fast || !s->up || s->mute || s->oldFw)
                    continue;
                bool reports = false;
                for (size_t ci = 0; ci < c.chans.size(); ++ci) {
                    auto& ch = c.chans[ci];
                    auto& r = ch.regs[0];
                    if (r.port != p->idx || r.slave != s->idx || !(ch.sporadic || ch.semi) || !s->evSupported.count({r.space, r.addr}))
                        continue;
                    ++H.probes["judged"];
                    reports |= s->evEnabled.count({r.space + 1, r.addr}) > 0;
                    // a device that did not answer is polled
                    bool polled = false;
                    for (auto f = H.frames.rbegin(); f != H.frames.rend() && f->t0 > H.tTerm - 15 * sim::SEC; ++f)
                        polled |= f->port == r.port && f->slave == r.slave && IsRead(*f) && SpaceOf(f->fn) == r.space && f->addr <= r.addr && f->addr + f->count > r.addr;
                    if (!s->evEnabled.count({r.space + 1, r.addr}) && !polled)
                        c.Add("not_enabled", "events of " + ch.dev + "/" + ch.ctl + " are not enabled at " + c.Ms(H.tTerm) + " and it is not polled, although its device has been well since " +
                                                 c.Ms(H.tActiveEnd));
                }
                bool asked = false; // a device whose answer to the request that enables the events was lost is polled
                for (auto f = H.frames.rbegin(); f != H.frames.rend() && f->t0 > H.tTerm - 10 * sim::SEC; ++f)
                    asked |= f->port == p->idx && f->unit == 0xFD;
                if (reports && asked && (s->evWaiting || !s->evQueue.empty()))
                    c.Add("not_read", "device " + std::to_string(s->id) + " on port " + std::to_string(p->idx) + " still has events to report at " + c.Ms(H.tTerm));
            }
        // events cannot be read for a long time: what depends on them is marked
        for (auto& p: Ports) {
            const Frame *from = nullptr, *last = nullptr;
            int n = 0;
            auto flush = [&](const Frame* end) {
                if (from && n >= 12 && last->t0 - from->t0 > 12 * sim::SEC + 4 * c.StallSlack())
                    for (size_t ci = 0; ci < c.chans.size(); ++ci) {
                        auto& ch = c.chans[ci];
                        if (ch.regs[0].port != p->idx || !ch.sporadic)
                            continue;
                        ++H.probes["judged"];
                        // it is marked, or asked for
                        ns_t a = from->t0, b = last->t0;
                        bool marked = false;
                        for (size_t k = 0; k < shown[ci].size(); ++k)
                            marked |= shown[ci][k].err.find('r') != std::string::npos && shown[ci][k].t <= b && (k + 1 == shown[ci].size() || shown[ci][k + 1].t >= a);
                        for (auto& f: H.frames)
                            marked |= f.port == p->idx && f.slave == ch.regs[0].slave && f.t0 > a && f.t0 < b && IsRead(f) && SpaceOf(f.fn) == ch.regs[0].space &&
                                      f.addr <= ch.regs[0].addr && f.addr + f.count > ch.regs[0].addr;
                        if (!marked)
                            c.Add("not_marked", "events on port " + std::to_string(p->idx) + " could not be read from " + c.Ms(a) + " to " + c.Ms(b) + ", but " + ch.dev + "/" + ch.ctl +
                                                    " shows no error and is not polled");
                    }
                (void)end;
                from = nullptr;
                n = 0;
            };
            for (auto& f: H.frames) {
                if (f.port != p->idx || f.unit != 0xFD || f.b.size() < 5 || f.b[2] != 0x10)
                    continue;
                if (f.replied || f.fate == "unheard" || f.fate == "destroyed" || f.fate == "late") {
                    flush(&f);
                    continue;
                }
                if (!from)
                    from = &f;
                last = &f;
                ++n;
            }
            flush(nullptr);
        }
    }
}
static Register r06("C06", Gen, Judge);
