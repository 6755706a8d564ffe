// C08: requests respect the device's limits; an absent register harms only itself
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    Json::Value Gen(uint64_t seed, bool)
    {
        G g(seed);
        g.o.wo = 0;
        g.o.chansMax = (int)g.r.range(6, 30);
        g.o.slavesMax = 2;
        g.o.holes = g.r.chance(0.5) ? 0.3 : g.r.unit();
        g.o.wbDev = g.r.chance(0.3) ? 0.5 : 0;
        g.o.bits = g.r.chance(0.3) ? 0.7 : 0.25;
        g.o.u16only = g.r.chance(0.4) ? 0.7 : 0;
        g.o.rateLimit = 0.1;
        g.o.deviceOpts = 0.2;
        g.o.io = 0.08;
        g.o.slowBaud = g.r.chance(0.2);
        g.endMs = g.r.range(3000, 15000);
        g.quiesceMs = 30000;
        g.Ports();
        double bad = g.r.chance(0.3) ? 0 : g.r.unit() * 0.6;
        bool lacking = false;
        for (auto& p: g.ports)
            for (auto& s: p.slaves) {
                int widest = 1;
                for (int c: s.chans)
                    for (auto& x: g.chans[c].regs)
                        widest = std::max(widest, x.words);
                if (g.r.chance(0.85))
                    s.cfg["max_read_registers"] = g.r.chance(0.1) ? 0 : (int)LogU(g.r, 1, g.r.chance(0.3) ? 125 : 20);
                int lim = s.cfg.get("max_read_registers", 1).asInt();
                s.world["maxRead"] = lim ? std::max(lim, widest) : 125;
                if (g.r.chance(0.7))
                    s.cfg["max_reg_hole"] = (int)g.r.range(0, 20);
                if (g.r.chance(0.6))
                    s.cfg["max_bit_hole"] = (int)g.r.range(0, 30);
                if (g.r.chance(0.4)) {
                    s.cfg["max_write_registers"] = (int)g.r.range(1, 20);
                    s.world["maxWrite"] = std::max(s.cfg["max_write_registers"].asInt(), widest);
                }
                // devices that have something between the registers
                double full = g.r.chance(0.5) ? g.r.unit() : g.r.chance(0.5);
                for (int sp = 0; sp < 4; ++sp) {
                    int lo = -1, hi = -1;
                    for (int c: s.chans)
                        for (auto& x: g.chans[c].regs)
                            if (x.space == sp) {
                                lo = lo < 0 ? x.addr : std::min(lo, x.addr);
                                hi = std::max(hi, x.addr + x.words);
                            }
                    for (int a = lo; lo >= 0 && a < hi; ++a)
                        if (!s.mem.count({sp, a}) && g.r.chance(full))
                            s.mem[{sp, a}] = sp < 2 ? (int)g.r.below(2) : (int)g.r.below(65536);
                }
                if (!s.wb && g.r.chance(0.7))
                    for (int c: s.chans)
                        for (auto& x: g.chans[c].regs)
                            if (g.r.chance(bad)) {
                                Json::Value e;
                                e.append(x.space);
                                e.append(x.addr + (int)g.r.below(x.words));
                                e.append((int)g.r.range(1, 3));
                                s.world["excRead"].append(e);
                                lacking = true;
                            }
            }
        if (g.r.chance(0.6)) {
            if (!lacking)
                g.Faults(LineFaults, (int)g.r.range(1, 5), 0, g.endMs, 4000);
            else // a lost device that lacks registers may be found late
                for (int i = (int)g.r.range(1, 4); i > 0; --i) {
                    static const std::vector<std::string> k{"drop_req", "drop_rsp", "trunc", "delay", "exc"};
                    auto& p = g.r.pick(g.ports);
                    auto& s = g.r.pick(p.slaves);
                    auto kind = g.r.pick(k);
                    double t0 = g.r.unit() * g.endMs;
                    g.Fault(kind, t0, std::min(g.endMs, t0 + LogU(g.r, 50, 3000)), s.port, s.idx);
                    g.LastFault()["p"] = g.r.unit();
                    if (kind == "exc")
                        g.LastFault()["arg"] = g.r.chance(0.5) ? 6 : 8;
                    if (kind == "delay")
                        g.LastFault()["arg"] = (int)g.r.range(1, 80);
                }
            if (g.r.chance(0.3)) {
                auto& p = g.r.pick(g.ports);
                auto& s = g.r.pick(p.slaves);
                double t0 = g.r.unit() * g.endMs;
                g.Fault(g.r.chance(0.5) ? "offline" : "reboot", t0, std::min(g.endMs, t0 + LogU(g.r, 200, 8000)), s.port, s.idx);
                if (lacking)
                    g.quiesceMs = 100000;
            }
        }
        for (int i = (int)g.r.range(0, 20); i > 0; --i) {
            int c = (int)g.r.below(g.chans.size());
            double t = 50 + g.r.unit() * (g.endMs - 60);
            if (!g.chans[c].regs[0].ro && g.r.chance(0.3))
                g.OnOp(c, t);
            else
                g.SetOp(c, t);
        }
        return g.Finish("C08", lacking ? "lacking" : "complete");
    }

    struct CR // configured register
    {
        const Chan* ch;
        const Reg* r;
        bool absent;
    };
    void Judge(Ctx& c)
    {
        std::map<std::pair<int, int>, std::vector<CR>> regs;
        for (auto& ch: c.chans)
            for (auto& r: ch.regs) {
                auto& s = *Ports[r.port]->slaves[r.slave];
                CR x{&ch, &r, false};
                for (int i = 0; i < r.words; ++i)
                    x.absent |= s.excRead.count({r.space, r.addr + i}) > 0;
                regs[{r.port, r.slave}].push_back(x);
            }
        std::map<const Reg*, int> again; // late refused requests for an absent register
        std::map<std::pair<int, int>, bool> answers;
        std::map<std::pair<int, int>, int> refusedRange; // late refused requests for several registers
        ns_t quiet = H.tActiveEnd + (c.plan["quiesceMs"].asInt64() / 2) * sim::MS;
        for (auto& f: H.frames) {
            int dev = f.slave >= 0 ? f.slave : c.SlaveByUnit(f.port, f.unit);
            if (dev < 0 || f.port < 0 || !regs.count({f.port, dev}))
                continue;
            const auto& cfg = c.plan["config"]["ports"][f.port]["devices"][dev];
            bool cont = Ports[f.port]->slaves[dev]->wb;
            auto& rs = regs[{f.port, dev}];
            std::string who = FrameStr(c, f);
            if (f.fn == 15 || f.fn == 16) {
                int lim = cfg.get("max_write_registers", 123).asInt();
                if (lim <= 0 || lim > 123)
                    lim = 123;
                bool own = f.count == 1;
                for (auto& x: rs)
                    own |= x.r->space == SpaceOf(f.fn) && f.count <= x.r->words;
                ++H.probes["writes_sized"];
                if (f.count > lim && !own)
                    c.Add("write_too_long", "request writes " + std::to_string(f.count) + " registers at once although the device takes " +
                                                std::to_string(lim) + ": " + who);
                continue;
            }
            if (!IsRead(f))
                continue;
            bool any = false, starts = false;
            int single = 0;
            std::vector<char> cover(f.count, 0);
            for (auto& x: rs) {
                if (x.r->space != SpaceOf(f.fn) || x.r->addr >= f.addr + f.count || x.r->addr + x.r->words <= f.addr)
                    continue;
                any = true;
                if (x.r->addr == f.addr) {
                    starts = true;
                    single = std::max(single, x.r->words);
                }
                for (int a = std::max(x.r->addr, f.addr); a < std::min(f.addr + f.count, x.r->addr + x.r->words); ++a)
                    cover[a - f.addr] = 1;
            }
            if (!any)
                continue; // not a polling request
            ++H.probes["judged"];
            bool bit = SpaceOf(f.fn) < 2;
            int lim = cfg.get("max_read_registers", 1).asInt();
            if (lim <= 0 || lim > (bit ? 2000 : 125))
                lim = bit ? 2000 : 125;
            if (f.count > 1)
                ++H.probes["ranges"];
            if (f.count > lim && f.count != single)
                c.Add("read_too_long", "request reads " + std::to_string(f.count) + " registers at once although the device gives " +
                                           std::to_string(lim) + ": " + who);
            if (!starts)
                c.Add("odd_start", "request starts at no configured register: " + who);
            int hole = cfg.get(bit ? "max_bit_hole" : "max_reg_hole", 0).asInt();
            if (cont)
                hole = std::max(hole, bit ? 80 : 10);
            int gap = 0, worst = 0;
            for (int i = 0; i < f.count; ++i) {
                gap = cover[i] ? 0 : gap + 1;
                worst = std::max(worst, gap);
            }
            if (worst)
                ++H.probes["holes_read"];
            if (worst > hole)
                c.Add("hole_too_big", "request reads over a gap of " + std::to_string(worst) + " registers although " + std::to_string(hole) +
                                          " are allowed: " + who);
            if (gap)
                c.Add("tail", "request ends with registers nobody asked for: " + who);
            // registers that are known to be absent are left alone
            if (Intact(c, f) && f.t0 > quiet && f.t0 < H.tTerm) {
                if (!f.exc)
                    answers[{f.port, dev}] = true;
                else if (f.exc <= 3 && f.count > single)
                    ++refusedRange[{f.port, dev}];
                else if (f.exc <= 3)
                    for (auto& x: rs)
                        if (x.absent && x.r->addr == f.addr && x.r->words == f.count && x.r->space == SpaceOf(f.fn))
                            ++again[x.r];
            }
        }
        // a device that answers is not lost
        std::set<std::pair<int, int>> flaps;
        for (auto& kv: regs) {
            auto& rs = kv.second;
            int n = 0;
            bool early = false;
            ns_t first = 0, last = 0;
            const auto& cfg = c.plan["config"]["ports"][kv.first.first]["devices"][kv.first.second];
            std::vector<const Frame*> fr;
            for (auto& f: H.frames)
                if (f.port == kv.first.first && (f.slave >= 0 ? f.slave : c.SlaveByUnit(f.port, f.unit)) == kv.first.second)
                    fr.push_back(&f);
            std::stable_sort(fr.begin(), fr.end(), [](auto a, auto b) { return a->t0 < b->t0; });
            bool lost = false;
            for (auto& p: H.pubs) {
                if (p.what != 'd' || p.dev != rs[0].ch->dev)
                    continue;
                bool now = !p.err.empty();
                if (now && !lost && p.t > H.tActiveEnd && p.t < H.tTerm) {
                    // was it refused only?
                    bool other = false;
                    int refused = 0;
                    ns_t good = 0;
                    for (size_t i = fr.size(); i-- > 0;) {
                        auto& f = *fr[i];
                        if (f.t0 >= p.t)
                            continue;
                        if (Intact(c, f) && f.exc >= 1 && f.exc <= 3)
                            ++refused;
                        else {
                            good = f.rsp1;
                            other = !(Intact(c, f) && !f.exc);
                            break;
                        }
                    }
                    if (refused && !other) {
                        if (!n++)
                            first = p.t;
                        last = p.t;
                        early |= p.t - good < cfg.get("device_timeout_ms", 3000).asInt() * sim::MS ||
                                 refused < cfg.get("device_max_fail_cycles", 2).asInt();
                        flaps.insert(kv.first);
                    }
                }
                lost = now;
            }
            if (n > 2)
                c.Add("lost_while_answering", "device " + rs[0].ch->dev + ", which answers every request, is taken for lost " + std::to_string(n) +
                                                  " times between " + c.Ms(first) + " and " + c.Ms(last) + " because it refuses absent registers" +
                                                  (early ? ", even before its timeout" : " for longer than its timeout"));
        }
        for (auto& kv: again)
            if (flaps.count({kv.first->port, kv.first->slave}))
                continue;
            else
            if (kv.second > 3 && answers[{kv.first->port, kv.first->slave}])
                c.Add("absent_asked_again", "register " + std::to_string(kv.first->addr) + " of port " + std::to_string(kv.first->port) + " slave " +
                                                std::to_string(kv.first->slave) + " is asked for " + std::to_string(kv.second) +
                                                " times although the device refused it for good");
        for (auto& kv: refusedRange)
            if (kv.second > 6 && !flaps.count(kv.first))
                c.Add("range_asked_again", "slave " + std::to_string(kv.first.second) + " of port " + std::to_string(kv.first.first) + " refused ranges of registers " +
                                               std::to_string(kv.second) + " times long after anything happened to it");
        if (c.out.end != "ok")
            return;
        auto shown = ShownStates(c);
        for (size_t ci = 0; ci < c.chans.size(); ++ci) {
            auto& ch = c.chans[ci];
            auto& sh = shown[ci];
            bool absent = false, up = true, press = false;
            for (auto& r: ch.regs) {
                auto& s = *Ports[r.port]->slaves[r.slave];
                up &= s.up && !s.mute;
                std::vector<int> w;
                press |= r.type == "press_counter" || !c.WordsAt(r, H.tTerm, w) || r.hasErr;
                for (int i = 0; i < r.words; ++i)
                    absent |= s.excRead.count({r.space, r.addr + i}) > 0;
            }
            if (!up || press)
                continue;
            if (flaps.count({ch.regs[0].port, ch.regs[0].slave}))
                continue;
            std::string nm = ch.dev + "/" + ch.ctl;
            bool r = !sh.empty() && sh.back().err.find('r') != std::string::npos;
            bool w = !sh.empty() && sh.back().err.find('w') != std::string::npos;
            ++H.probes[absent ? "absent_judged" : "present_judged"];
            if (absent && !r && !w)
                c.Add("absent_shown", "control " + nm + " has no read error at the end although its device refuses the register");
            if (!absent && r && sh.back().t < H.tTerm - (20 + 3 * std::max(ch.rateLimit, ch.readPeriod) / 1000) * sim::SEC)
                c.Add("present_unread", "control " + nm + " shows a read error since " + c.Ms(sh.back().t) + " although its device has the register");
            if (!absent && !r && !w && (sh.empty() || sh.back().val.empty()))
                c.Add("present_unread", "control " + nm + " has no value at the end although its device has the register");
        }
        if (flaps.empty())
            Converged(c);
    }
    static Register r08("C08", Gen, Judge);
}
