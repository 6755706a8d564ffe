// C05: polling keeps its promises
#include "oracle.h"
#include <algorithm>
#include <deque>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    Json::Value Gen(uint64_t seed, bool)
    {
        G g(seed);
        g.o.readPeriod = g.r.chance(0.5) ? 0 : 0.3;
        g.o.rateLimit = 0.15;
        g.o.wo = 0;
        g.o.partial = 0;
        g.o.holes = g.r.chance(0.3) ? 0.5 : 0;
        g.o.setup = 0.15;
        g.o.wbDev = 0.05;
        g.o.fast = g.r.chance(0.2) ? 0.4 : 0;
        g.o.slowBaud = g.r.chance(0.3);
        g.o.slavesMax = 4;
        g.o.chansMax = 9;
        g.o.writable = 0.5;
        g.o.delayMaxUs = g.r.chance(0.2) ? 60000 : 8000;
        g.o.stalls = g.r.chance(0.3);
        g.endMs = g.r.range(20000, 70000);
        g.quiesceMs = 45000;
        g.Ports();
        if (g.r.chance(0.15)) {
            int limit = (int)g.r.range(1, 60);
            g.plan["config"]["rate_limit"] = limit;
            g.quiesceMs += 4000.0 * g.chans.size() * 2 / limit;
        }
        // devices that lack registers; a lost one is found again only by a register it has
        double bad = g.r.chance(0.5) ? g.r.unit() : 0;
        if (bad == 0 && g.r.chance(0.3))
            for (auto& p: g.ports)
                for (auto& s: p.slaves)
                    if (!s.wb && g.r.chance(0.3)) {
                        double share = g.r.chance(0.5) ? 1 : 0.4;
                        for (int c: s.chans)
                            for (auto& x: g.chans[c].regs)
                                if (g.r.chance(share)) {
                                    Json::Value e;
                                    e.append(x.space);
                                    e.append(x.addr);
                                    e.append(2);
                                    s.world["excRead"].append(e);
                                }
                    }
        // silent, slow and disturbed devices
        for (auto& p: g.ports)
            for (auto& s: p.slaves)
                if (g.r.chance(bad)) {
                    double t0 = g.r.chance(0.4) ? 0 : g.r.unit() * g.endMs;
                    static const std::vector<std::string> k{"offline", "offline", "drop_req", "drop_rsp", "trunc", "exc", "delay"};
                    auto kind = g.r.pick(k);
                    g.Fault(kind, t0, g.r.chance(0.4) ? g.endMs : std::min(g.endMs, t0 + LogU(g.r, 200, 40000)), s.port, s.idx);
                    auto& f = g.LastFault();
                    if (kind != "offline")
                        f["p"] = g.r.chance(0.3) ? 1.0 : g.r.unit();
                    if (kind == "exc")
                        f["arg"] = g.r.chance(0.5) ? 6 : 4;
                    if (kind == "delay")
                        f["arg"] = (int)g.r.range(1, 80);
                }
        // commands, one after the other
        for (int i = (int)g.r.range(0, 3); i > 0; --i) {
            double t0 = g.r.unit() * g.endMs, t1 = std::min(g.endMs, t0 + LogU(g.r, 500, 30000)), step = LogU(g.r, 8, 1500);
            int one = g.r.chance(0.5) ? (int)g.r.below(g.chans.size()) : -1;
            int n = 0;
            for (double t = t0; t < t1 && n < 600; t += step * (0.5 + g.r.unit()), ++n) {
                int c = one >= 0 ? one : (int)g.r.below(g.chans.size());
                if (!g.chans[c].regs[0].ro)
                    g.OnOp(c, t);
            }
        }
        // requests, one after the other
        if (g.r.chance(0.5)) {
            int clients = (int)g.r.range(1, 3);
            for (int k = 0; k < clients; ++k) {
                auto& p = g.r.pick(g.ports);
                double t0 = g.r.unit() * g.endMs, t1 = std::min(g.endMs, t0 + LogU(g.r, 500, 20000)), step = LogU(g.r, 10, 800);
                for (int n = 0; n < 300 && t0 < t1; t0 += step * (0.5 + g.r.unit()), ++n) {
                    auto& s = g.r.pick(p.slaves);
                    auto q = g.PortReq(p);
                    q["slave_id"] = s.id;
                    q["protocol"] = p.kind == "mtcp" ? "modbus-tcp" : "modbus";
                    q["function"] = 3;
                    q["address"] = 40000 + n % 50;
                    q["count"] = (int)g.r.range(1, 50);
                    auto& op = g.RpcOp(t0, "port/Load", q);
                    op["c"] = k + 1;
                    op["turn"] = true; // waits for the answer to the previous one
                }
            }
        }
        for (int i = (int)g.r.range(0, 20); i > 0; --i)
            g.SetOp((int)g.r.below(g.chans.size()), 50 + g.r.unit() * (g.endMs - 60));
        return g.Finish("C05", bad > 0 ? "faults" : "calm");
    }

    struct PR // polled register
    {
        const Chan* ch;
        const Reg* r;
        int dev; // slave index
        ns_t last = -1;
        int lowSince = 0;
        ns_t taskSince = 0;
        int bad = 2; // good readings to wait for since the device did not answer something
        bool absent = false;
    };
    bool Debug = getenv("C05_DEBUG");

    void Judge(Ctx& c)
    {
        ns_t slack = c.StallSlack();
        int limit = c.plan["config"].get("rate_limit", 0).asInt();
        for (size_t pi = 0; pi < Ports.size(); ++pi) {
            auto& pw = *Ports[pi];
            const auto& pc = c.plan["config"]["ports"][(int)pi];
            auto slaveCfg = [&](int i, const char* k) -> Json::Value {
                // in the device section or in the template
                const auto& d = pc["devices"][i];
                return d.isMember(k) ? d[k] : Json::Value();
            };
            std::vector<PR> regs;
            std::map<int, int> perDev; // low registers
            ns_t byteT = pw.kind == "serial" ? 11 * sim::SEC / std::max(1, c.plan["ports"][(int)pi]["baud"].asInt()) : 0;
            ns_t respT = 500 * sim::MS;
            bool hasEvents = false;
            for (auto& s: pw.slaves) {
                auto v = slaveCfg(s->idx, "response_timeout_ms");
                if (v.isInt())
                    respT = std::max<ns_t>(respT, v.asInt() * sim::MS);
                hasEvents |= s->fast;
            }
            if (pc["response_timeout_ms"].isInt())
                respT = std::max<ns_t>(respT, pc["response_timeout_ms"].asInt() * sim::MS);
            ns_t maxCost = respT + (pw.kind == "serial" ? 100 * sim::MS : 700 * sim::MS) + byteT * 280 + 150 * sim::MS;
            int writable = 0;
            for (auto& ch: c.chans)
                for (auto& r: ch.regs) {
                    if (r.port != (int)pi)
                        continue;
                    writable += !r.ro;
                    if (r.wo)
                        continue;
                    auto& s = *pw.slaves[r.slave];
                    PR x{&ch, &r, r.slave};
                    for (int i = 0; i < r.words; ++i)
                        x.absent |= s.excRead.count({r.space, r.addr + i}) > 0;
                    if (ch.sporadic || ch.semi)
                        x.absent = true; // events
                    regs.push_back(x);
                    if (!ch.readPeriod)
                        ++perDev[r.slave];
                }
            if (regs.empty())
                continue;
            int M = (int)perDev.size(), nMax = 0, clients = 4;
            for (auto& kv: perDev)
                nMax = std::max(nMax, kv.second);
            // what high priority registers need
            double load = 0;
            ns_t hiRound = 0;
            auto cost = [&](const Frame& f) -> ns_t { return f.rsp1 > f.t0 && f.fate.empty() ? f.rsp1 - f.t0 + 50 * sim::MS : maxCost; };
            std::vector<const Frame*> fr;
            for (auto& f: H.frames)
                if (f.port == (int)pi)
                    fr.push_back(&f);
            std::stable_sort(fr.begin(), fr.end(), [](auto a, auto b) { return a->t0 < b->t0; });
            int hiN = 0;
            for (auto& x: regs)
                if (x.ch->readPeriod) {
                    ++hiN;
                    ns_t est = byteT * (8 + 5 + 2 * x.r->words) + 30 * sim::MS + (pw.kind == "serial" ? 40 * sim::MS : 0);
                    auto d = c.plan["ports"][(int)pi]["slaves"][x.dev]["delayUs"];
                    est += d[1].asInt64() * 1000 + 10 * sim::MS;
                    hiRound += est;
                    load += (double)est / (x.ch->readPeriod * 1e6);
                }
            ns_t lastLow = -1, lastPoll = -1, taskSinceLow = 0, taskSincePoll = 0, eventSinceLow = 0;
            bool lowFault = true;
            std::map<int, ns_t> devLastLow; // end of the last low priority reading
            std::deque<ns_t> lowTimes;
            std::map<int, std::deque<ns_t>> lostPolls;
            size_t maxRange = 1;
            std::map<int, ns_t> badDev, badSince, goodDev; // last failure of a device, since when it fails, last success
            auto T = [&](ns_t t) { return c.Ms(t); };
            auto gone = [&](ns_t a, ns_t b) { return c.HostFault((int)pi, a, b); };
            for (auto* fp: fr) {
                auto& f = *fp;
                if (f.t0 > H.tTerm)
                    break;
                int dev = f.slave >= 0 ? f.slave : c.SlaveByUnit((int)pi, f.unit);
                std::vector<PR*> cov;
                if (IsRead(f) && dev >= 0)
                    for (auto& x: regs)
                        if (x.dev == dev && x.r->space == SpaceOf(f.fn) && f.addr < x.r->addr + x.r->words && x.r->addr < f.addr + f.count)
                            cov.push_back(&x);
                bool failed = dev >= 0 && (!f.replied || f.exc || !Intact(c, f));
                if (failed) {
                    if (!badDev.count(dev) || badDev[dev] < f.t0 - 20 * sim::SEC)
                        badSince[dev] = f.t0;
                    badDev[dev] = f.t0;
                    for (auto& x: regs)
                        if (x.dev == dev)
                            x.bad = 2;
                } else if (dev >= 0)
                    goodDev[dev] = f.t0;
                bool event = f.unit == 0xFD || (f.fn == 0x46);
                if (cov.empty()) {
                    if (event) {
                        eventSinceLow += cost(f);
                        lastPoll = f.t0;
                        taskSincePoll = 0;
                    } else {
                        ns_t k = cost(f);
                        taskSinceLow += k;
                        taskSincePoll += k;
                        for (auto& x: regs)
                            x.taskSince += k;
                    }
                    continue;
                }
                // a lost device is left alone more and more
                auto& lp = lostPolls[dev];
                if (failed && goodDev[dev] < f.t0 - 30 * sim::SEC && badSince[dev] < f.t0 - 30 * sim::SEC && !gone(f.t0 - 40 * sim::SEC, f.t0)) {
                    lp.push_back(f.t0);
                    while (lp.front() < f.t0 - 10 * sim::SEC)
                        lp.pop_front();
                    ++H.probes["judged"];
                    if (Debug)
                        printf("LOST %zu of 8\n", lp.size());
                    if (lp.size() > 8)
                        c.Add("lost_device_hammered", "the device of " + FrameStr(c, f) + " has not answered for " + std::to_string((f.t0 - std::max(goodDev[dev], c.T0)) / sim::SEC) + " s, but was asked " + std::to_string(lp.size()) + " times in the last 10 s");
                } else
                    lp.clear();
                bool hi = true, low = true;
                for (auto* x: cov) {
                    hi &= x->ch->readPeriod > 0;
                    low &= x->ch->readPeriod == 0;
                }
                // tasks do not keep the port for themselves
                bool anyGood = false;
                for (auto& x: regs)
                    anyGood |= !x.absent && !x.bad;
                if (lastPoll >= 0 && anyGood && !gone(lastPoll, f.t0)) {
                    ++H.probes["judged"];
                    ns_t most = (writable * 2 + clients + 4) * maxCost + slack;
                    if (taskSincePoll > most)
                        c.Add("tasks_starve_polling", "nothing was polled on port " + std::to_string(pi) + " from " + T(lastPoll) + " to " + T(f.t0) + ", the line was used for commands and requests");
                }
                lastPoll = f.t0;
                taskSincePoll = 0;
                if (low) {
                    bool can = false;
                    for (auto& x: regs)
                        can |= !x.ch->readPeriod && !x.ch->rateLimit && !x.absent && !slaveCfg(x.dev, "min_request_interval").isInt() && (!badDev.count(x.dev) || badDev[x.dev] < lastLow - 40 * sim::SEC);
                    if (limit)
                        can = false;
                    if (lastLow >= 0 && can && !gone(lastLow, f.t0)) {
                        ++H.probes["judged"];
                        ns_t d = f.t0 - lastLow - taskSinceLow - eventSinceLow;
                        ns_t most = 3 * sim::SEC + 3 * maxCost + 2 * hiRound + slack;
                        if (Debug)
                            printf("LOW %zu %.3f of %.3f\n", pi, d / 1e9, most / 1e9);
                        if (d > most)
                            c.Add("low_priority_starves", "no register without a read period was read on port " + std::to_string(pi) + " from " + T(lastLow) + " to " + T(f.t0));
                    }
                    // not more often than the configured number per second
                    lastLow = f.t0;
                    taskSinceLow = eventSinceLow = 0;
                    for (auto& x: regs)
                        ++x.lowSince;
                    if (limit) {
                        for (size_t i = 0; i < cov.size(); ++i)
                            lowTimes.push_back(f.t0);
                        while (!lowTimes.empty() && lowTimes.front() < f.t0 - sim::SEC)
                            lowTimes.pop_front();
                        ++H.probes["judged"];
                        maxRange = std::max(maxRange, cov.size());
                        int most = 2 * (limit + 2 * (int)maxRange) + 2;
                        if (Debug)
                            printf("LIMIT %zu of %d\n", lowTimes.size(), most);
                        if ((int)lowTimes.size() > most)
                            c.Add("rate_limit_exceeded", std::to_string(lowTimes.size()) + " registers were read on port " + std::to_string(pi) + " within the second before " + T(f.t0) + ", the limit is " + std::to_string(limit));
                    }
                    auto mi = slaveCfg(dev, "min_request_interval");
                    // a lost device has a delay of its own
                    if (mi.isInt() && devLastLow.count(dev) && (!badDev.count(dev) || badDev[dev] < devLastLow[dev] - 20 * sim::SEC) && !gone(devLastLow[dev] - sim::SEC, f.t0)) {
                        ++H.probes["judged"];
                        if (f.t0 - devLastLow[dev] < (mi.asInt() - 2) * sim::MS)
                            c.Add("min_interval", FrameStr(c, f) + " follows the previous reading of the device after " + std::to_string((f.t0 - devLastLow[dev]) / 1000000) + " ms, min_request_interval is " + std::to_string(mi.asInt()) + " ms");
                    }
                    devLastLow[dev] = f.rsp1 ? f.rsp1 : f.t1;
                }
                for (auto* x: cov) {
                    std::string nm = x->ch->dev + "/" + x->ch->ctl;
                    if (!failed && x->last >= 0 && !x->bad && !x->absent && !gone(x->last - 100 * sim::MS, f.t0)) {
                        ns_t d = f.t0 - x->last;
                        bool other = pw.slaves[dev]->wb || (pc["devices"][dev].isMember("max_reg_hole") && pc["devices"][dev]["max_reg_hole"].asInt()) || (pc["devices"][dev].isMember("max_bit_hole") && pc["devices"][dev]["max_bit_hole"].asInt()) || !pw.slaves[dev]->id;
                        ns_t early = 2 * sim::MS + 200 * sim::MS + slack;
                        if (x->ch->rateLimit && !x->ch->readPeriod && !other && cov.size() == 1) {
                            ++H.probes["judged"];
                            if (Debug)
                                printf("RATE %.3f of %.3f\n", d / 1e9, x->ch->rateLimit / 1e3);
                            if (d + early < x->ch->rateLimit * sim::MS)
                                c.Add("read_too_often", nm + " was read at " + T(x->last) + " and again at " + T(f.t0) + ", read_rate_limit_ms is " + std::to_string(x->ch->rateLimit));
                        }
                        if (x->ch->readPeriod && !other && cov.size() == 1) {
                            ++H.probes["judged"];
                            if (d + early < x->ch->readPeriod * sim::MS)
                                c.Add("read_too_often", nm + " was read at " + T(x->last) + " and again at " + T(f.t0) + ", read_period_ms is " + std::to_string(x->ch->readPeriod));
                        }
                        // a device that fails takes the line's time until it is known to be lost
                        bool fresh = false;
                        int lost = 0;
                        for (auto& kv: badDev)
                            if (kv.second > x->last - 20 * sim::SEC) {
                                fresh |= badSince[kv.first] > x->last - 15 * sim::SEC || goodDev[kv.first] > x->last - 15 * sim::SEC;
                                ++lost;
                            }
                        if (x->ch->readPeriod && load < 0.5 && !fresh) {
                            ++H.probes["judged"];
                            ns_t most = x->ch->readPeriod * sim::MS + x->taskSince + 2 * hiRound + (2 + lost) * maxCost + 500 * sim::MS + slack;
                            if (Debug)
                                printf("HI %.3f of %.3f\n", d / 1e9, most / 1e9);
                            if (d > most)
                                c.Add("read_too_rarely", nm + " with read_period_ms " + std::to_string(x->ch->readPeriod) + " was read at " + T(x->last) + " and then only at " + T(f.t0));
                        }
                        if (!x->ch->readPeriod && !x->ch->rateLimit && !slaveCfg(dev, "min_request_interval").isInt()) {
                            ++H.probes["judged"];
                            int most = 4 * nMax * M + 40;
                            if (Debug)
                                printf("FAIR %d of %d\n", x->lowSince, most);
                            if (x->lowSince > most)
                                c.Add("unfair", nm + " was read at " + T(x->last) + " and then only at " + T(f.t0) + ", after " + std::to_string(x->lowSince) + " other readings");
                        }
                    }
                    x->bad = failed ? 2 : std::max(0, x->bad - 1);
                    x->last = f.t0;
                    x->lowSince = 0;
                    x->taskSince = 0;
                }
            }
            // up to the end
            for (auto& x: regs) {
                if (x.absent || x.bad || x.last < 0 || limit || gone(x.last - 100 * sim::MS, H.tTerm) || c.out.end != "ok")
                    continue;
                ++H.probes["judged"];
                ns_t most = std::max(x.ch->readPeriod, x.ch->rateLimit) * sim::MS + (ns_t)(nMax * M + 10) * (sim::SEC + 2 * maxCost) + x.taskSince + slack;
                if (H.tTerm - x.last > most)
                    c.Add("starved", x.ch->dev + "/" + x.ch->ctl + " was read at " + T(x.last) + " and never again until " + T(H.tTerm));
            }
        }
        Converged(c);
    }
}
static Register r05("C05", Gen, Judge);
