// C19: values are published as the configured policy says
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    Json::Value Gen(uint64_t seed, bool deep)
    {
        sim::Rng r(seed ^ 0x19C19ULL);
        auto policy = [&](Json::Value& cfg) {
            if (r.chance(0.25))
                cfg["max_unchanged_interval"] = -1;
            else if (r.chance(0.35))
                cfg["max_unchanged_interval"] = 0;
            else if (r.chance(0.7))
                cfg["max_unchanged_interval"] = (int)r.range(1, 20);
        };
        if (r.chance(0.3))
            for (auto& p: Props())
                if (std::string(p.id) == "C06") {
                    auto plan = p.gen(seed, deep);
                    policy(plan["config"]);
                    plan["profile"] = "events";
                    plan["prop"] = "C19";
                    return plan;
                }
        G g(seed);
        g.o.readPeriod = 0.1;
        g.o.errval = 0.05;
        g.o.wo = 0.3;
        g.o.press = 1;
        g.o.slavesMax = 3;
        g.o.chansMax = 6;
        g.endMs = g.r.range(8000, 60000);
        policy(g.plan["config"]);
        g.Ports();
        if (g.r.chance(0.5))
            for (int i = (int)g.r.range(1, 4); i > 0; --i) {
                static const std::vector<std::string> k{"offline", "power", "drop_rsp", "drop_req", "offline"};
                int port = (int)g.r.below(g.ports.size());
                int slave = (int)g.r.below(g.ports[port].slaves.size());
                double t0 = g.r.unit() * g.endMs * 0.8;
                g.Fault(g.r.pick(k), t0, std::min(g.endMs, t0 + LogU(g.r, 1000, 40000)), port, slave);
            }
        if (g.r.chance(0.25))
            g.Faults(LineFaults, (int)g.r.range(1, 4), 0, g.endMs, 6000);
        std::vector<int> w, press;
        for (size_t i = 0; i < g.chans.size(); ++i) {
            if (!g.chans[i].regs[0].ro)
                w.push_back((int)i);
            if (g.chans[i].regs[0].type == "press_counter")
                press.push_back((int)i);
        }
        for (int i = (int)g.r.range(0, 8); i > 0 && !w.empty(); --i)
            g.OnOp(g.r.pick(w), 50 + g.r.unit() * (g.endMs - 60));
        for (int c: w)
            if (g.chans[c].type == "pushbutton")
                for (int i = (int)g.r.range(0, 8); i > 0; --i)
                    g.OnOp(c, 50 + g.r.unit() * (g.endMs - 60));
        for (int i = (int)g.r.range(0, 20); i > 0; --i)
            g.SetOp((int)g.r.below(g.chans.size()), 50 + g.r.unit() * (g.endMs - 60));
        for (int i = press.empty() || g.r.chance(0.5) ? 0 : (int)g.r.range(0, 12); i > 0; --i)
            g.SetOp(g.r.pick(press), 50 + g.r.unit() * (g.endMs - 60));
        // a device that starts anew counts from zero
        for (auto& f: g.plan["faults"])
            for (int p: press)
                if (f["slave"].asInt() == g.chans[p].regs[0].slave && f["port"].asInt() == g.chans[p].regs[0].port && g.r.chance(0.7)) {
                    Json::Value op;
                    op["k"] = "set";
                    op["t"] = f["t0"].asDouble() + g.r.unit() * (f["t1"].asDouble() - f["t0"].asDouble());
                    op["port"] = f["port"];
                    op["slave"] = f["slave"];
                    op["s"] = g.chans[p].regs[0].space;
                    op["a"] = g.chans[p].regs[0].addr;
                    op["v"].append(0);
                    g.plan["ops"].append(op);
                    if (g.r.chance(0.8)) {
                        op["t"] = f["t1"].asDouble() + LogU(g.r, 1000, 15000);
                        auto& m = g.SlaveOf(g.chans[p]).mem;
                        op["v"][0] = g.r.chance(0.6) && m.count({g.chans[p].regs[0].space, g.chans[p].regs[0].addr}) ? m[{g.chans[p].regs[0].space, g.chans[p].regs[0].addr}] : (int)g.r.range(1, 9);
                        g.plan["ops"].append(op);
                    }
                }
        return g.Finish("C19", g.plan["faults"].empty() ? "clean" : "faults");
    }
    bool Debug = getenv("C19_DEBUG");
    void Judge(Ctx& c)
    {
        if (c.out.end != "ok")
            return;
        int iv = c.plan["config"].get("max_unchanged_interval", -1).asInt();
        ns_t interval = iv > 0 ? (ns_t)std::max(iv, 5) * sim::SEC : 0;
        auto src = Sources(c);
        ns_t W = 300 * sim::MS + c.StallSlack();
        for (size_t i = 0; i < c.chans.size(); ++i) {
            auto& ch = c.chans[i];
            auto name = ch.dev + "/" + ch.ctl;
            if (ch.regs[0].wo) {
                // each press of a button is shown
                if (ch.type != "pushbutton" || ch.regs.size() != 1)
                    continue;
                auto& r = ch.regs[0];
                bool shared = false;
                for (size_t k = 0; k < c.chans.size(); ++k)
                    for (auto& o: c.chans[k].regs)
                        shared |= k != i && o.port == r.port && o.slave == r.slave && o.space == r.space && o.WAddr() < r.WAddr() + r.words && r.WAddr() < o.WAddr() + o.words;
                std::vector<const Pub*> vs;
                for (auto& p: H.pubs)
                    if (p.dev == ch.dev && p.ctl == ch.ctl && p.what == 'v')
                        vs.push_back(&p);
                size_t at = 0;
                for (auto& f: H.frames) {
                    if (shared || f.port != r.port || f.slave != r.slave || !IsWrite(f) || !f.crcOk || f.exc || !f.replied || !Intact(c, f))
                        continue;
                    auto ww = WrittenWords(f);
                    if (ww.empty() || ww[0].space != r.space || f.addr > r.WAddr() || f.addr + (int)ww.size() <= r.WAddr())
                        continue;
                    ns_t t = f.rsp1 + Ports[f.port]->latency;
                    if (t > H.tQuiesced - W)
                        continue;
                    while (at < vs.size() && vs[at]->t < t - 2 * sim::MS)
                        ++at;
                    ++H.probes["judged"];
                    ++H.probes["button_judged"];
                    if (at < vs.size() && vs[at]->t <= t + W)
                        ++at;
                    else
                        c.Add("press_not_published", name + ": the button was pressed at " + c.Ms(t) + ", but nothing was published");
                }
                continue;
            }
            bool press = false, err = false;
            for (auto& r: ch.regs) {
                press |= r.type == "press_counter";
                err |= r.hasErr;
            }
            bool always = iv == 0;
            std::vector<const Pub*> vs, es, lost;
            for (auto& p: H.pubs) {
                if (p.dev == ch.dev && p.ctl == ch.ctl && p.t < H.tTerm) {
                    if (p.what == 'v')
                        vs.push_back(&p);
                    if (p.what == 'v' || p.what == 'e')
                        es.push_back(&p);
                }
                if (p.dev == ch.dev && p.what == 'd' && p.err == "r")
                    lost.push_back(&p);
            }
            // not more often than said
            if (!always && !ch.sporadic) {
                for (size_t k = 1; k < vs.size(); ++k) {
                    auto &a = *vs[k - 1], &b = *vs[k];
                    if (a.val != b.val)
                        continue;
                    // the error mark between them
                    std::string mark = a.err;
                    for (auto* e: es)
                        if (e->what == 'e' && e->t > a.t && e->t <= b.t)
                            mark = e->err;
                    bool gap = false; // a zero of a press counter may have come and not been published
                    for (auto* l: lost)
                        gap |= press && l->t <= b.t;
                    if (gap)
                        continue;
                    ++H.probes["judged"];
                    if (!interval)
                        c.Add("unchanged_published", name + ": " + a.val + " was published at " + c.Ms(a.t) + " and again at " + c.Ms(b.t) + " although it did not change");
                    else if (b.t - a.t < interval - 2 * sim::MS && mark == b.err)
                        c.Add("published_too_early", name + ": " + a.val + " was published at " + c.Ms(a.t) + " and again at " + c.Ms(b.t) + ", max_unchanged_interval is " + std::to_string(iv));
                }
            }
            if (ch.regs.size() != 1 || err)
                continue;
            auto& r = ch.regs[0];
            // a reading may be for another register of the same words
            bool shared = false;
            for (size_t k = 0; k < c.chans.size(); ++k)
                for (auto& o: c.chans[k].regs)
                    shared |= k != i && o.port == r.port && o.slave == r.slave && o.space == r.space && o.addr < r.addr + r.words && r.addr < o.addr + o.words;
            if (shared)
                continue;
            // what was read is published
            size_t at = 0;
            bool hidden = false;
            for (auto& s: src[i][0]) {
                if (!s.sure || s.t > H.tQuiesced - W)
                    continue;
                if (press && RawOf(r, s.words) == 0 && !lost.empty() && lost.front()->t <= s.t + W) {
                    bool shown = false;
                    for (auto* p: vs)
                        shown |= p->t >= s.t - sim::MS && p->t <= s.t + W && PartMatches(ch, r, s.words, p->val);
                    hidden = !shown;
                    continue;
                }
                bool must = hidden; // zero was not published, what follows is a change
                hidden = false;
                // a command that is not carried out yet keeps what was read from being shown
                bool cmd = false;
                for (auto& o: H.ops)
                    cmd |= o.t >= s.t - 2 * sim::SEC - W && o.t <= s.t + W && c.plan["ops"][o.idx]["k"].asString() == "on" && c.plan["ops"][o.idx]["chan"].asInt() == (int)i;
                std::string mark;
                for (auto* e: es) {
                    if (e->t > s.t + W)
                        break;
                    if (e->t < s.t)
                        mark = e->err;
                    else
                        mark += e->err;
                }
                if (cmd || mark.find('w') != std::string::npos)
                    continue;
                // the value shown when the reading came, and what was published afterwards
                const Pub *before = nullptr, *hit = nullptr;
                for (auto* p: vs) {
                    if (p->t < s.t)
                        before = p;
                    else if (p->t <= s.t + W && !hit && PartMatches(ch, r, s.words, p->val))
                        hit = p;
                }
                ++H.probes["judged"];
                if (must)
                    ++H.probes["press_judged"];
                if (!hit && (must || !(before && PartMatches(ch, r, s.words, before->val))))
                    c.Add("change_not_published", name + ": the value read at " + c.Ms(s.t) + " (" + Text(r, s.words) + ") was not published, " + (before ? before->val + " is shown" : "nothing is shown"));
                bool event = ch.sporadic && H.frames[s.frame].fn == 0x46;
                // as long as it is polled too it is published as any other
                if (event)
                    for (auto& f: H.frames)
                        if (f.port == r.port && f.slave == r.slave && IsRead(f) && SpaceOf(f.fn) == r.space && f.addr < r.addr + r.words && r.addr < f.addr + f.count && f.t0 > s.t - 10 * sim::SEC && f.t0 < s.t + 10 * sim::SEC) {
                            event = false;
                            break;
                        }
                // the mark is taken back
                std::string is = "r";
                bool good = false;
                for (auto* e: es) {
                    if (e->t > s.t + W)
                        break;
                    if (e->t >= s.t)
                        good |= is.find('r') == std::string::npos;
                    is = e->err;
                }
                good |= is.find('r') == std::string::npos;
                if (!good)
                    c.Add("mark_kept", name + " was read at " + c.Ms(s.t) + " but is still marked as unreadable");
                if (always || event) {
                    ++H.probes[event ? "event_judged" : "always_judged"];
                    // one publication each
                    while (at < vs.size() && vs[at]->t < s.t - 2 * sim::MS)
                        ++at;
                    if (at < vs.size() && vs[at]->t <= s.t + W)
                        ++at;
                    else
                        c.Add("reading_not_published", name + ": what was read at " + c.Ms(s.t) + " was not published");
                } else if (interval && (!before || s.t - before->t > interval + 2 * sim::MS) && !hit)
                    c.Add("unchanged_not_published", name + " was read at " + c.Ms(s.t) + " but not published, although the last time was " + (before ? c.Ms(before->t) : "never") + " and max_unchanged_interval is " + std::to_string(iv));
            }
            // a counter that starts from zero again is not a press
            if (press)
                for (auto* l: lost)
                    for (auto* p: vs)
                        if (p->t > l->t) {
                            ++H.probes["press_judged"];
                            bool other = ch.regs.size() != 1; // something else was read meanwhile
                            for (size_t k = 0; k < ch.regs.size(); ++k)
                                for (auto& s: src[i][k])
                                    other |= s.t > l->t - W && s.t < p->t && RawOf(ch.regs[k], s.words) != 0;
                            if (other)
                                break;
                            if (p->val == "0" || p->val == "0.0")
                                c.Add("zero_published", name + ": zero was published at " + c.Ms(p->t) + " as the first value after the device was lost at " + c.Ms(l->t));
                            break;
                        }
        }
    }
    static Register r19("C19", Gen, Judge);
}
