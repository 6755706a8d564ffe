#include "oracle.h"
#include <algorithm>
#include <cstring>

namespace oracle
{
    Ctx::Ctx(const Json::Value& p, const check::Outcome& o, std::vector<Violation>& vs): plan(p), out(o), v(vs)
    {
        T0 = 1000 * sim::SEC;
        chans = Chans(plan);
        for (auto& s: plan["setups"])
            setups.push_back({s[0].asInt(), s[1].asInt(), s[2].asInt(), s[3].asInt()});
        for (auto& m: H.mem) {
            auto& h = hist[{m.port, m.slave, m.space, m.addr}];
            if (h.empty())
                h.push_back({0, m.old});
            h.push_back({m.t, m.val});
            auto& ch = changes[{m.port, m.slave}];
            if (ch.empty() || ch.back() != m.t)
                ch.push_back(m.t);
        }
    }
    void Ctx::Add(const std::string& key, const std::string& msg)
    {
        if (v.size() < 20)
            v.push_back({key, msg});
    }
    std::string Ctx::Ms(ns_t t) const
    {
        char b[40];
        snprintf(b, sizeof(b), "%.3fms", (double)(t - T0) / sim::MS);
        return b;
    }
    int Ctx::MemAt(int port, int slave, int space, int addr, ns_t t) const
    {
        auto i = hist.find({port, slave, space, addr});
        if (i == hist.end())
            return Ports[port]->slaves[slave]->Get(space, addr);
        int val = i->second.front().val;
        for (auto& c: i->second) {
            if (c.t > t)
                break;
            val = c.val;
        }
        return val;
    }
    bool Ctx::WordsAt(const Reg& r, ns_t t, std::vector<int>& w) const
    {
        w.resize(r.words);
        for (int i = 0; i < r.words; ++i) {
            w[i] = MemAt(r.port, r.slave, r.space, r.addr + i, t);
            if (w[i] < 0)
                return false;
        }
        return true;
    }
    int Ctx::SlaveByUnit(int port, int unit) const
    {
        for (auto& s: Ports[port]->slaves)
            if (s->id == unit)
                return s->idx;
        return -1;
    }
    ns_t Ctx::StallSlack() const
    {
        // a stalled thread may be stalled again and again
        return plan["sched"]["stallP"].asDouble() > 0 ? (ns_t)plan["sched"]["stallMs"].asInt() * 40 * sim::MS : 0;
    }
    bool IsWrite(const Frame& f)
    {
        return f.fn == 5 || f.fn == 6 || f.fn == 15 || f.fn == 16;
    }
    bool IsRead(const Frame& f)
    {
        return f.fn >= 1 && f.fn <= 4;
    }
    int SpaceOf(int fn)
    {
        switch (fn) {
            case 1:
            case 5:
            case 15:
                return COIL;
            case 2:
                return DISCRETE;
            case 4:
                return INPUT;
        }
        return HOLDING;
    }
    std::vector<Word> WrittenWords(const Frame& f)
    {
        std::vector<Word> r;
        int sp = SpaceOf(f.fn);
        if (f.fn == 5)
            r.push_back({sp, f.addr, f.data.size() == 2 && f.data[0] == 0xFF ? 1 : 0});
        else if (f.fn == 15)
            for (int i = 0; i < f.count; ++i)
                r.push_back({sp, f.addr + i, i / 8 < (int)f.data.size() ? f.data[i / 8] >> (i % 8) & 1 : -1});
        else
            for (size_t i = 0; i + 1 < f.data.size(); i += 2)
                r.push_back({sp, f.addr + (int)(i / 2), f.data[i] << 8 | f.data[i + 1]});
        return r;
    }
    bool Ctx::HostFault(int port, ns_t a, ns_t b) const
    {
        static const std::set<std::string> kinds{"unplug", "rst", "fin", "blackhole", "eintr", "noise", "tcset_err"};
        for (auto& f: plan["faults"])
            if (kinds.count(f["k"].asString()) && (!f.isMember("port") || f["port"].asInt() == port) &&
                T0 + (ns_t)(f["t0"].asDouble() * 1e6) <= b && T0 + (ns_t)(f["t1"].asDouble() * 1e6) >= a)
                return true;
        for (auto& e: H.ports)
            if (e.port == port && e.t >= a && e.t <= b && (e.what == 'e' || e.what == 'c'))
                return true;
        return false;
    }
    // An answer damaged so that it looks like a (shorter) exception leaves its end in the receiver, which shifts
    // the answers read after it until the daemon finds the frame boundary again.
    bool Shifted(const Frame& f)
    {
        for (int i = f.id - 1; i >= 0 && H.frames[i].t0 > f.t0 - 2 * sim::SEC; --i) {
            auto& g = H.frames[i];
            if (g.port != f.port || g.fate != "corrupt" || g.exc)
                continue;
            size_t k = 0;
            while (k < g.rsp.size() && g.rsp[k] == 0xFF && f.unit != 0xFF)
                ++k;
            if (Ports[f.port]->kind != "mtcp")
                ++k;
            if (k < g.rsp.size() && (g.rsp[k] & 0x80))
                return true;
        }
        return false;
    }
    bool Intact(const Ctx& c, const Frame& f)
    {
        return f.replied && !c.HostFault(f.port, f.t0 - sim::SEC, f.rsp1 + 300 * sim::MS) && !Shifted(f);
    }
    std::string FrameStr(const Ctx& c, const Frame& f)
    {
        return "request #" + std::to_string(f.id) + " [" + Hex(f.b) + "] on port " + std::to_string(f.port) + " at " + c.Ms(f.t0) +
               (f.fate.empty() ? "" : " (" + f.fate + ")");
    }

    // ------------------------------------------------------------------ C01
    struct Cmd
    {
        int op;
        ns_t t;
        std::vector<int> words;
        bool dup = false; // same words as an earlier one
    };
    std::vector<int> OpWords(const Reg& r, const Json::Value& x)
    {
        if (x.isMember("str")) {
            std::string s, h = x["str"].asString();
            for (size_t i = 0; i + 1 < h.size(); i += 2)
                s += (char)std::stoi(h.substr(i, 2), nullptr, 16);
            return WordsOfStr(r, s);
        }
        uint64_t raw = x.isMember("rawhex") ? std::stoull(x["rawhex"].asString(), nullptr, 16) : x["raw"].asUInt64();
        return WordsOf(r, raw);
    }
    void Writes(Ctx& c)
    {
        struct Item
        {
            const Chan* ch;
            const Reg* r;
            std::vector<Cmd> cmds;
            int last = -1;      // newest command seen on the wire
            bool acked = false; // command `last` was acknowledged intact
            ns_t ackT = 0;        // when its frame was sent
            int appliedLast = -1; // newest command the device executed
            bool permanent = false; // refused for good
            int ci, ri;
        };
        std::vector<Item> items;
        std::map<std::array<int, 4>, int> at; // port, slave, space, addr -> item
        for (size_t ci = 0; ci < c.chans.size(); ++ci)
            for (size_t ri = 0; ri < c.chans[ci].regs.size(); ++ri) {
                auto& r = c.chans[ci].regs[ri];
                if (r.ro)
                    continue;
                Item it;
                it.ch = &c.chans[ci];
                it.r = &r;
                it.ci = (int)ci;
                it.ri = (int)ri;
                for (auto& o: H.ops) {
                    auto& op = c.plan["ops"][o.idx];
                    if (op["k"].asString() != "on" || op["chan"].asInt() != (int)ci || !o.accepted || op["bad"].asBool())
                        continue;
                    Cmd k{o.idx, o.t, OpWords(r, op["regs"][(int)ri])};
                    it.cmds.push_back(k);
                }
                for (int i = 0; i < r.words; ++i)
                    at[{r.port, r.slave, r.space, r.WAddr() + i}] = (int)items.size();
                items.push_back(it);
            }
        std::map<std::array<int, 3>, int> setup;
        std::set<std::pair<int, int>> io; // devices that are asked for continuous read without being asked for it
        {
            int pi = 0;
            for (auto& p: c.plan["config"]["ports"]) {
                int si = 0;
                for (auto& d: p["devices"]) {
                    if (d["protocol"].asString() == "modbus_io")
                        io.insert({pi, si});
                    ++si;
                }
                ++pi;
            }
        }
        for (auto& s: c.setups)
            setup[{s.port, s.slave, s.addr}] = s.val;
        ns_t slack = sim::SEC + c.StallSlack();
        for (auto& f: H.frames) {
            if (!IsWrite(f) || !f.crcOk)
                continue;
            int sl = c.SlaveByUnit(f.port, f.unit);
            if (sl < 0) {
                c.Add("unexpected_write", FrameStr(c, f) + ": a write to a device nobody configured");
                continue;
            }
            auto words = WrittenWords(f);
            auto first = at.find({f.port, sl, words.empty() ? 0 : words[0].space, f.addr});
            if (first == at.end()) {
                bool ok = !words.empty();
                for (auto& w: words) {
                    auto i = setup.find({f.port, sl, w.addr});
                    bool wbreg = (Ports[f.port]->slaves[sl]->wb || io.count({f.port, sl})) && w.space == HOLDING && w.addr == 114;
                    ok &= (w.space == HOLDING && i != setup.end() && i->second == w.val) || wbreg;
                }
                if (!ok)
                    c.Add("unexpected_write", FrameStr(c, f) + ": neither a client's command nor a setup register with its configured value");
                continue;
            }
            auto& it = items[first->second];
            auto& r = *it.r;
            if (f.exc >= 1 && f.exc <= 3 && !it.cmds.empty()) {
                bool eqLast = it.cmds.back().t <= f.rsp1 + slack;
                for (auto& w: words) {
                    int i = w.addr - r.WAddr();
                    if (i >= 0 && i < r.words && (w.val & MaskOf(r, i)) != (it.cmds.back().words[i] & MaskOf(r, i)))
                        eqLast = false;
                }
                if (f.t0 >= it.cmds.back().t || eqLast)
                    it.permanent = true;
            }
            int mine = 0;
            for (auto& w: words)
                if (w.addr >= r.WAddr() && w.addr < r.WAddr() + r.words)
                    mine |= MaskOf(r, w.addr - r.WAddr());
            if (!mine)
                continue; // a word with nothing of this register in it tells nothing (neighbours are C09's)
            ++H.probes["judged"];
            if (it.cmds.empty()) {
                c.Add("unexpected_write", FrameStr(c, f) + ": nobody commanded " + it.ch->dev + "/" + it.ch->ctl);
                continue;
            }
            // which command is it
            int found = -1, newest = -1;
            for (int k = 0; k < (int)it.cmds.size(); ++k) {
                if (it.cmds[k].t > f.t0)
                    break;
                if (it.cmds[k].t + slack < f.t0)
                    newest = k;
                bool same = true;
                for (auto& w: words) {
                    int i = w.addr - r.WAddr();
                    if (i < 0 || i >= r.words) {
                        same = false;
                        break;
                    }
                    int m = MaskOf(r, i);
                    same &= (w.val & m) == (it.cmds[k].words[i] & m);
                }
                if (same && k >= it.last) {
                    found = k;
                    break;
                }
                if (same)
                    found = -2 - k;
            }
            std::string nm = it.ch->dev + "/" + it.ch->ctl;
            if (found == -1) {
                c.Add("wrong_write", FrameStr(c, f) + ": the value is not one a client sent to " + nm);
                continue;
            }
            if (found < 0) {
                // the bytes of a broken connection may reach the line after those of the next one
                if (Ports[f.port]->kind != "serial" && c.HostFault(f.port, f.t0 - 3 * sim::SEC, f.t0))
                    continue;
                c.Add("older_write", FrameStr(c, f) + ": an older command of " + nm + " is sent after a newer one");
                continue;
            }
            bool oneFrame = (int)words.size() == r.words;
            // a later equal command makes the value fresh again
            int eq = found;
            for (int k = found + 1; k < (int)it.cmds.size() && it.cmds[k].t <= f.t0; ++k)
                if (it.cmds[k].words == it.cmds[found].words)
                    eq = k;
            if (newest > eq && oneFrame)
                c.Add("stale_write", FrameStr(c, f) + ": the value of " + nm + " was replaced by a newer command long before");
            int again = 0; // equal commands close to each other may be seen in any way
            for (auto& k: it.cmds)
                again += k.t > it.ackT - slack && k.t <= f.t0 && k.words == it.cmds[found].words;
            if (found == it.last && it.acked && oneFrame && eq == found && again < 2)
                c.Add("write_repeated", FrameStr(c, f) + ": the command for " + nm + " had already been acknowledged by the device");
            if (eq > it.last) {
                it.last = eq;
                it.acked = false;
            }
            if (f.applied && oneFrame)
                it.appliedLast = std::max(it.appliedLast, eq);
            int low = 0;
            while (low + 1 < r.words && !MaskOf(r, low))
                ++low;
            if (f.applied && !oneFrame && f.addr == r.WAddr() + low) // word by word, lowest address last
                it.appliedLast = std::max(it.appliedLast, eq);
            if (Intact(c, f) && f.exc == 0) {
                it.acked = true;
                it.ackT = f.t0;
            }
        }
        if (c.out.end != "ok")
            return;
        for (auto& it: items) {
            if (it.cmds.empty() || it.permanent)
                continue;
            int n = (int)it.cmds.size() - 1;
            if (it.appliedLast < n) {
                // equal to what the device got last?
                if (it.appliedLast >= 0 && it.cmds[it.appliedLast].words == it.cmds[n].words)
                    continue;
                c.Add("write_lost", "command \"" + c.plan["ops"][it.cmds[n].op]["val"].asString() + "\" for " + it.ch->dev + "/" + it.ch->ctl +
                                        " sent at " + c.Ms(it.cmds[n].t) + " never reached the device by " + c.Ms(H.tTerm));
            }
        }
    }
}

namespace check
{
    using namespace oracle;
    std::vector<Violation> Judge(const Json::Value& plan, const Outcome& o, int phase, Json::Value& carry)
    {
        std::vector<Violation> r;
        Ctx c(plan, o, r);
        c.phase = phase;
        c.carry = &carry;
        if (o.end == "deadlock")
            r.push_back({"deadlock", "every thread waits for another one: " + o.detail});
        else if (o.end == "livelock")
            r.push_back({"livelock", "threads run without making progress: " + o.detail});
        else if (o.end == "no_exit")
            r.push_back({"no_exit", "the service did not terminate after SIGTERM: " + o.detail});
        else if (o.end == "exit")
            r.push_back({"exit", "the service ended by itself with code " + std::to_string(o.code)});
        for (auto& a: world::H.alarms)
            r.push_back({a.substr(0, a.find('|')), a.substr(a.find('|') + 1)});
        auto p = plan["prop"].asString();
        for (auto& x: Props())
            if (p == x.id)
                x.judge(c);
        return r;
    }
    void Coverage(const Json::Value& plan, std::map<std::string, uint64_t>& cov)
    {
        cov["requests"] = world::H.frames.size();
        cov["publications"] = world::H.pubs.size();
        cov["ops"] = world::H.ops.size();
        for (auto& f: world::H.frames) {
            cov["writes"] += IsWrite(f);
            cov["disturbed"] += !f.replied;
        }
    }
    void AtQuiesce(const Json::Value&)
    {}
}
