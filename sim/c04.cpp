// C04: the setup section before anything else
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    // parameters of a template: with a value in the configuration they belong to the setup section
    void AddParams(G& g, SlaveG& s)
    {
        int n = (int)g.r.range(1, 6);
        int a = 3000 + (int)g.r.below(100);
        int p0 = -1;
        for (int i = 0; i < n; ++i) {
            std::string id = "p" + std::to_string(i);
            Json::Value p;
            p["title"] = "Parameter " + id;
            p["reg_type"] = "holding";
            p["address"] = a;
            Reg r;
            r.port = s.port;
            r.slave = s.idx;
            r.addr = a;
            if (g.r.chance(0.25)) {
                r.fmt = "s16";
                p["format"] = "s16";
            }
            a += 1 + (g.r.chance(0.4) ? (int)g.r.range(1, 15) : 0);
            bool applies = true;
            if (i && p0 >= 0 && g.r.chance(0.4)) {
                int k = (int)g.r.below(2);
                p["condition"] = "p0==" + std::to_string(k);
                applies = p0 == k;
            }
            uint64_t raw = i == 0 ? g.r.below(2) : g.RandomRaw(r);
            if (i == 0 && g.r.chance(0.7))
                p0 = (int)raw;
            bool has = i == 0 ? p0 >= 0 : g.r.chance(0.6);
            p["min"] = -40000;
            p["max"] = 70000;
            s.params[id] = p;
            auto w = WordsOf(r, raw);
            int def = (int)g.r.below(65536);
            if (def == w[0])
                def ^= 1;
            s.mem[{HOLDING, r.addr}] = def;
            if (!has) {
                s.paramIds.push_back(id);
                continue;
            }
            s.cfg[id] = (Json::Int64)std::stoll(NumText(r, raw));
            if (!applies)
                continue;
            Json::Value po;
            po["s"] = HOLDING;
            po["a"] = r.addr;
            po["v"].append(def);
            s.world["powerOn"].append(po);
            Json::Value rec;
            rec["reg"] = r.ToJson();
            rec["w"].append(w[0]);
            g.plan["setup2"].append(rec);
        }
    }
    Json::Value Gen(uint64_t seed, bool)
    {
        G g(seed);
        g.o.setup = 0;
        g.o.templates = 0.6;
        g.o.chansMin = 1;
        g.o.chansMax = 5;
        g.o.deviceOpts = 0.5;
        g.o.partial = 0.15;
        g.o.fast = 0.1;
        g.endMs = g.r.range(6000, 40000);
        g.Ports();
        bool rpc = g.r.chance(0.4);
        for (auto& p: g.ports)
            for (auto& s: p.slaves) {
                if (g.r.chance(0.85))
                    g.AddSetup2(s);
                if (!s.templ.empty() && g.r.chance(rpc ? 0.8 : 0.4))
                    AddParams(g, s);
                if (g.r.chance(0.25))
                    s.cfg["device_timeout_ms"] = (int)g.r.range(0, 2000);
                if (s.setup.size() > 1 && g.r.chance(0.1)) {
                    // a setup register the device does not have
                    auto& rec = g.plan["setup2"][(int)g.plan["setup2"].size() - 1];
                    Reg r = Reg::From(rec["reg"]);
                    if (r.port == s.port && r.slave == s.idx && !r.width && r.words == 1) {
                        Json::Value v;
                        v.append(r.space);
                        v.append(r.addr);
                        v.append(1);
                        s.world["ro"].append(v);
                    }
                }
            }
        bool faults = g.r.chance(0.9);
        if (faults) {
            g.Faults({"offline", "power", "power", "reboot", "offline"}, (int)g.r.range(1, 4), 0, g.endMs, 15000);
            if (g.r.chance(0.6))
                g.Faults(LineFaults, (int)g.r.range(1, 5), 0, g.endMs, 9000);
            // the setup section itself is hit
            for (int i = (int)g.r.range(0, 3); i > 0; --i) {
                int port = (int)g.r.below(g.ports.size());
                static const char* k[] = {"drop_req", "drop_rsp", "exc", "corrupt"};
                double t0 = g.r.chance(0.5) ? 0 : g.r.unit() * g.endMs;
                g.Fault(k[g.r.below(4)], t0, g.endMs, port, g.r.chance(0.7) ? (int)g.r.below(g.ports[port].slaves.size()) : -1);
                g.LastFault()["n"] = (int)g.r.range(1, 8);
                g.LastFault()["p"] = LogU(g.r, 0.1, 1);
                if (g.LastFault()["k"].asString() == "exc")
                    g.LastFault()["arg"] = g.r.chance(0.5) ? 4 : 6;
            }
        }
        std::vector<int> w;
        for (size_t i = 0; i < g.chans.size(); ++i)
            if (!g.chans[i].regs[0].ro)
                w.push_back((int)i);
        for (int i = w.empty() ? 0 : (int)g.r.range(0, 12); i > 0; --i)
            g.OnOp(g.r.pick(w), 20 + g.r.unit() * (g.endMs - 60));
        if (rpc) {
            std::vector<SlaveG*> t;
            for (auto& p: g.ports)
                for (auto& s: p.slaves)
                    if (!s.templ.empty())
                        t.push_back(&s);
            for (int i = t.empty() ? 0 : (int)g.r.range(1, 8); i > 0; --i) {
                auto& s = *g.r.pick(t);
                double at = g.r.chance(0.3) ? 5 + g.r.unit() * 300 : 20 + g.r.unit() * (g.endMs - 60);
                Json::Value q;
                q["device_id"] = s.dev;
                double x = g.r.unit();
                if (x < 0.4) {
                    q["force"] = g.r.chance(0.5);
                    g.RpcOp(at, "device/LoadConfig", q);
                } else if (x < 0.7) {
                    for (auto& id: s.paramIds)
                        q["parameters"].append(id);
                    g.RpcOp(at, "device/Load", q);
                } else {
                    q["parameters"] = Json::Value(Json::objectValue);
                    for (auto& id: s.paramIds)
                        if (g.r.chance(0.5))
                            q["parameters"][id] = (int)g.r.range(0, 30000);
                    g.RpcOp(at, "device/Set", q);
                }
                g.plan["ops"][(int)g.plan["ops"].size() - 1]["dev"] = s.dev;
            }
        }
        return g.Finish("C04", std::string(faults ? "faults" : "clean") + (rpc ? "+rpc" : ""));
    }
}
// The setup section is written before a device is polled, commanded or declared connected; a device that works is polled
void oracle::SetupFirst(Ctx& c, const std::set<std::pair<int, int>>& suspended)
{
    {
        struct Item
        {
            Reg r;
            std::vector<int> w;
            bool done = false, refused = false;
            ns_t t = 0;             // when
            std::vector<int> parts; // words written, of registers that need several requests
        };
        struct Dev
        {
            std::vector<Item> items;
            std::set<std::array<int, 2>> chan; // (space, addr)
            bool conn = false;
            ns_t lastOk = 0;
            int fails = 0;
            int maxFails = 2, timeout = 3000;
            std::string name;
            ns_t lostSince = 0;
            ns_t connT = 0;
        };
        std::map<std::pair<int, int>, Dev> devs;
        for (auto& ch: c.chans)
            for (auto& r: ch.regs) {
                auto& d = devs[{r.port, r.slave}];
                d.name = ch.dev;
                for (int i = 0; i < r.words; ++i) {
                    d.chan.insert({r.space, r.addr + i});
                    d.chan.insert({r.space, r.WAddr() + i});
                }
            }
        for (auto& x: c.plan["setup2"]) {
            Item it;
            it.r = Reg::From(x["reg"]);
            for (auto& w: x["w"])
                it.w.push_back(w.asInt());
            it.parts.assign(it.w.size(), 0);
            devs[{it.r.port, it.r.slave}].items.push_back(it);
        }
        int pi = 0;
        for (auto& p: c.plan["config"]["ports"]) {
            int si = 0;
            for (auto& d: p["devices"]) {
                auto& x = devs[{pi, si++}];
                if (d.isMember("device_max_fail_cycles"))
                    x.maxFails = d["device_max_fail_cycles"].asInt();
                if (d.isMember("device_timeout_ms"))
                    x.timeout = d["device_timeout_ms"].asInt();
            }
            ++pi;
        }
        std::map<std::string, std::pair<int, int>> byName;
        for (auto& d: devs)
            byName[d.second.name] = d.first;
        auto missing = [&](Dev& d) {
            for (auto& it: d.items)
                if (!it.done)
                    return "\"" + std::to_string(it.r.addr) + (it.r.width ? ":" + std::to_string(it.r.off) + ":" + std::to_string(it.r.width) : "") + "\"";
            return std::string();
        };
        auto clear = [](Dev& d) {
            for (auto& it: d.items) {
                it.done = false;
                std::fill(it.parts.begin(), it.parts.end(), 0);
            }
        };
        // RPC requests that read registers of a device by themselves
        struct Win
        {
            ns_t a, b;
            std::string dev;
        };
        std::vector<Win> wins;
        for (auto& o: H.ops) {
            auto& op = c.plan["ops"][o.idx];
            if (op["k"].asString() != "rpc" || op["method"].asString() != "device/Load")
                continue;
            ns_t b = H.tEnd;
            for (auto& r: H.replies)
                if (r.id == o.callId)
                    b = r.t;
            wins.push_back({o.t, b, op["dev"].asString()});
        }
        size_t pi2 = 0;
        auto pubsUntil = [&](ns_t t, bool incl) {
            for (; pi2 < H.pubs.size() && (H.pubs[pi2].t < t || (incl && H.pubs[pi2].t == t)); ++pi2) {
                auto& p = H.pubs[pi2];
                if (p.what != 'd' || !byName.count(p.dev))
                    continue;
                auto& d = devs[byName[p.dev]];
                ++H.probes["judged"];
                if (p.err == "r") {
                    d.conn = false;
                    d.lostSince = p.t;
                    clear(d);
                } else if (p.err.empty()) {
                    auto m = missing(d);
                    if (!d.conn && !m.empty())
                        c.Add("connected_without_setup", "device " + p.dev + " is declared connected at " + c.Ms(p.t) + " although its setup register " + m +
                                                             " has not been written since it was lost");
                    d.conn = true;
                    d.lastOk = p.t;
                    d.fails = 0;
                    d.connT = p.t;
                }
            }
        };
        for (auto& f: H.frames) {
            if (!f.crcOk || (!IsRead(f) && !IsWrite(f)))
                continue;
            int sl = c.SlaveByUnit(f.port, f.unit);
            if (sl < 0 || !devs.count({f.port, sl}))
                continue;
            auto& d = devs[{f.port, sl}];
            pubsUntil(f.t0, true);
            bool failed = !f.replied && f.fate != "late" && f.fate != "unheard" && f.fate != "destroyed" && f.fate != "evil" && f.fate != "noise";
            bool transient = f.replied && f.exc && f.exc > 3;
            int sp = SpaceOf(f.fn);
            bool onChan = false;
            auto words = IsWrite(f) ? WrittenWords(f) : std::vector<Word>();
            if (IsRead(f)) {
                for (int i = 0; i < f.count; ++i)
                    onChan |= d.chan.count({sp, f.addr + i}) > 0;
            } else
                for (auto& w: words)
                    onChan |= d.chan.count({w.space, w.addr}) > 0;
            if (onChan) {
                bool own = false;
                for (auto& w: wins)
                    own |= w.dev == d.name && f.t0 >= w.a && f.t0 <= w.b && IsRead(f);
                if (own) {
                    if (f.replied) {
                        d.lastOk = std::max(d.lastOk, f.rsp1);
                        d.fails = 0;
                    }
                    continue;
                }
                ++H.probes["judged"];
                auto m = missing(d);
                if (!d.conn && !m.empty())
                    c.Add("access_before_setup", FrameStr(c, f) + ": " + d.name + (d.lostSince ? " was lost at " + c.Ms(d.lostSince) : " has not been set up yet") +
                                                     ", its setup register " + m + " has not been written since");
                if (failed) {
                    ++d.fails;
                    if (!d.conn)
                        clear(d);
                    else if (d.fails > d.maxFails && f.t1 - d.lastOk > (ns_t)d.timeout * sim::MS + 300 * sim::MS + c.StallSlack()) {
                        d.conn = false;
                        d.lostSince = f.t1;
                        clear(d);
                    }
                } else if (f.replied) {
                    d.lastOk = f.rsp1;
                    d.fails = 0;
                } else
                    d.lastOk = f.t1 + 2 * sim::SEC;
                continue;
            }
            if (!IsWrite(f))
                continue;
            bool setup = false;
            for (auto& it: d.items) {
                // the request writes all or a part of it
                if (words.empty() || words[0].space != it.r.space || f.addr >= it.r.addr + it.r.words || f.addr + (int)words.size() <= it.r.addr)
                    continue;
                setup = true;
                if (!f.replied || transient)
                    continue;
                bool same = true;
                for (int i = 0; i < it.r.words; ++i) {
                    int k = it.r.addr + i - f.addr;
                    if (k >= 0 && k < (int)words.size()) {
                        int m = MaskOf(it.r, i);
                        bool ok = (words[k].val & m) == (it.w[i] & m);
                        same &= ok;
                        if (ok)
                            it.parts[i] = 1;
                    }
                }
                if (same && std::all_of(it.parts.begin(), it.parts.end(), [](int x) { return x; })) {
                    it.done = true;
                    it.t = f.t0;
                    it.refused = f.exc != 0;
                }
            }
            if (setup && !d.conn && (failed || transient))
                clear(d);
        }
        pubsUntil(H.tEnd + 1, true);
        if (c.out.end != "ok")
            return;
        for (auto& kv: devs) {
            auto& d = kv.second;
            ns_t changed = 0;
            for (auto& e: H.slaves)
                if (e.port == kv.first.first && e.slave == kv.first.second)
                    changed = std::max(changed, e.t);
            if (d.connT > changed)
                for (auto& it: d.items) {
                    if (it.refused || (it.t && it.t <= changed)) // rebooted unnoticed, between two requests
                        continue;
                    bool set = false; // by RPC
                    for (auto& f: H.frames)
                        if (f.port == kv.first.first && f.slave == kv.first.second && IsWrite(f) && f.applied && f.addr <= it.r.addr + it.r.words &&
                            f.addr + f.count > it.r.addr && f.t0 > d.connT)
                            set = true;
                    ++H.probes["judged"];
                    for (int i = 0; i < it.r.words && !set; ++i) {
                        int m = MaskOf(it.r, i), v = c.MemAt(it.r.port, it.r.slave, it.r.space, it.r.addr + i, d.connT);
                        if ((v & m) != (it.w[i] & m)) {
                            c.Add("setup_not_in_effect", "setup register " + std::to_string(it.r.addr + i) + " of " + d.name + " holds " + std::to_string(v) +
                                                             " when the device was declared connected at " + c.Ms(d.connT) + ", configured is " + std::to_string(it.w[i]));
                            break;
                        }
                    }
                }
            // polled again
            if (d.chan.empty() || suspended.count(kv.first) || H.tTerm < H.tActiveEnd + 25 * sim::SEC)
                continue;
            bool readable = false, polled = false;
            for (auto& ch: c.chans)
                for (auto& r: ch.regs)
                    readable |= r.port == kv.first.first && r.slave == kv.first.second && !r.wo;
            ns_t limit = H.tActiveEnd + 16 * sim::SEC + c.StallSlack();
            for (auto& f: H.frames)
                polled |= f.port == kv.first.first && f.slave == kv.first.second && f.t0 >= H.tActiveEnd && f.t0 <= limit && f.replied;
            if (readable && !polled)
                c.Add("not_polled_again", "device " + d.name + " works since " + c.Ms(H.tActiveEnd) + " at the latest but was not polled until " + c.Ms(limit));
        }
    }
}
static void Judge04(Ctx& c)
{
    SetupFirst(c);
    Converged(c);
}
static Register r04("C04", Gen, Judge04);
