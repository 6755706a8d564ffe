// C07: one conversation at a time on a line. C10: every RPC request is answered once, with the device's own answer.
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    const int BASE = 9000; // registers only RPC requests touch
    std::string HexStr(const Bytes& b)
    {
        std::string s;
        char t[4];
        for (auto x: b) {
            snprintf(t, sizeof(t), "%02x", x);
            s += t;
        }
        return s;
    }
    struct RpcGen
    {
        G& g;
        bool c10;
        int n = 0;
        struct Target
        {
            int port, slave;
        };
        std::vector<Target> conf, extra;
        void Mem(SlaveG& s, int space, int a, int cnt)
        {
            for (int i = 0; i < cnt; ++i)
                s.mem[{space, a + i}] = space <= DISCRETE ? (int)g.r.below(2) : (int)g.r.below(65536);
        }
        void Timeouts(Json::Value& q)
        {
            if (c10 && g.r.chance(0.2))
                q["total_timeout"] = (int)LogU(g.r, 20, 20000);
            if (g.r.chance(0.15))
                q["response_timeout"] = (int)g.r.range(c10 ? 50 : 150, 1500);
            if (g.r.chance(0.15))
                q["frame_timeout"] = (int)g.r.range(10, 60);
        }
        // Settings of a slave's line as a request names them
        Json::Value Req(PortG& p, SlaveG& s)
        {
            auto q = g.PortReq(p);
            if (p.kind == "serial")
                for (auto k: {"baud", "parity", "data", "stop"})
                    if (s.world.isMember(k))
                        q[std::string(k) == "baud" ? "baud_rate" : std::string(k) == "data" ? "data_bits" : std::string(k) == "stop" ? "stop_bits" : k] = s.world[k];
            return q;
        }
        void Load(double t)
        {
            bool ex = !extra.empty() && g.r.chance(conf.empty() ? 1 : 0.5);
            auto tg = ex ? g.r.pick(extra) : g.r.pick(conf);
            auto& p = g.ports[tg.port];
            auto& s = p.slaves[tg.slave];
            bool devid = !ex && !s.shift && g.r.chance(0.4);
            bool raw = !devid && g.r.chance(0.25);
            int a = BASE + 8 * n++;
            Json::Value q = devid ? Json::Value(Json::objectValue) : Req(p, s);
            if (devid)
                q["device_id"] = s.dev;
            static const int fns[] = {1, 2, 3, 3, 3, 4, 5, 6, 6, 15, 16, 16, 23};
            int fn = raw ? (g.r.chance(0.6) ? 3 : 6) : fns[g.r.below(13)];
            int cnt = fn == 5 || fn == 6 ? 1 : (int)g.r.range(1, fn == 1 || fn == 2 || fn == 15 ? 8 : 4);
            int sp = fn == 1 || fn == 5 || fn == 15 ? COIL : fn == 2 ? DISCRETE : fn == 4 ? INPUT : HOLDING;
            bool absent = g.r.chance(0.06);
            if (!absent)
                Mem(s, sp, a, 8);
            if (g.r.chance(0.05)) {
                Json::Value e;
                e.append(sp);
                e.append(a);
                e.append(1);
                s.world["ro"].append(e);
            }
            int unit = s.id;
            bool nobody = !devid && g.r.chance(0.05);
            if (nobody)
                for (bool used = true; used;) {
                    unit = (int)g.r.range(1, 247);
                    used = false;
                    for (auto& x: p.slaves)
                        used |= x.id == unit;
                }
            Bytes data;
            if (fn == 5)
                data = {(uint8_t)(g.r.chance(0.5) ? 0xFF : 0), 0};
            else if (fn == 15)
                data = {(uint8_t)(g.r.next() & ((1 << cnt) - 1))};
            else if (fn == 6 || fn == 16)
                for (int i = 0; i < cnt * 2; ++i)
                    data.push_back((uint8_t)g.r.next());
            int wcnt = 1;
            if (fn == 23) {
                wcnt = (int)g.r.range(1, 4);
                for (int i = 0; i < wcnt * 2; ++i)
                    data.push_back((uint8_t)g.r.next());
            }
            Json::Value x;
            if (raw) {
                Bytes b{(uint8_t)unit, (uint8_t)fn, (uint8_t)(a >> 8), (uint8_t)a};
                if (fn == 3) {
                    b.push_back(0);
                    b.push_back((uint8_t)cnt);
                } else
                    b.insert(b.end(), data.begin(), data.end());
                int rsp = fn == 3 ? 3 + 2 * cnt : 6;
                if (p.kind == "mtcp") {
                    Bytes m{(uint8_t)g.r.next(), (uint8_t)g.r.next(), 0, 0, 0, (uint8_t)b.size()};
                    m.insert(m.end(), b.begin(), b.end());
                    b = m;
                    rsp += 6;
                } else {
                    auto crc = world::Crc(b.data(), b.size());
                    b.push_back((uint8_t)crc);
                    b.push_back((uint8_t)(crc >> 8));
                    rsp += 2;
                }
                if (g.r.chance(0.7))
                    q["protocol"] = "raw";
                q["msg"] = HexStr(b);
                q["response_size"] = rsp + (g.r.chance(0.2) ? (int)g.r.range(1, 40) : 0);
                x["rsp"] = rsp;
            } else {
                if (!devid) {
                    q["protocol"] = p.kind == "mtcp" ? "modbus-tcp" : "modbus";
                    q["slave_id"] = unit;
                }
                q["function"] = fn;
                q["address"] = a;
                q["count"] = cnt;
                if (fn == 23) {
                    q["write_address"] = a + 4;
                    q["write_count"] = wcnt;
                }
                if (!data.empty())
                    q["msg"] = HexStr(data);
            }
            q["format"] = "HEX";
            Timeouts(q);
            x["kind"] = raw ? "raw" : "modbus";
            x["port"] = tg.port;
            x["unit"] = unit;
            x["slave"] = nobody ? -1 : tg.slave;
            x["fn"] = fn;
            x["addr"] = a;
            x["count"] = cnt;
            x["data"] = HexStr(data);
            x["absent"] = absent;
            if (p.kind == "serial")
                for (auto k: {"baud", "parity", "data", "stop"})
                    x["line"][k] = !devid && s.world.isMember(k) ? s.world[k] : p.world[k];
            auto& op = g.RpcOp(t, "port/Load", q);
            op["x"] = x;
        }
        void Invalid(double t)
        {
            auto tg = conf.empty() ? g.r.pick(extra) : g.r.pick(conf);
            auto& p = g.ports[tg.port];
            Json::Value q = g.PortReq(p);
            std::string m = "port/Load";
            switch (g.r.below(14)) {
                case 0:
                    q = Json::Value(Json::objectValue);
                    break;
                case 1:
                    q["protocol"] = "modbus";
                    q["slave_id"] = 300;
                    q["function"] = 99;
                    q["address"] = 1;
                    break;
                case 2: // odd number of hex digits
                    q["msg"] = "123";
                    q["format"] = "HEX";
                    q["response_size"] = 5;
                    break;
                case 3: // number of bytes does not fit the function
                    q["protocol"] = p.kind == "mtcp" ? "modbus-tcp" : "modbus";
                    q["slave_id"] = 1;
                    q["function"] = g.r.chance(0.5) ? 6 : 23;
                    q["address"] = 1;
                    q["count"] = 1;
                    q["msg"] = "00";
                    q["format"] = "HEX";
                    break;
                case 4:
                    q = Json::Value();
                    q["device_id"] = "nobody";
                    q["function"] = 3;
                    q["address"] = 1;
                    break;
                case 5:
                    m = "device/LoadConfig";
                    q = Json::Value();
                    q["device_id"] = "nobody";
                    break;
                case 6:
                    m = "device/Set";
                    q = Json::Value();
                    q["parameters"] = 5;
                    break;
                case 7:
                    m = "device/SetPoll";
                    q = Json::Value();
                    q["device_id"] = "nobody";
                    q["poll"] = true;
                    break;
                case 8:
                    m = "port/Scan";
                    q = Json::Value();
                    q["mode"] = "all";
                    break;
                case 9:
                    m = "port/Setup";
                    q = Json::Value();
                    break;
                case 10:
                    m = "device/Probe";
                    q = Json::Value();
                    break;
                case 11:
                    m = "device/Load";
                    q["slave_id"] = "1";
                    q["device_type"] = "no such type";
                    break;
                case 12:
                    m = "fw-update/GetFirmwareInfo";
                    q = Json::Value();
                    break;
                default:
                    m = "templates/Upload";
                    q = Json::Value();
                    q["content"] = "{";
            }
            auto& op = g.RpcOp(t, m, q);
            op["x"]["kind"] = "bad";
        }
        void Device(double t)
        {
            if (conf.empty())
                return;
            auto tg = g.r.pick(conf);
            auto& p = g.ports[tg.port];
            auto& s = p.slaves[tg.slave];
            Json::Value q;
            static const char* ms[] = {"device/Load", "device/LoadConfig", "device/Set", "device/Probe", "device/SetPoll"};
            std::string m = ms[g.r.below(5)];
            if (m == "device/Probe") {
                q = g.PortReq(p);
                if (p.kind != "serial")
                    q["protocol"] = p.kind == "mtcp" ? "modbus-tcp" : "modbus";
                q["slave_id"] = s.id;
            } else if (g.r.chance(0.8) || s.templ.empty())
                q["device_id"] = s.dev;
            else {
                q = g.PortReq(p);
                q["slave_id"] = std::to_string(s.id);
                q["device_type"] = s.templ;
                if (p.kind == "mtcp")
                    q["modbus_mode"] = "TCP";
            }
            if (m == "device/Load") {
                for (auto& id: s.paramIds)
                    if (g.r.chance(0.6))
                        q["parameters"].append(id);
                for (int ci: s.chans)
                    if (g.r.chance(0.3))
                        q["channels"].append(g.chans[ci].ctl);
            } else if (m == "device/LoadConfig") {
                q["force"] = g.r.chance(0.5);
            } else if (m == "device/Set") {
                if (g.r.chance(0.7))
                    q["parameters"] = Json::Value(Json::objectValue);
                if (g.r.chance(0.3))
                    q["channels"] = Json::Value(Json::objectValue);
                for (auto& id: s.paramIds)
                    if (g.r.chance(0.5))
                        q["parameters"][id] = (int)g.r.range(0, 30000);
            } else if (m == "device/SetPoll") {
                q = Json::Value();
                q["device_id"] = s.dev;
                q["poll"] = g.r.chance(0.5);
            }
            auto& op = g.RpcOp(t, m, q);
            op["x"]["kind"] = m;
            op["x"]["port"] = tg.port;
            op["x"]["slave"] = tg.slave;
        }
        void Other(double t, bool scans)
        {
            Json::Value q = Json::Value(Json::objectValue);
            double x = g.r.unit();
            if (scans && x < 0.5) {
                auto tg = !extra.empty() && g.r.chance(0.5) ? g.r.pick(extra) : conf.empty() ? g.r.pick(extra) : g.r.pick(conf);
                auto& p = g.ports[tg.port];
                q = Req(p, p.slaves[tg.slave]);
                static const char* md[] = {"all", "start", "next"};
                q["mode"] = md[g.r.below(3)];
                if (g.r.chance(0.5))
                    q["command"] = g.r.chance(0.5) ? 70 : 96;
                auto& op = g.RpcOp(t, "port/Scan", q);
                op["x"]["kind"] = "scan";
                op["x"]["port"] = tg.port;
                if (p.kind == "serial")
                    for (auto k: {"baud", "parity", "data", "stop"})
                        op["x"]["line"][k] = p.slaves[tg.slave].world.isMember(k) ? p.slaves[tg.slave].world[k] : p.world[k];
                return;
            }
            auto& op = g.RpcOp(t, x < 0.75 ? "ports/Load" : "config/Load", q);
            op["x"]["kind"] = "config";
        }
    };
    void Parameters(G& g, SlaveG& s)
    {
        int n = (int)g.r.range(1, 5), a = 3000 + (int)g.r.below(50);
        for (int i = 0; i < n; ++i) {
            auto id = "p" + std::to_string(i);
            Json::Value p;
            p["title"] = "Parameter " + id;
            p["reg_type"] = "holding";
            p["address"] = a;
            s.mem[{HOLDING, a}] = (int)g.r.below(30000);
            a += 1 + (g.r.chance(0.3) ? (int)g.r.range(1, 12) : 0);
            s.params[id] = p;
            s.paramIds.push_back(id);
        }
    }
    Json::Value GenRpc(uint64_t seed, bool c10)
    {
        G g(seed);
        g.o.setup = 0.3;
        g.o.chansMin = 1;
        g.o.chansMax = 6;
        g.o.guard = 0.4;
        g.o.templates = 0.5;
        g.o.tcp = 0.12;
        g.o.mtcp = 0.15;
        g.endMs = g.r.range(3000, 20000);
        g.quiesceMs = 60000;
        g.Ports();
        RpcGen x{g, c10};
        auto line = [&](PortG& p, SlaveG& s) {
            if (p.kind != "serial" || g.r.chance(0.4))
                return;
            static const int bauds[] = {9600, 19200, 38400, 57600, 115200, 2400};
            s.world["baud"] = bauds[g.r.below(6)];
            s.world["parity"] = std::string(1, "NEO"[g.r.below(3)]);
            s.world["data"] = 8;
            s.world["stop"] = g.r.chance(0.5) ? 2 : 1;
        };
        int np = (int)g.ports.size();
        for (auto& p: g.ports)
            for (auto& s: p.slaves) {
                x.conf.push_back({s.port, s.idx});
                if (!s.templ.empty())
                    Parameters(g, s);
            }
        for (int i = 0; i < np; ++i)
            for (int k = (int)g.r.below(3); k > 0; --k) {
                auto& s = g.AddSlave(g.ports[i]);
                s.extra = true;
                s.dev.clear();
                s.templ.clear();
                line(g.ports[i], s);
                x.extra.push_back({s.port, s.idx});
            }
        if (g.r.chance(0.35))
            for (int k = g.r.chance(0.4) ? (int)g.r.range(5, 8) : (int)g.r.range(1, 3); k > 0; --k) {
                double y = g.r.unit();
                auto& p = g.AddPort(y < 0.2 ? "tcp" : y < 0.4 ? "mtcp" : "serial");
                p.extra = true;
                p.slaves.reserve(4);
                auto& s = g.AddSlave(p);
                s.extra = true;
                s.dev.clear();
                s.templ.clear();
                line(p, s);
                x.extra.push_back({s.port, s.idx});
            }
        bool faults = g.r.chance(0.6);
        if (faults)
            g.Faults(LineFaults, (int)g.r.range(1, 6), 0, g.endMs, 6000);
        bool scans = g.r.chance(0.15), devs = g.r.chance(0.5), wild = c10 && g.r.chance(0.5);
        int ops = (int)g.r.range(2, 40);
        double t = 30;
        for (int i = 0; i < ops; ++i) {
            if (!g.r.chance(0.4) || i == 0)
                t = 30 + g.r.unit() * (g.endMs - 60);
            else
                t += g.r.chance(0.5) ? 0 : LogU(g.r, 0.01, 200);
            double y = g.r.unit();
            if (wild && y < 0.12)
                x.Invalid(t);
            else if (devs && y < 0.3)
                x.Device(t);
            else if (y < 0.36)
                x.Other(t, scans);
            else
                x.Load(t);
            auto& op = g.plan["ops"][(int)g.plan["ops"].size() - 1];
            op["c"] = (int)g.r.below(3);
        }
        std::vector<int> w;
        for (size_t i = 0; i < g.chans.size(); ++i)
            if (!g.chans[i].regs[0].ro)
                w.push_back((int)i);
        for (int i = w.empty() ? 0 : (int)g.r.range(0, 12); i > 0; --i)
            g.OnOp(g.r.pick(w), 20 + g.r.unit() * (g.endMs - 60));
        // nothing stays suspended
        for (auto& tg: x.conf) {
            auto& s = g.ports[tg.port].slaves[tg.slave];
            bool off = false;
            for (auto& op: g.plan["ops"])
                off |= op["method"].asString() == "device/SetPoll" && op["params"]["device_id"].asString() == s.dev && !op["params"]["poll"].asBool();
            if (off) {
                Json::Value q;
                q["device_id"] = s.dev;
                q["poll"] = true;
                auto& op = g.RpcOp(g.endMs + 100, "device/SetPoll", q);
                op["x"]["kind"] = "device/SetPoll";
                op["x"]["last"] = true;
                op["x"]["port"] = tg.port;
                op["x"]["slave"] = tg.slave;
            }
        }
        auto plan = g.Finish(c10 ? "C10" : "C07", std::string(faults ? "faults" : "clean") + (scans ? "+scan" : "") + (devs ? "+dev" : ""));
        return plan;
    }
    struct Call
    {
        int op;
        ns_t a, b; // asked, answered (or the end)
        const Reply* r = nullptr;
        int replies = 0;
        const Json::Value* x;
        const Json::Value* q;
        bool accepted;
        std::string method;
    };
    std::vector<Call> Calls(Ctx& c)
    {
        std::vector<Call> v;
        for (auto& o: H.ops) {
            auto& op = c.plan["ops"][o.idx];
            if (op["k"].asString() != "rpc")
                continue;
            Call k{o.idx, o.t, H.tEnd, nullptr, 0, &op["x"], &op["params"], o.accepted, op["method"].asString()};
            for (auto& r: H.replies)
                if (r.id == o.callId) {
                    if (!k.replies++) {
                        k.b = r.t;
                        k.r = &r;
                    }
                }
            v.push_back(k);
        }
        return v;
    }
    Line LineJ(const Json::Value& j)
    {
        Line l;
        l.baud = j["baud"].asInt();
        l.parity = j["parity"].asString()[0];
        l.data = j["data"].asInt();
        l.stop = j["stop"].asInt();
        return l;
    }
    bool SameLine(const Line& a, const Line& b)
    {
        return a == b && a.stop == b.stop;
    }
    void JudgeLine(Ctx& c)
    {
        auto calls = Calls(c);
        // configured guard intervals
        std::map<std::pair<int, int>, ns_t> guard; // port, unit
        int pi = 0;
        for (auto& p: c.plan["config"]["ports"]) {
            int si = 0;
            for (auto& d: p["devices"]) {
                int us = d["guard_interval_us"].asInt();
                if (!us)
                    us = p["guard_interval_us"].asInt();
                int unit = Ports[pi]->slaves[si++]->id;
                ns_t v = (ns_t)us * sim::US;
                auto& x = guard[{pi, unit}];
                x = x ? std::min(x, v) : v;
            }
            ++pi;
        }
        std::map<int, int> prev;
        for (auto& f: H.frames) {
            bool serial = Ports[f.port]->kind == "serial";
            auto strange = c.HostFault(f.port, f.t0 - 2 * sim::SEC, f.t0) || f.fate == "short_write" || Shifted(f);
            int pf = prev.count(f.port) ? prev[f.port] : -1;
            prev[f.port] = f.id;
            if (!strange) {
                ++H.probes["judged"];
                if (f.fate == "overlap")
                    c.Add("overlap", FrameStr(c, f) + ": began while another request was being sent");
                if (f.fate == "collision")
                    c.Add("collision", FrameStr(c, f) + ": began while a device was answering the request before it");
                // a search for devices waits for an answer as long as its own, shorter time-out allows
                bool search = false;
                for (auto& k: calls)
                    search |= pf >= 0 && k.x->isMember("port") && (*k.x)["port"].asInt() == f.port && !k.x->isMember("addr") &&
                              H.frames[pf].t0 >= k.a && H.frames[pf].t0 <= k.b;
                if (f.fate == "too_early" && !search)
                    c.Add("too_early", FrameStr(c, f) + ": began while the answer to the request before it was still to come within the time-out");
            }
            if (!f.crcOk || !serial || f.fate == "short_write")
                continue;
            bool ok = false;
            std::string expect;
            bool tcset = c.HostFault(f.port, f.t0 - 2 * sim::SEC, f.t0 + sim::SEC);
            bool rpc = f.addr >= BASE && f.fn >= 1 && f.fn <= 23 && f.unit != 0xFD && !f.sn;
            bool poll = !rpc && f.unit != 0xFD && !f.sn && guard.count({f.port, f.unit});
            if (rpc) {
                for (auto& k: calls) {
                    auto& x = *k.x;
                    if (!x.isMember("addr") || x["port"].asInt() != f.port || f.addr < x["addr"].asInt() || f.addr >= x["addr"].asInt() + 8)
                        continue;
                    ++H.probes["judged"];
                    expect = LineJ(x["line"]).Str();
                    ok = SameLine(f.line, LineJ(x["line"]));
                    if (f.t0 < k.a || f.t0 > k.b)
                        c.Add("stray_request", FrameStr(c, f) + ": belongs to RPC request " + std::to_string(k.op) + ", which was open from " + c.Ms(k.a) + " to " +
                                                   c.Ms(k.b));
                }
            } else {
                expect = Ports[f.port]->line.Str();
                bool open = false;
                for (auto& k: calls) {
                    auto& x = *k.x;
                    if (!x.isMember("port") || x["port"].asInt() != f.port || f.t0 < k.a || f.t0 > k.b || x.isMember("addr"))
                        continue;
                    open = true;
                    if (x.isMember("line"))
                        ok |= SameLine(f.line, LineJ(x["line"]));
                }
                ok |= SameLine(f.line, Ports[f.port]->line);
                if (!open && !poll && f.unit != 0xFD)
                    c.Add("stray_request", FrameStr(c, f) + ": neither a configured device nor a request of a client");
                ++H.probes["judged"];
            }
            if (!ok && !tcset)
                c.Add("line_settings", FrameStr(c, f) + ": sent with " + f.line.Str() + " instead of " + expect);
            if (poll && !strange && pf >= 0 && (IsRead(f) || IsWrite(f))) {
                auto& g = H.frames[pf];
                bool quietPrev = g.fate.empty() || g.fate == "exc" || g.fate == "drop_req" || g.fate == "drop_rsp" || g.fate == "offline" || g.fate == "nobody";
                bool open = false;
                for (auto& k: calls)
                    open |= k.x->isMember("port") && (*k.x)["port"].asInt() == f.port && f.t0 >= k.a && f.t0 <= k.b && !k.x->isMember("addr");
                ns_t want = guard[{f.port, f.unit}];
                if (quietPrev && want && !open && f.gap < want)
                    c.Add("guard", FrameStr(c, f) + ": sent after a silence of " + std::to_string(f.gap / sim::US) + " us, configured are " +
                                       std::to_string(want / sim::US) + " us");
            }
        }
        Converged(c);
    }
    void JudgeRpc(Ctx& c)
    {
        auto calls = Calls(c);
        std::map<int, int> perPort;
        for (auto& k: calls)
            if (k.x->isMember("port"))
                perPort[(*k.x)["port"].asInt()] += k.method == "port/Scan" ? 10 : k.method.substr(0, 7) == "device/" ? 8 : 1;
        std::set<int> usedFrames;
        if (c.out.end != "ok")
            return;
        bool calm = c.FaultFree() && c.plan["sched"]["stallP"].asDouble() == 0;
        for (auto& k: calls) {
            auto& x = *k.x;
            auto name = "RPC request " + std::to_string(k.op) + " (" + k.method + ") of " + c.Ms(k.a);
            if (!k.accepted)
                continue;
            ++H.probes["judged"];
            if (k.replies == 0) {
                c.Add("no_answer", name + " has not been answered by " + c.Ms(H.tTerm));
                continue;
            }
            if (k.replies > 1)
                c.Add("answered_twice", name + " was answered " + std::to_string(k.replies) + " times");
            auto kind = x["kind"].asString();
            ns_t total = (k.q->isMember("total_timeout") ? (*k.q)["total_timeout"].asInt() : 10000) * sim::MS;
            ns_t lim = total + 20 * sim::SEC + c.StallSlack() * 3;
            if (x.isMember("port"))
                lim += perPort[x["port"].asInt()] * 7 * sim::SEC;
            if (k.b - k.a > lim)
                c.Add("late_answer", name + " was answered " + c.Ms(k.b).substr(0, 0) + std::to_string((k.b - k.a) / sim::MS) + " ms after it was asked");
            if (kind == "bad") {
                if (k.r->ok && k.method != "port/Setup")
                    c.Add("invalid_accepted", name + " is not valid but was answered with a result");
                continue;
            }
            if (kind == "config") {
                if (!k.r->ok || k.r->res.isNull())
                    c.Add("config_failed", name + " failed: " + k.r->msg);
                continue;
            }
            if (!x.isMember("addr"))
                continue;
            int port = x["port"].asInt(), fn = x["fn"].asInt(), a = x["addr"].asInt(), cnt = x["count"].asInt();
            bool write = fn == 5 || fn == 6 || fn == 15 || fn == 16 || fn == 23;
            std::vector<const Frame*> mine;
            for (auto& f: H.frames)
                if (f.port == port && f.crcOk && f.addr >= a && f.addr < a + 8 && f.fn >= 1 && f.fn <= 23 && f.unit != 0xFD)
                    mine.push_back(&f);
            for (auto f: mine) {
                bool same = f->unit == x["unit"].asInt() && f->fn == fn && f->addr == a && f->count == cnt;
                if (write)
                    same &= HexStr(f->data) == x["data"].asString();
                if (!same)
                    c.Add("wrong_request", FrameStr(c, *f) + ": not what " + name + " asked for: unit " + x["unit"].asString() + " function " + std::to_string(fn) +
                                               " address " + std::to_string(a) + " count " + std::to_string(cnt) + " data " + x["data"].asString());
                // bytes under way to a gateway outlive the connection
                ns_t flight = Ports[port]->kind == "serial" ? 0 : 2 * sim::SEC;
                if (f->t0 < k.a || f->t0 > k.b + flight)
                    c.Add("stray_request", FrameStr(c, *f) + ": sent outside the life of " + name);
                if (f->t0 > k.a + total + 12 * sim::SEC + c.StallSlack())
                    c.Add("expired_sent", FrameStr(c, *f) + ": sent long after " + name + " had expired");
            }
            if (mine.size() > 1)
                c.Add("sent_again", name + " was put on the line " + std::to_string(mine.size()) + " times");
            if (k.r->ok) {
                if (mine.empty()) {
                    c.Add("invented_answer", name + " was answered with a result, but nothing had been sent for it");
                    continue;
                }
                auto& f = *mine.back();
                bool tcp = Ports[port]->kind == "mtcp";
                std::string want;
                std::string got = k.r->res["response"].asString();
                bool raw = kind == "raw";
                if (!raw && !f.replied && Ports[port]->kind != "mtcp" && f.fate != "late" && f.fate != "dup_rsp" && f.fate != "corrupt" && f.fate != "unheard" && f.fate != "delay")
                    c.Add("invented_answer", name + " was answered with " + k.r->res.toStyledString() + " but the device's answer never came: " + FrameStr(c, f));
                if (f.fate == "corrupt" || f.fate == "trunc" || f.fate == "late" || !f.replied)
                    continue;
                if (c.HostFault(port, f.t0 - sim::SEC, f.rsp1 + 300 * sim::MS))
                    continue;
                if (f.exc) {
                    if (!raw && (!k.r->res.isMember("exception") || k.r->res["exception"]["code"].asInt() != f.exc))
                        c.Add("wrong_answer", name + ": the device refused with exception " + std::to_string(f.exc) + ", the answer is " + k.r->res.toStyledString());
                    continue;
                }
                // the device's own words
                Bytes b = f.rsp;
                if (tcp)
                    b.insert(b.begin(), 0); // only the PDU was recorded
                if (raw) {
                    want = HexStr(b);
                    if (tcp)
                        continue;
                } else {
                    if (fn <= 4 || fn == 23)
                        want = HexStr(Bytes(b.begin() + 3, b.begin() + 3 + b[2]));
                }
                if (want != got)
                    c.Add("wrong_answer", name + " was answered with \"" + got + "\", the device had answered \"" + want + "\"");
                if (write && !f.applied)
                    c.Add("wrong_answer", name + " was confirmed but the device did not execute it");
                continue;
            }
            // an error without a reason
            bool room = true;
            for (auto& o: calls)
                if (&o != &k && o.x->isMember("port") && (*o.x)["port"].asInt() == port && o.a <= k.b && o.b >= k.a)
                    room &= o.x->isMember("addr") && o.b - o.a < 2 * sim::SEC;
            bool dflt = !k.q->isMember("total_timeout") && !k.q->isMember("response_timeout") && !k.q->isMember("frame_timeout");
            if (calm && room && dflt && x["slave"].asInt() >= 0 && perPort[port] < 30 && !Ports[port]->slaves[x["slave"].asInt()]->fast)
                c.Add("failed_for_nothing", name + " failed with \"" + k.r->msg + "\" although nothing was wrong and the device is there");
        }
        Converged(c);
    }
    Json::Value Gen07(uint64_t s, bool)
    {
        return GenRpc(s, false);
    }
    Json::Value Gen10(uint64_t s, bool)
    {
        return GenRpc(s, true);
    }
}
static Register r07("C07", Gen07, JudgeLine), r10("C10", Gen10, JudgeRpc);
