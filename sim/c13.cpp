// C13: firmware updates
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    const std::string Base = "https://fw-releases.wirenboard.com";
    const std::string Topic = "/wb-mqtt-serial/firmware_update/state";

    struct FwGen
    {
        G& g;
        Json::Value http = Json::Value(Json::objectValue);
        std::map<std::string, std::map<std::string, std::string>> index[2]; // 0 firmware, 1 bootloader
        int n = 0;

        static std::string Hex(const std::string& b)
        {
            std::string s;
            for (unsigned char ch: b) {
                s += "0123456789abcdef"[ch >> 4];
                s += "0123456789abcdef"[ch & 15];
            }
            return s;
        }
        std::string Bytes(int len)
        {
            std::string s;
            for (int i = 0; i < len; ++i)
                s.push_back((char)g.r.next());
            return s;
        }
        std::string Ver(int maj, bool shrt = false)
        {
            return std::to_string(maj) + "." + std::to_string(g.r.below(shrt ? 9 : 30)) + "." + std::to_string(g.r.below(shrt ? 9 : 20));
        }
        void Str(SlaveG& s, int space, int addr, int len, const std::string& v)
        {
            for (int i = 0; i < len; ++i)
                s.mem[{space, addr + i}] = i < (int)v.size() ? (uint8_t)v[i] : 0;
        }
        // Releases an image; what the device accepts goes to `images`. Returns {ver, good}
        Json::Value Image(Json::Value& images, const std::string& sig, const std::string& kind, int comp, const std::string& ver, int baud)
        {
            bool boot = kind == "bootloader";
            Json::Value res;
            res["ver"] = ver;
            res["good"] = true;
            res["listed"] = true;
            int blocks = g.r.chance(0.15) && baud >= 9600 ? (int)g.r.range(20, 60) : (int)g.r.range(1, baud >= 9600 ? 12 : 5);
            std::string info = Bytes(32), data = Bytes(136 * (blocks - 1) + 2 * (int)g.r.range(1, 68));
            if (g.r.chance(0.04))
                data.clear();
            Json::Value im;
            im["info"] = Hex(info);
            im["data"] = Hex(data);
            im["version"] = ver;
            im["kind"] = kind;
            im["component"] = comp;
            images.append(im);
            if (data.empty())
                res["good"] = false; // nothing to flash
            std::string path = std::string(boot ? "boot" : "fw") + "/by-signature/" + sig + "/stable/" + ver + (comp >= 0 ? ".compfw" : ".wbfw");
            std::string body = info + data;
            double x = g.r.unit();
            if (x < 0.04) {
                res["good"] = res["listed"] = false;
                index[boot][sig]["testing"] = path;
                return res;
            }
            if (x < 0.06) {
                res["good"] = res["listed"] = false;
                return res;
            }
            index[boot][sig]["stable"] = path;
            if (g.r.chance(0.5))
                index[boot][sig]["testing"] = "fw/by-signature/" + sig + "/testing/99.0.0.wbfw";
            std::string url = Base + "/" + path;
            if (x < 0.09) {
                res["good"] = false; // no such file
                return res;
            }
            if (x < 0.11) {
                res["good"] = false;
                body.resize(body.size() - 1);
            } else if (x < 0.13) {
                res["good"] = false;
                body.resize(2 * g.r.below(16));
            } else if (x < 0.16) {
                res["good"] = false; // for another device
                body[0] ^= 1;
            }
            http[url]["hex"] = Hex(body);
            return res;
        }
        Json::Value Device(SlaveG& s)
        {
            Json::Value d;
            d["port"] = s.port;
            d["slave"] = s.idx;
            s.wb = true;
            s.world["wb"] = true;
            auto sig = "sig" + std::to_string(n++);
            d["sig"] = sig;
            auto fw = Ver(1), bl = Ver(1, true);
            Str(s, HOLDING, 290, 12, sig);
            Str(s, HOLDING, 250, 16, fw);
            Str(s, HOLDING, 330, 7, bl);
            Str(s, HOLDING, 200, 20, "MODEL" + std::to_string(n));
            auto& b = s.world["boot"];
            b["waitMs"] = 20000;
            int baud = s.world.isMember("baud") ? s.world["baud"].asInt() : g.ports[s.port].baud;
            auto& images = b["images"] = Json::Value(Json::arrayValue);
            d["fw"] = Image(images, sig, "firmware", -1, g.r.chance(0.8) ? Ver(2) : Ver(0), baud);
            d["boot"] = Image(images, sig, "bootloader", -1, g.r.chance(0.8) ? Ver(2, true) : Ver(0, true), baud);
            b["components"] = Json::Value(Json::arrayValue);
            d["comps"] = Json::Value(Json::arrayValue);
            if (g.r.chance(0.4)) {
                for (int i = 0; i < 8; ++i)
                    s.mem[{DISCRETE, 65152 + i}] = 0;
                for (int k = 0; k < 8; ++k) {
                    if (!g.r.chance(0.3))
                        continue;
                    s.mem[{DISCRETE, 65152 + k}] = 1;
                    auto cs = "cmp" + std::to_string(n++);
                    auto ver = Ver(1);
                    bool gone = g.r.chance(0.1);
                    Str(s, INPUT, 64788 + 48 * k, 12, gone ? std::string(12, '\xFE') : cs);
                    Str(s, INPUT, 64800 + 48 * k, 16, ver);
                    Str(s, INPUT, 64768 + 48 * k, 20, "CM" + std::to_string(k));
                    if (gone)
                        continue;
                    b["components"].append(k);
                    auto c = Image(images, cs, "component", k, g.r.chance(0.2) ? ver : Ver(2), baud);
                    c["n"] = k;
                    d["comps"].append(c);
                }
            }
            bool preserve = g.r.chance(0.6);
            if (preserve)
                s.mem[{HOLDING, 131}] = 0;
            else if (g.r.chance(0.5))
                b["silentReboot"] = true;
            if (g.r.chance(0.3))
                b["noModelInBoot"] = true;
            if (g.r.chance(0.1))
                b["startInBoot"] = b["broken"] = true;
            auto& p = g.ports[s.port];
            auto set = [&](const char* k) { return s.world.isMember(k) ? s.world[k] : p.world[k]; };
            bool dflt = set("baud").asInt() == 9600 && set("parity").asString() == "N" && set("stop").asInt() == 2 && set("data").asInt() == 8;
            d["compat"] = preserve || dflt;
            d["dflt"] = dflt;
            return d;
        }
        Json::Value Req(const Json::Value& d)
        {
            auto& p = g.ports[d["port"].asInt()];
            auto& s = p.slaves[d["slave"].asInt()];
            Json::Value q;
            q["slave_id"] = s.id;
            q["port"]["path"] = p.path;
            for (auto k: {"baud", "parity", "data", "stop"})
                q["port"][std::string(k) == "baud" ? "baud_rate" : std::string(k) == "data" ? "data_bits" : std::string(k) == "stop" ? "stop_bits" : k] =
                    s.world.isMember(k) ? s.world[k] : p.world[k];
            if (g.r.chance(0.5))
                q["protocol"] = "modbus";
            return q;
        }
        void Index()
        {
            for (int b = 0; b < 2; ++b) {
                std::string t = g.r.chance(0.3) ? "# releases\n\n" : "";
                t += "releases:\n";
                for (auto& kv: index[b]) {
                    t += "  " + kv.first + ":\n";
                    for (auto& sv: kv.second)
                        t += "    " + sv.first + ": " + sv.second + "\n";
                }
                if (g.r.chance(0.3))
                    t += "other:\n  sig0:\n    stable: fw/wrong/77.0.0.wbfw\n";
                http[Base + (b ? "/boot" : "/fw") + "/by-signature/release-versions.yaml"]["body"] = t;
            }
        }
    };

    Json::Value Gen(uint64_t seed, bool)
    {
        G g(seed);
        g.o.tcp = g.o.mtcp = 0;
        g.o.templates = 0.3;
        g.o.chansMax = 4;
        g.o.io = 0;
        g.o.fast = 0.15;
        g.o.wbDev = 0;
        g.o.setup = 0.3;
        g.endMs = g.r.range(8000, 60000);
        g.quiesceMs = 60000;
        g.Ports();
        FwGen x{g};
        if (g.r.chance(0.3)) {
            auto& p = g.AddPort("serial");
            p.extra = true;
            p.slaves.reserve(4);
            auto& s = g.AddSlave(p);
            s.extra = true;
            s.dev.clear();
            s.templ.clear();
        }
        Json::Value devs(Json::arrayValue);
        for (auto& p: g.ports) {
            if (g.r.chance(0.6)) { // the settings boot loaders have
                p.world["baud"] = p.cfg["baud_rate"] = 9600;
                p.world["parity"] = p.cfg["parity"] = "N";
                p.world["data"] = p.cfg["data_bits"] = 8;
                p.world["stop"] = p.cfg["stop_bits"] = 2;
                p.baud = 9600;
            }
            if (!p.extra && g.r.chance(0.3)) {
                p.slaves.reserve(8);
                auto& s = g.AddSlave(p);
                s.extra = true;
                s.dev.clear();
                s.templ.clear();
                s.world["up"] = true;
            }
            for (auto& s: p.slaves) {
                bool free = devs.size() < 3;
                for (auto& m: s.mem) // registers firmware updates need
                    free &= !(m.first.first == HOLDING && m.first.second >= 100 && m.first.second < 400) && m.first.second < 60000;
                if (free && (s.extra || devs.empty() || g.r.chance(0.4)))
                    devs.append(x.Device(s));
            }
        }
        if (devs.empty()) { // nothing but the indexes
            auto& p = g.ports[0];
            p.slaves.reserve(8);
            auto& s = g.AddSlave(p);
            s.extra = true;
            s.dev.clear();
            s.templ.clear();
            devs.append(x.Device(s));
        }
        x.Index();
        g.plan["http"] = x.http;
        g.plan["release"] = g.r.chance(0.05) ? "SUITE = nothing\n" : "RELEASE_NAME=wb-2410\nSUITE=stable\nTARGET=wb8\n";
        bool released = g.plan["release"].asString().find("=stable") != std::string::npos;
        g.plan["fw"] = devs;
        bool faults = g.r.chance(0.65);
        double t = 200 + g.r.unit() * 3000;
        int n = (int)g.r.range(1, 7);
        static const std::vector<std::string> types{"firmware", "firmware", "firmware", "bootloader", "component", ""};
        for (int i = 0; i < n; ++i) {
            auto& d = devs[(int)g.r.below(devs.size())];
            auto q = x.Req(d);
            double y = g.r.unit();
            std::string m = "Update";
            if (y < 0.55) {
                auto ty = g.r.pick(types);
                if (g.r.chance(0.03))
                    ty = "toaster";
                if (!ty.empty())
                    q["type"] = ty;
            } else if (y < 0.65)
                m = "Restore";
            else if (y < 0.85)
                m = "GetFirmwareInfo";
            else {
                m = "ClearError";
                auto ty = g.r.pick(types);
                if (!ty.empty())
                    q["type"] = ty;
            }
            if (g.r.chance(0.03))
                q["slave_id"] = g.r.chance(0.5) ? Json::Value(300) : Json::Value("5");
            auto& op = g.RpcOp(t, "fw-update/" + m, q);
            op["c"] = (int)g.r.below(3);
            op["x"]["fw"] = &d - &devs[0];
            op["x"]["m"] = m;
            if (faults && (m == "Update" || m == "Restore") && g.r.chance(0.4)) { // while it is being flashed
                static const std::vector<std::string> k{"drop_req", "drop_rsp", "trunc", "corrupt", "exc", "offline", "power"};
                double from = t + LogU(g.r, 100, 5000), len = LogU(g.r, 30, 4000);
                g.Fault(g.r.pick(k), from, from + len, d["port"].asInt(), d["slave"].asInt());
                auto& f = g.LastFault();
                f["p"] = g.r.chance(0.4) ? 1.0 : 0.2 + 0.7 * g.r.unit();
                if (f["k"] == "exc")
                    f["arg"] = g.r.chance(0.5) ? 6 : 8;
            }
            t += g.r.chance(0.3) ? LogU(g.r, 1, 300) : LogU(g.r, 300, 20000);
            if (t > g.endMs - 100)
                t = 100 + g.r.unit() * (g.endMs - 300);
        }
        if (faults) {
            std::vector<std::string> k{"drop_req", "drop_rsp", "trunc", "corrupt", "exc", "offline", "power", "reboot", "http_fail", "http_status", "http_short"};
            if (g.r.chance(0.2))
                k = LineFaults;
            g.Faults(k, (int)g.r.range(1, 5), 0, g.endMs, 8000);
            Json::Value fs(Json::arrayValue);
            for (auto f: g.plan["faults"]) {
                auto kk = f["k"].asString();
                if (kk == "late" || kk == "evil" || kk == "delay")
                    continue;
                if (kk == "exc" && f["arg"].asInt() == 4)
                    f["arg"] = 6;
                if (kk.compare(0, 4, "http") == 0) {
                    f.removeMember("port");
                    f.removeMember("slave");
                    if (g.r.chance(0.6)) {
                        f["t0"] = 0;
                        f["t1"] = g.endMs;
                        f["p"] = 0.1 + 0.5 * g.r.unit();
                    }
                    f["arg"] = kk == "http_fail" ? 28 : kk == "http_status" ? 503 : (int)g.r.range(0, 99);
                }
                fs.append(f);
            }
            g.plan["faults"] = fs;
        }
        for (int i = (int)g.r.range(0, 8); i > 0; --i) {
            int c = (int)g.r.below(g.chans.size());
            double at = 50 + g.r.unit() * (g.endMs - 60);
            if (!g.chans[c].regs[0].ro && g.r.chance(0.5))
                g.OnOp(c, at);
            else
                g.SetOp(c, at);
        }
        // everything works again: repair the devices
        double e = g.endMs + 25000;
        for (auto& d: devs) {
            auto r = x.Req(d);
            auto& o1 = g.RpcOp(e, "fw-update/Restore", r);
            o1["x"]["fw"] = &d - &devs[0];
            o1["x"]["m"] = "Restore";
            o1["x"]["final"] = true;
            e += 25000;
            r["type"] = g.r.chance(0.6) ? "firmware" : g.r.chance(0.5) ? "bootloader" : "component";
            auto& o2 = g.RpcOp(e, "fw-update/Update", r);
            o2["x"]["fw"] = &d - &devs[0];
            o2["x"]["m"] = "Update";
            o2["x"]["final"] = true;
            e += 60000;
            auto& o3 = g.RpcOp(e, "fw-update/GetFirmwareInfo", x.Req(d));
            o3["x"]["fw"] = &d - &devs[0];
            o3["x"]["m"] = "GetFirmwareInfo";
            o3["x"]["final"] = true;
            e += 6000;
        }
        g.plan["fwReleased"] = released;
        g.quiesceMs = e - g.endMs + 15000;
        return g.Finish("C13", faults ? "faults" : "calm");
    }

    struct Entry // of the published state
    {
        std::string path, type, to, err;
        int slave = 0, progress = 0, comp = -1;
        bool error = false;
        bool Same(const Entry& o) const
        {
            return path == o.path && type == o.type && slave == o.slave;
        }
    };
    struct State
    {
        ns_t t;
        std::vector<Entry> e;
    };
    std::string MemStr(const Ctx& c, int port, int slave, int space, int addr, int len, ns_t t)
    {
        std::string s;
        for (int i = 0; i < len; ++i) {
            int v = c.MemAt(port, slave, space, addr + i, t);
            if (v <= 0)
                break;
            s.push_back((char)v);
        }
        return s;
    }
    int Cmp(const std::string& a, const std::string& b)
    {
        int x[3] = {}, y[3] = {};
        sscanf(a.c_str(), "%d.%d.%d", x, x + 1, x + 2);
        sscanf(b.c_str(), "%d.%d.%d", y, y + 1, y + 2);
        for (int i = 0; i < 3; ++i)
            if (x[i] != y[i])
                return x[i] < y[i] ? -1 : 1;
        return 0;
    }

    void Judge(Ctx& c)
    {
        const auto& devs = c.plan["fw"];
        auto name = [&](const Entry& e) { return e.type + " of device " + std::to_string(e.slave) + " on " + e.path; };
        std::vector<State> st;
        for (auto& tp: H.topics) {
            if (tp.topic != Topic)
                continue;
            State s{tp.t, {}};
            Json::Value j;
            Json::CharReaderBuilder rb;
            std::string er;
            std::unique_ptr<Json::CharReader> rd(rb.newCharReader());
            if (!rd->parse(tp.payload.data(), tp.payload.data() + tp.payload.size(), &j, &er) || !j["devices"].isArray()) {
                c.Add("bad_state", "the published state is not valid: " + tp.payload.substr(0, 200));
                continue;
            }
            if (!tp.retained)
                c.Add("bad_state", "the state of " + c.Ms(tp.t) + " is not retained");
            for (auto& d: j["devices"]) {
                Entry e;
                e.path = d["port"]["path"].asString();
                e.type = d["type"].asString();
                e.to = d["to_version"].asString();
                e.slave = d["slave_id"].asInt();
                e.progress = d["progress"].asInt();
                e.error = !d["error"].isNull();
                e.comp = d["component_number"].isInt() ? d["component_number"].asInt() : -1;
                for (auto& o: s.e)
                    if (o.Same(e))
                        c.Add("bad_state", "two entries for " + name(e) + " at " + c.Ms(tp.t));
                s.e.push_back(e);
            }
            st.push_back(s);
        }
        if (st.empty()) {
            if (c.out.end == "ok")
                c.Add("no_state", "no state was ever published");
            return;
        }
        auto slack = c.StallSlack();
        struct Op
        {
            int idx, fw;
            ns_t t, done;
            bool answered, ok;
            std::string m, type, msg;
            Json::Value res;
            bool final, bad;
        };
        std::vector<Op> ops;
        for (auto& o: H.ops) {
            auto& op = c.plan["ops"][o.idx];
            if (!op["x"].isMember("m"))
                continue;
            Op p{o.idx, op["x"]["fw"].asInt(), o.t, H.tEnd, false, false, op["x"]["m"].asString(), op["params"].get("type", "firmware").asString(), "", {}, op["x"]["final"].asBool(), false};
            p.bad = !op["params"]["slave_id"].isInt() || op["params"]["slave_id"].asInt() > 255 || !o.accepted;
            for (auto& r: H.replies)
                if (r.id == o.callId) {
                    p.done = r.t;
                    p.answered = true;
                    p.ok = r.ok;
                    p.msg = r.msg;
                    p.res = r.res;
                }
            ops.push_back(p);
        }
        auto runs = [&](const Op& o) { return o.m == "Update" || o.m == "Restore"; };
        auto who = [&](const Entry& e) {
            for (Json::ArrayIndex i = 0; i < devs.size(); ++i)
                if (c.plan["ports"][devs[i]["port"].asInt()]["path"].asString() == e.path &&
                    c.plan["ports"][devs[i]["port"].asInt()]["slaves"][devs[i]["slave"].asInt()]["id"].asInt() == e.slave)
                    return (int)i;
            return -1;
        };
        auto took = [&](int fw, const Entry& e, ns_t a, ns_t b) {
            for (auto& x: H.boots)
                if (x.port == devs[fw]["port"].asInt() && x.slave == devs[fw]["slave"].asInt() && x.t >= a && x.t <= b && x.what == "done:" + e.to)
                    return true;
            return false;
        };
        auto empty = [&](int fw, const Entry& e) { // an image without data
            for (auto& im: c.plan["ports"][devs[fw]["port"].asInt()]["slaves"][devs[fw]["slave"].asInt()]["boot"]["images"])
                if (im["version"].asString() == e.to && im["data"].asString().empty())
                    return true;
            return false;
        };
        // the published state
        struct Life
        {
            Entry e;
            ns_t a, b;
            bool failed;
        };
        std::vector<Life> lives;
        std::vector<Life> open;
        for (size_t i = 1; i < st.size(); ++i)
            for (auto& e: st[i - 1].e) {
                if (!e.error)
                    continue;
                const Entry* now = nullptr;
                for (auto& x: st[i].e)
                    if (x.Same(e))
                        now = &x;
                bool cleared = now != nullptr;
                for (auto& o: ops)
                    cleared |= o.m == "ClearError" && o.ok && o.type == e.type && o.fw == who(e) && o.t <= st[i].t && o.done >= st[i].t;
                ++H.probes["judged"];
                if (!cleared)
                    c.Add("error_lost", "the error of the " + name(e) + " disappeared at " + c.Ms(st[i].t) + ", nobody cleared it");
            }
        for (size_t i = 0; i < st.size(); ++i) {
            auto& s = st[i];
            for (auto it = open.begin(); it != open.end();) {
                const Entry* now = nullptr;
                for (auto& e: s.e)
                    if (e.Same(it->e))
                        now = &e;
                bool other = now && !now->error && (now->to != it->e.to || now->comp != it->e.comp);
                if (now && !other && !now->error) {
                    if (now->progress < it->e.progress && now->progress != 0)
                        c.Add("progress_falls", "progress of the " + name(*now) + " fell from " + std::to_string(it->e.progress) + " to " + std::to_string(now->progress) + " at " + c.Ms(s.t));
                    if (now->progress < 0 || now->progress > 100)
                        c.Add("bad_state", "progress is " + std::to_string(now->progress));
                    it->e = *now;
                    ++it;
                    continue;
                }
                it->b = s.t;
                it->failed = now && now->error;
                if (!it->failed) {
                    ++H.probes["judged"];
                    int fw = who(it->e);
                    if (fw >= 0 && !took(fw, it->e, it->a - 1, s.t) && !empty(fw, it->e))
                        c.Add("false_success", "the update of the " + name(it->e) + " to " + it->e.to + ", begun at " + c.Ms(it->a) + ", was shown as finished without an error at " + c.Ms(s.t) + ", but the device has not taken the image");
                    Probe("update_ok");
                } else
                    Probe("update_failed");
                lives.push_back(*it);
                it = open.erase(it);
            }
            for (auto& e: s.e) {
                bool known = false;
                for (auto& o: open)
                    known |= o.e.Same(e);
                if (known || e.error)
                    continue;
                open.push_back({e, s.t, 0, false});
                // somebody asked for it
                const Op* by = nullptr;
                for (auto& o: ops)
                    if (runs(o) && o.ok && o.answered && o.done <= s.t && (!by || o.done > by->done))
                        by = &o;
                if (!by || by->fw != who(e))
                    c.Add("invented", "the " + name(e) + " is shown as being updated at " + c.Ms(s.t) + ", but nobody asked for that");
            }
        }
        if (c.out.end == "ok")
            for (auto& o: open)
                c.Add("stuck", "the update of the " + name(o.e) + ", begun at " + c.Ms(o.a) + ", is still shown as running at the end");
        // requests
        auto busyEnd = [&](const Op& o) { // when the work a request started ended at the latest
            if (!o.answered)
                return H.tEnd;
            if (!o.ok)
                return o.done;
            ns_t next = H.tEnd, e = o.done;
            for (auto& p: ops)
                if (runs(p) && p.ok && p.answered && p.done > o.done)
                    next = std::min(next, p.done);
            for (auto& l: lives)
                if (l.a >= o.done && l.a < next)
                    e = std::max(e, l.b);
            for (auto& l: open)
                if (l.a >= o.done && l.a < next)
                    e = H.tEnd;
            return e;
        };
        for (auto& o: ops) {
            ++H.probes["judged"];
            std::string what = o.m + " of " + c.Ms(o.t);
            if (!o.answered) {
                if (c.out.end == "ok")
                    c.Add("no_reply", what + " was never answered");
                continue;
            }
            int n = 0;
            for (auto& r: H.replies)
                n += r.id == o.idx;
            if (n > 1)
                c.Add("two_replies", what + " was answered " + std::to_string(n) + " times");
            if (o.bad) {
                if (o.ok)
                    c.Add("bad_accepted", what + " has a wrong slave_id and was answered Ok");
                continue;
            }
            if (o.fw < 0 || o.fw >= (int)devs.size())
                continue;
            auto& d = devs[o.fw];
            int port = d["port"].asInt(), slave = d["slave"].asInt();
            if (!o.ok && o.msg.find("already executing") != std::string::npos) {
                bool busy = false;
                if (runs(o)) {
                    for (auto& p: ops)
                        busy |= &p != &o && runs(p) && p.t <= o.done && busyEnd(p) + 15 * sim::SEC + slack >= o.t;
                } else
                    for (size_t i = 0; i < st.size(); ++i) {
                        ns_t till = i + 1 < st.size() ? st[i + 1].t : H.tEnd;
                        if (st[i].t > o.done || till + sim::SEC + slack < o.t)
                            continue;
                        for (auto& e: st[i].e)
                            busy |= who(e) == o.fw && !e.error;
                    }
                if (!busy)
                    c.Add("refused_as_busy", what + " for device " + std::to_string(o.fw) + " was refused because a task is already executing, but none is");
                continue;
            }
            if (o.m == "Update" && o.ok) {
                // a failure to be seen or a success
                bool shown = false;
                ns_t next = H.tEnd;
                for (auto& p: ops)
                    if (runs(p) && p.ok && p.answered && p.done > o.done)
                        next = std::min(next, p.done);
                for (auto& s: st)
                    if (s.t >= o.done && s.t <= next)
                        for (auto& e: s.e)
                            shown |= who(e) == o.fw;
                bool nothing = o.type == "component"; // nothing newer
                if (!shown && !nothing && c.out.end == "ok")
                    c.Add("silent", what + " (" + o.type + ") was answered Ok, but neither an update nor an error was ever shown for it");
            }
            auto& sl = c.plan["ports"][port]["slaves"][slave];
            bool line = c.plan["fwReleased"].asBool();
            bool calm = c.FaultFree() || o.final;
            auto quiet = [&](ns_t a, ns_t b) { // nobody else works with firmware
                for (auto& p: ops)
                    if (&p != &o && runs(p) && p.t < b && busyEnd(p) + 3 * sim::SEC + slack > a)
                        return false;
                return true;
            };
            if (o.m == "Update" && calm && line && d["compat"].asBool() && (d["dflt"].asBool() || !o.final) && quiet(o.t, busyEnd(o))) {
                bool started = false; // in the boot loader, or going there
                for (auto& b: H.boots)
                    started |= b.port == port && b.slave == slave && b.t > o.t - 30 * sim::SEC && b.t < o.t;
                started |= sl["boot"]["startInBoot"].asBool() || !slack == 0;
                for (auto& e: H.slaves)
                    started |= e.port == port && e.slave == slave && e.t > o.t - 3 * sim::SEC && e.t < o.done + sim::SEC;
                if (o.final) {
                    started = false;
                    for (auto& b: H.boots)
                        started |= b.port == port && b.slave == slave && b.t > o.t - 5 * sim::SEC && b.t < o.t;
                    // still waiting in the boot loader: the restoring failed
                    if (!d["fw"]["good"].asBool())
                        started = true;
                }
                bool good = o.type == "firmware" ? d["fw"]["good"].asBool() : o.type == "bootloader" ? d["fw"]["good"].asBool() && d["boot"]["good"].asBool() : false;
                if (!started && good) {
                    ns_t e = busyEnd(o);
                    Entry en;
                    en.to = d["fw"]["ver"].asString();
                    Probe("must_succeed");
                    if (!took(o.fw, en, o.t, e))
                        c.Add("failed_without_reason", what + " (" + o.type + ") did not bring version " + en.to + " to device " + std::to_string(o.fw) + ": " + (o.ok ? "Ok" : o.msg));
                    en.to = d["boot"]["ver"].asString();
                    if (o.type == "bootloader" && !took(o.fw, en, o.t, e))
                        c.Add("failed_without_reason", what + " did not bring boot loader " + en.to + " to device " + std::to_string(o.fw));
                }
            }
            if (o.m == "GetFirmwareInfo" && o.ok) {
                auto in = [&](const char* k, int space, int addr, int len, const std::string& v) {
                    bool okv = v.empty();
                    if (MemStr(c, port, slave, space, addr, len, o.t) == v || MemStr(c, port, slave, space, addr, len, o.done) == v)
                        okv = true;
                    for (ns_t t: c.changes.count({port, slave}) ? c.changes.at({port, slave}) : std::vector<ns_t>())
                        if (t > o.t && t <= o.done && MemStr(c, port, slave, space, addr, len, t) == v)
                            okv = true;
                    if (!okv)
                        c.Add("wrong_info", what + " says " + k + " is \"" + v + "\", but the device holds \"" + MemStr(c, port, slave, space, addr, len, o.done) + "\"");
                };
                auto fw = o.res["fw"].asString(), bl = o.res["bootloader"].asString();
                in("fw", HOLDING, 250, 16, fw);
                in("bootloader", HOLDING, 330, 7, bl);
                in("model", HOLDING, 200, 20, o.res["model"].asString());
                auto af = o.res["available_fw"].asString(), ab = o.res["available_bootloader"].asString();
                auto avail = [&](const char* k, const std::string& v, const Json::Value& im) {
                    if (!v.empty() && (v != im["ver"].asString() || !im["listed"].asBool() || !line))
                        c.Add("wrong_info", what + " says " + k + " is \"" + v + "\"");
                    if (v.empty() && im["listed"].asBool() && line && c.FaultFree())
                        c.Add("wrong_info", what + " knows no " + k + ", but " + im["ver"].asString() + " is released");
                };
                avail("available_fw", af, d["fw"]);
                avail("available_bootloader", ab, d["boot"]);
                if (o.res["fw_has_update"].asBool() != (!fw.empty() && !af.empty() && Cmp(af, fw) > 0))
                    c.Add("wrong_info", what + " says fw_has_update is " + o.res["fw_has_update"].asString() + " for " + fw + " and " + af);
                if (o.res["bootloader_has_update"].asBool() != (!bl.empty() && !ab.empty() && Cmp(ab, bl) > 0))
                    c.Add("wrong_info", what + " says bootloader_has_update is " + o.res["bootloader_has_update"].asString() + " for " + bl + " and " + ab);
                if (o.res["can_update"].asBool() != (!af.empty() || !ab.empty()))
                    c.Add("wrong_info", what + ": can_update is wrong");
                for (auto& k: o.res["components"].getMemberNames()) {
                    int n = atoi(k.c_str());
                    auto& r = o.res["components"][k];
                    in("a component's fw", INPUT, 64800 + 48 * n, 16, r["fw"].asString());
                    bool found = false;
                    for (auto& cm: d["comps"])
                        if (cm["n"].asInt() == n) {
                            found = true;
                            avail("a component's available_fw", r["available_fw"].asString(), cm);
                            if (r["has_update"].asBool() != (r["fw"].asString() != r["available_fw"].asString()))
                                c.Add("wrong_info", what + ": has_update of component " + k + " is wrong");
                        }
                    if (!found)
                        c.Add("wrong_info", what + " shows a component " + k + " the device does not have");
                }
                bool inBoot = false;
                for (auto& b: H.boots)
                    inBoot |= b.port == port && b.slave == slave;
                inBoot |= sl["boot"]["startInBoot"].asBool();
                if (c.FaultFree() && !inBoot && line) {
                    if (fw.empty() || bl.empty() || o.res["model"].asString().empty())
                        c.Add("wrong_info", what + " lacks a version or the model");
                    for (auto& cm: d["comps"])
                        if (cm["listed"].asBool() && !o.res["components"].isMember(std::to_string(cm["n"].asInt())))
                            c.Add("wrong_info", what + " lacks component " + std::to_string(cm["n"].asInt()));
                }
            }
        }
        Converged(c);
    }
}
static Register r13("C13", Gen, Judge);
