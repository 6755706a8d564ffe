#include "gen.h"
#include <cmath>
#include <cstring>
#include <algorithm>

using namespace model;
using namespace world;
namespace gen
{
    double LogU(Rng& r, double a, double b)
    {
        return a * std::pow(b / a, r.unit());
    }
    PortG& G::AddPort(const std::string& kind)
    {
        ports.emplace_back();
        auto& p = ports.back();
        int i = (int)ports.size() - 1;
        p.kind = kind;
        p.world["kind"] = kind;
        p.cfg["enabled"] = true;
        if (kind == "serial") {
            p.path = "/dev/ttySIM" + std::to_string(i);
            static const int bauds[] = {9600, 9600, 9600, 19200, 38400, 57600, 115200, 115200, 4800, 2400};
            p.baud = bauds[r.below(o.slowBaud ? 10 : 8)];
            if (!o.anyLine)
                p.baud = 9600;
            char par = "NNNEO"[r.below(o.anyLine ? 5 : 1)];
            int stop = r.chance(0.5) ? 2 : 1;
            p.cfg["port_type"] = "serial";
            p.cfg["path"] = p.path;
            p.cfg["baud_rate"] = p.baud;
            p.cfg["parity"] = std::string(1, par);
            p.cfg["data_bits"] = 8;
            p.cfg["stop_bits"] = stop;
            p.world["baud"] = p.baud;
            p.world["parity"] = std::string(1, par);
            p.world["data"] = 8;
            p.world["stop"] = stop;
        } else {
            std::string host = "10.0.0." + std::to_string(i + 1);
            int port = kind == "tcp" ? 23 : 502;
            p.path = host + ":" + std::to_string(port);
            p.cfg["port_type"] = kind == "tcp" ? "tcp" : "modbus tcp";
            p.cfg["address"] = host;
            p.cfg["port"] = port;
            p.world["baud"] = 9600;
            p.world["latency"] = (double)r.range(0, 20);
            if (r.chance(0.3))
                p.cfg["connection_timeout_ms"] = (int)r.range(500, 6000);
            if (r.chance(0.3))
                p.cfg["connection_max_fail_cycles"] = (int)r.range(1, 4);
        }
        p.world["path"] = p.path;
        if (r.chance(o.guard))
            p.cfg["guard_interval_us"] = (int)r.range(500, 20000);
        if (r.chance(0.1))
            p.cfg["response_timeout_ms"] = (int)r.range(100, 400);
        return p;
    }
    SlaveG& G::AddSlave(PortG& p)
    {
        p.slaves.emplace_back();
        auto& s = p.slaves.back();
        s.port = (int)(&p - &ports[0]);
        s.idx = (int)p.slaves.size() - 1;
        while (true) {
            s.id = (int)r.range(1, 247);
            bool dup = false;
            for (auto& x: p.slaves)
                dup |= &x != &s && x.id == s.id;
            if (!dup)
                break;
        }
        s.world["id"] = s.id;
        int d0 = (int)r.range(100, 2000);
        s.world["delayUs"].append(d0);
        s.world["delayUs"].append(d0 + (int)r.range(0, o.delayMaxUs));
        bool isTempl = r.chance(o.templates);
        s.dev = "dev" + std::to_string(s.port) + "_" + std::to_string(s.idx);
        if (isTempl) {
            s.templ = "sim" + std::to_string(s.port) + std::to_string(s.idx);
            s.cfg["device_type"] = s.templ;
            if (r.chance(0.5))
                s.dev = s.templ + "_" + std::to_string(s.id);
            else
                s.cfg["id"] = s.dev;
        } else {
            s.cfg["protocol"] = "modbus";
            s.cfg["name"] = "Dev " + s.dev;
            s.cfg["id"] = s.dev;
        }
        s.cfg["enabled"] = true;
        s.cfg["slave_id"] = std::to_string(s.id);
        if (r.chance(o.hexId)) {
            char b[16];
            snprintf(b, sizeof(b), r.chance(0.5) ? "0x%x" : "0x%02X", s.id);
            s.cfg["slave_id"] = b;
            if (isTempl && !s.cfg.isMember("id"))
                s.dev = s.templ + "_" + b;
        }
        for (auto& n: s.next)
            n = (int)r.range(0, 300);
        if (r.chance(o.fast)) {
            s.fast = s.wb = true;
            s.world["fast"] = true;
            s.world["wb"] = true;
        } else if (isTempl && r.chance(o.wbDev)) {
            s.wb = true;
            s.world["wb"] = true;
        }
        if (!isTempl && !s.wb && p.kind != "mtcp" && r.chance(o.io)) {
            int module = (int)r.range(1, 8), stride = (int)r.range(100, 400), shift = (int)r.range(700, 900);
            s.shift = ((module - 1) % 4 + 1) * stride + shift;
            if (s.shift > 1900) {
                stride = 100;
                s.shift = ((module - 1) % 4 + 1) * stride + shift;
            }
            s.cfg["protocol"] = "modbus_io";
            s.cfg["slave_id"] = std::to_string(s.id) + ":" + std::to_string(module);
            s.cfg["stride"] = stride;
            s.cfg["shift"] = shift;
            s.world["contRead"] = r.chance(0.5);
            for (auto& n: s.next)
                n += s.shift;
        }
        if (s.wb) {
            // below are registers with a meaning of their own
            for (auto& n: s.next)
                n += 600;
            s.world["contRead"] = true;
            s.world["sn"] = (Json::UInt)(r.next() & 0x7FFFFFFF);
        }
        Json::Value& where = s.cfg;
        if (r.chance(o.deviceOpts)) {
            if (r.chance(0.4))
                where["max_read_registers"] = (int)r.range(1, 20);
            if (r.chance(0.3))
                where["max_reg_hole"] = (int)r.range(0, 10);
            if (r.chance(0.3))
                where["max_bit_hole"] = (int)r.range(0, 30);
            if (r.chance(0.3))
                where["guard_interval_us"] = (int)r.range(200, 10000);
            if (r.chance(0.3))
                where["response_timeout_ms"] = (int)r.range(100, 900);
            if (r.chance(0.3))
                where["frame_timeout_ms"] = (int)r.range(5, 40);
            if (r.chance(0.3))
                where["device_timeout_ms"] = (int)r.range(200, 4000);
            if (r.chance(0.3))
                where["device_max_fail_cycles"] = (int)r.range(1, 5);
            if (r.chance(0.2))
                where["min_request_interval"] = (int)LogU(r, 1, 600);
        }
        return s;
    }
    uint64_t G::RandomRaw(const Reg& g)
    {
        if (g.IsBit())
            return r.below(2);
        int bits = g.width ? g.width : BytesOf(g.fmt) * 8;
        auto rnd = [&] {
            uint64_t v = r.next();
            switch (r.below(4)) {
                case 0:
                    v &= 0xFF;
                    break;
                case 1:
                    v &= 0xFFFF;
                    break;
                default:
                    break;
            }
            return v & Mask(bits);
        };
        for (int tries = 0; tries < 50; ++tries) {
            uint64_t v;
            if (g.fmt == "float") {
                float f = (float)((double)r.range(-1000000, 1000000) / (r.chance(0.5) ? 1 : 64));
                uint32_t x;
                memcpy(&x, &f, 4);
                v = x;
            } else if (g.fmt == "double") {
                double f = (double)r.range(-100000000, 100000000) / (r.chance(0.5) ? 1 : 256);
                memcpy(&v, &f, 8);
            } else if (g.fmt.substr(0, 3) == "bcd") {
                v = 0;
                for (int i = 0; i < BytesOf(g.fmt) * 2; ++i)
                    v = v << 4 | r.below(10);
                if (r.chance(0.3))
                    v &= 0xFF;
            } else if (g.fmt == "char8") {
                v = r.range(33, 126);
                if (v == ';')
                    v = ':';
            } else {
                v = rnd();
                if (g.width && g.fmt[0] == 's')
                    v &= Mask(std::min(bits, BytesOf(g.fmt) * 8 - 1));
                // keep scaled values exact in a double
                if (g.scale != 1 || g.offset != 0)
                    v &= Mask(31);
            }
            if (g.hasErr && v == g.err)
                continue;
            if (g.hasUns && v == g.uns)
                continue;
            return v;
        }
        return 1;
    }
    std::string G::RandomStr(const Reg& g)
    {
        int n = g.fmt == "string8" ? g.words * 2 : g.words;
        std::string s;
        for (int i = 0; i < n; ++i)
            s += r.chance(0.15) ? (char)r.range(0x80, 0xF0) : (char)r.range('0', 'z');
        std::replace(s.begin(), s.end(), ';', ','); // separates the parts of a channel
        return s;
    }
    void G::Init(SlaveG& s, const Reg& g, uint64_t raw)
    {
        auto w = WordsOf(g, raw);
        for (int i = 0; i < g.words; ++i) {
            auto& m = s.mem[{g.space, g.addr + i}];
            auto k = MaskOf(g, i);
            m = (m & ~k) | (w[i] & k);
        }
    }
    void G::InitStr(SlaveG& s, const Reg& g, const std::string& v)
    {
        auto w = WordsOfStr(g, v);
        for (int i = 0; i < g.words; ++i)
            s.mem[{g.space, g.addr + i}] = w[i];
    }
    Reg G::MakeReg(SlaveG& s, bool writable)
    {
        Reg g;
        g.port = s.port;
        g.slave = s.idx;
        if (r.chance(o.u16only)) {
            g.type = "holding";
        } else if (r.chance(o.bits)) {
            g.type = writable ? "coil" : (r.chance(0.5) ? "coil" : "discrete");
            g.fmt = "u8";
            g.space = g.type == "coil" ? COIL : DISCRETE;
        } else {
            if (!writable && r.chance(0.4)) {
                g.type = "input";
                g.space = INPUT;
            } else {
                static const char* t[] = {"holding", "holding", "holding", "holding_single", "holding_multi"};
                g.type = s.shift ? "holding" : t[r.below(5)];
            }
            if (r.chance(o.strings)) {
                g.fmt = r.chance(0.5) ? "string" : "string8";
                g.words = (int)r.range(2, 10);
                if (writable && g.type == "holding_single")
                    g.type = "holding";
            } else {
                static const char* f[] = {"u16", "u16", "u16", "s16", "s16", "u32", "s32", "u32", "float", "u64", "s64", "double",
                                          "u8", "s8", "u24", "s24", "bcd8", "bcd16", "bcd24", "bcd32", "char8"};
                g.fmt = f[r.below(21)];
                if (r.chance(o.partial)) {
                    static const char* pf[] = {"u8", "u16", "u16", "u32", "u64"};
                    g.fmt = pf[r.below(5)];
                    int bits = BytesOf(g.fmt) * 8;
                    g.width = (int)r.range(1, std::max(1, bits - 1));
                    g.off = (int)r.range(0, bits - g.width);
                }
                int total = std::max(BytesOf(g.fmt) * 8, g.off + (g.width ? g.width : BytesOf(g.fmt) * 8));
                g.words = (total + 15) / 16;
                if (!g.width && g.fmt != "float" && g.fmt != "double" && g.fmt != "char8" && g.fmt.substr(0, 3) != "bcd" && r.chance(o.scaled)) {
                    static const double sc[] = {0.1, 0.01, 0.001, 10, 2, 0.5};
                    g.scale = sc[r.below(6)];
                    if (r.chance(0.3))
                        g.offset = (double)r.range(-50, 50);
                    if (!writable && r.chance(0.3))
                        g.round = g.scale < 1 ? g.scale * 10 : 1;
                }
                if (!writable && r.chance(o.errval)) {
                    g.hasErr = true;
                    g.err = Mask(g.width ? g.width : BytesOf(g.fmt) * 8) & 0x7FFF;
                }
            }
            if (r.chance(o.orders) && g.words > 1 && !g.IsStr() && g.type != "holding_single")
                g.wle = true;
            if (r.chance(o.orders))
                g.ble = true;
            if (g.type == "input" && g.fmt == "u16" && !g.width && !g.hasErr && !s.shift && r.chance(o.press))
                g.type = "press_counter";
        }
        g.ro = !writable;
        g.addr = s.next[g.space];
        s.next[g.space] += g.words + (r.chance(o.holes) ? (int)r.range(1, 12) : 0);
        // one register more than what belongs to us so that nothing is missing on the wire
        for (int i = 0; i < g.words; ++i)
            if (!s.mem.count({g.space, g.addr + i}))
                s.mem[{g.space, g.addr + i}] = g.IsBit() ? 0 : (int)r.below(65536);
        return g;
    }
    Json::Value G::RegJson(const Reg& g)
    {
        Json::Value v;
        v["reg_type"] = g.type;
        int addr = g.addr - ports[g.port].slaves[g.slave].shift;
        if (g.width || g.off) {
            v["address"] = std::to_string(addr) + ":" + std::to_string(g.off) + ":" + std::to_string(g.width);
        } else {
            if (addr % 3 == 0) {
                char b[16];
                snprintf(b, sizeof(b), "0x%x", addr);
                v["address"] = b;
            } else
                v["address"] = addr;
        }
        if (g.waddr >= 0)
            v["write_address"] = g.waddr - ports[g.port].slaves[g.slave].shift;
        if (g.IsStr()) {
            v["format"] = g.fmt;
            v["string_data_size"] = g.words;
        } else if (!g.IsBit() && (g.fmt != "u16" || g.width))
            v["format"] = g.fmt;
        if (g.wle)
            v["word_order"] = "little_endian";
        if (g.ble)
            v["byte_order"] = "little_endian";
        if (g.scale != 1)
            v["scale"] = g.scale;
        if (g.offset != 0)
            v["offset"] = g.offset;
        if (g.round != 0)
            v["round_to"] = g.round;
        if (g.ro && g.space != DISCRETE && g.space != INPUT)
            v["readonly"] = true;
        if (g.hasErr)
            v["error_value"] = (Json::UInt64)g.err;
        if (g.hasUns)
            v["unsupported_value"] = (Json::UInt64)g.uns;
        return v;
    }
    Json::Value G::ChanJson(const Chan& c)
    {
        Json::Value v;
        if (c.regs.size() == 1) {
            v = RegJson(c.regs[0]);
        } else {
            for (auto& g: c.regs)
                v["consists_of"].append(RegJson(g));
        }
        v["name"] = c.ctl;
        v["type"] = c.type;
        if (!c.onv.empty())
            v["on_value"] = std::stoi(c.onv);
        if (!c.offv.empty())
            v["off_value"] = std::stoi(c.offv);
        if (c.readPeriod)
            v["read_period_ms"] = c.readPeriod;
        if (c.rateLimit)
            v["read_rate_limit_ms"] = c.rateLimit;
        if (c.sporadic)
            v["sporadic"] = true;
        if (c.semi)
            v["semi-sporadic"] = true;
        return v;
    }
    int G::AddChan(SlaveG& s, Chan c, bool emit)
    {
        c.dev = s.dev;
        if (c.ctl.empty())
            c.ctl = "c" + std::to_string(s.chans.size());
        chans.push_back(c);
        s.chans.push_back((int)chans.size() - 1);
        if (emit)
            s.channels.append(ChanJson(c));
        return (int)chans.size() - 1;
    }
    int G::AddChan(SlaveG& s)
    {
        Chan c;
        c.regs.reserve(4); // g stays
        bool writable = r.chance(o.writable);
        c.regs.push_back(MakeReg(s, writable));
        auto& g = c.regs[0];
        if (r.chance(o.multi) && !g.IsBit() && !g.IsStr() && g.fmt != "char8") {
            int n = (int)r.range(1, 2);
            for (int i = 0; i < n; ++i) {
                Reg h = MakeReg(s, writable);
                while (h.IsBit() || h.IsStr() || h.fmt == "char8")
                    h = MakeReg(s, writable);
                c.regs.push_back(h);
            }
            c.type = "text";
        } else if (g.IsStr() || g.fmt == "char8") {
            c.type = "text";
        } else if (g.IsBit()) {
            c.type = "switch";
        } else {
            c.type = "value";
            if (writable && !g.width && (g.fmt == "u16" || g.fmt == "s16" || g.fmt == "u32") && g.scale == 1 && g.offset == 0 && r.chance(o.onoff)) {
                c.type = "switch";
                c.onv = std::to_string(r.range(2, 500));
                c.offv = std::to_string(r.range(501, 1000));
            }
        }
        if (writable && c.regs.size() == 1 && r.chance(o.wo) && (g.IsBit() || (g.fmt == "u16" && !g.width))) {
            c.type = g.IsBit() ? (r.chance(0.5) ? "pushbutton" : "wo-switch") : "wo-switch";
            c.onv = c.offv = "";
            g.wo = true;
            if (!g.IsBit())
                g.ble = false;
        }
        if (r.chance(o.readPeriod) && !g.wo)
            c.readPeriod = (int)r.range(300, 3000);
        else if (r.chance(o.rateLimit))
            c.rateLimit = (int)r.range(200, 4000);
        for (auto& x: c.regs) {
            if (x.IsStr())
                InitStr(s, x, RandomStr(x));
            else if (!c.onv.empty())
                Init(s, x, std::stoull(r.chance(0.5) ? c.onv : c.offv));
            else
                Init(s, x, RandomRaw(x));
        }
        return AddChan(s, c);
    }
    void G::AddSetup(SlaveG& s)
    {
        int n = (int)r.range(1, 5);
        int a = 2000 + (s.shift ? 2000 : 0) + (int)r.below(200); // away from the channels
        for (int i = 0; i < n; ++i) {
            Json::Value v;
            v["title"] = "S" + std::to_string(i);
            v["reg_type"] = "holding";
            v["address"] = a - s.shift;
            int val = (int)r.range(1, 65535);
            v["value"] = val;
            s.setup.append(v);
            s.setupRegs.push_back({a, val});
            int def = (int)r.below(65536);
            if (def == val)
                def ^= 1;
            s.mem[{HOLDING, a}] = def;
            Json::Value po;
            po["s"] = HOLDING;
            po["a"] = a;
            po["v"].append(def);
            s.world["powerOn"].append(po);
            a += 1 + (r.chance(0.4) ? (int)r.range(1, 20) : 0);
        }
    }
    void G::AddSetup2(SlaveG& s)
    {
        int n = (int)r.range(1, 7);
        int a = 2000 + (s.shift ? 2000 : 0) + (int)r.below(200), ca = 2500 + s.shift + (int)r.below(50);
        for (int i = 0; i < n; ++i) {
            Reg g;
            g.port = s.port;
            g.slave = s.idx;
            double x = r.unit();
            bool t = !s.templ.empty();
            bool io = s.shift > 0;
            if (x < 0.15 && (t || io)) {
                static const char* f[] = {"s16", "u32", "s32", "u8", "u64"};
                g.fmt = f[r.below(5)];
                g.words = (BytesOf(g.fmt) + 1) / 2;
                if (g.words > 1 && r.chance(0.3))
                    g.wle = true;
            } else if (x < 0.35 && (t || io)) {
                g.fmt = "u16";
                g.width = (int)r.range(1, 10);
                g.off = (int)r.range(0, 16 - g.width);
            } else if (x < 0.45 && t)
                g.type = r.chance(0.5) ? "holding_single" : "holding_multi";
            else if (x < 0.52 && t) {
                g.type = "coil";
                g.fmt = "u8";
                g.space = COIL;
            }
            int& at = g.space == COIL ? ca : a;
            g.addr = at;
            at += g.words + (r.chance(0.35) ? (int)r.range(1, 20) : 0);
            uint64_t raw = RandomRaw(g);
            if (g.fmt[0] == 'u' && g.fmt != "u64" && r.chance(0.2))
                raw = 0;
            if (g.fmt == "u64")
                raw &= Mask(53);
            auto w = WordsOf(g, raw);
            Json::Value v = RegJson(g);
            v["title"] = "S" + std::to_string(i);
            auto txt = NumText(g, raw);
            v["value"] = (Json::Int64)std::stoll(txt);
            s.setup.append(v);
            Json::Value rec;
            rec["reg"] = g.ToJson();
            for (int k = 0; k < g.words; ++k) {
                int m = MaskOf(g, k);
                // a device that lost its settings holds something else
                int def = ((int)r.below(65536) & ~m) | (~w[k] & m);
                if (g.IsBit())
                    def = !w[k];
                s.mem[{g.space, g.addr + k}] = def;
                Json::Value po;
                po["s"] = g.space;
                po["a"] = g.addr + k;
                po["v"].append(def);
                s.world["powerOn"].append(po);
                rec["w"].append(w[k]);
            }
            plan["setup2"].append(rec);
            // a second field of the same word
            if (g.width && g.off + g.width < 12 && r.chance(0.4)) {
                Reg h = g;
                h.off = g.off + g.width;
                h.width = (int)r.range(1, 16 - h.off);
                uint64_t raw2 = RandomRaw(h);
                auto w2 = WordsOf(h, raw2);
                Json::Value v2 = RegJson(h);
                v2["title"] = "S" + std::to_string(i) + "b";
                v2["value"] = (Json::Int64)std::stoll(NumText(h, raw2));
                s.setup.append(v2);
                Json::Value rec2;
                rec2["reg"] = h.ToJson();
                rec2["w"].append(w2[0]);
                plan["setup2"].append(rec2);
            }
        }
    }
    Json::Value& G::RpcOp(double t, const std::string& method, const Json::Value& params)
    {
        auto& op = Op(t, "rpc");
        op["method"] = method;
        op["params"] = params;
        return op;
    }
    Json::Value G::PortReq(const PortG& p)
    {
        Json::Value v;
        if (p.kind == "serial") {
            for (auto k: {"path", "baud_rate", "parity", "data_bits", "stop_bits"})
                v[k] = p.cfg[k];
        } else {
            v["ip"] = p.cfg["address"];
            v["port"] = p.cfg["port"];
        }
        return v;
    }
    void G::Ports()
    {
        int np = (int)r.range(o.portsMin, o.portsMax);
        ports.reserve(24);
        for (int i = 0; i < np; ++i) {
            double x = r.unit();
            auto& p = AddPort(x < o.tcp ? "tcp" : x < o.tcp + o.mtcp ? "mtcp" : "serial");
            int ns = (int)r.range(o.slavesMin, o.slavesMax);
            p.slaves.reserve(16);
            for (int k = 0; k < ns; ++k) {
                auto& s = AddSlave(p);
                int nc = (int)r.range(o.chansMin, o.chansMax);
                for (int c = 0; c < nc; ++c)
                    AddChan(s);
                if (r.chance(o.setup))
                    AddSetup(s);
            }
        }
    }
    Json::Value& G::Op(double t, const std::string& k)
    {
        Json::Value v;
        v["t"] = std::floor(t * 1000) / 1000;
        v["k"] = k;
        plan["ops"].append(v);
        return plan["ops"][(int)plan["ops"].size() - 1];
    }
    void G::OnOp(int ci, double t)
    {
        auto& c = chans[ci];
        std::string text;
        Json::Value raws(Json::arrayValue);
        for (size_t i = 0; i < c.regs.size(); ++i) {
            auto& g = c.regs[i];
            if (i)
                text += ";";
            Json::Value x;
            if (g.IsStr()) {
                auto s = RandomStr(g);
                text += s;
                std::string hex;
                char b[4];
                for (uint8_t ch: s) {
                    snprintf(b, sizeof(b), "%02x", ch);
                    hex += b;
                }
                x["str"] = hex;
            } else if (!c.onv.empty()) {
                bool on = r.chance(0.5);
                text += on ? "1" : "0";
                x["raw"] = (Json::UInt64)std::stoull(on ? c.onv : c.offv);
            } else {
                uint64_t raw = RandomRaw(g);
                auto& u = used[{ci, (int)i}];
                for (int k = 0; k < 20 && u.count(raw); ++k)
                    raw = RandomRaw(g);
                u.insert(raw);
                text += NumText(g, raw);
                char b[24];
                snprintf(b, sizeof(b), "%llx", (unsigned long long)raw);
                x["rawhex"] = b;
            }
            raws.append(x);
        }
        auto& op = Op(t, "on");
        op["dev"] = c.dev;
        op["ctl"] = c.ctl;
        op["val"] = text;
        op["chan"] = ci;
        op["regs"] = raws;
    }
    void G::SetOp(int ci, double t)
    {
        auto& c = chans[ci];
        auto& g = c.regs[r.below(c.regs.size())];
        auto& op = Op(t, "set");
        op["port"] = g.port;
        op["slave"] = g.slave;
        op["s"] = g.space;
        op["a"] = g.addr;
        std::vector<int> w;
        if (g.IsStr())
            w = WordsOfStr(g, RandomStr(g));
        else if (!c.onv.empty())
            w = WordsOf(g, std::stoull(r.chance(0.5) ? c.onv : c.offv));
        else if (g.type == "press_counter" && r.chance(0.6))
            w = {0};
        else
            w = WordsOf(g, RandomRaw(g));
        for (int x: w)
            op["v"].append(x);
    }
    void G::Fault(const std::string& k, double t0, double t1, int port, int slave)
    {
        Json::Value v;
        v["k"] = k;
        v["t0"] = std::floor(t0);
        v["t1"] = std::floor(t1);
        if (port >= 0)
            v["port"] = port;
        if (slave >= 0)
            v["slave"] = slave;
        v["seed"] = (Json::UInt64)(r.next() >> 12);
        plan["faults"].append(v);
    }
    Json::Value& G::LastFault()
    {
        return plan["faults"][(int)plan["faults"].size() - 1];
    }
    void G::Faults(const std::vector<std::string>& kinds, int n, double from, double to, double maxLen)
    {
        for (int i = 0; i < n; ++i) {
            auto k = r.pick(kinds);
            int port = (int)r.below(ports.size());
            int slave = r.chance(0.5) ? (int)r.below(ports[port].slaves.size()) : -1;
            double t0 = from + r.unit() * (to - from);
            double len = LogU(r, 20, maxLen);
            bool tcp = ports[port].kind != "serial";
            static const std::set<std::string> serialOnly{"unplug", "open_fail", "write_err", "short_write", "tcset_err", "noise"};
            static const std::set<std::string> tcpOnly{"refuse", "refuse_late", "blackhole", "rst", "fin", "dup_rsp", "nosock"};
            if ((serialOnly.count(k) && tcp) || (tcpOnly.count(k) && !tcp))
                continue;
            if (k == "power" || k == "reboot") {
                if (slave < 0)
                    slave = 0;
            }
            if (k == "unplug" || k == "open_fail" || k == "refuse" || k == "blackhole" || tcpOnly.count(k))
                slave = -1;
            Fault(k, t0, std::min(t0 + len, endMs), port, slave);
            auto& f = LastFault();
            if (k == "power" || k == "offline" || k == "unplug" || k == "refuse" || k == "blackhole")
                continue;
            if (k == "reboot")
                f["arg"] = (int)r.range(50, 3000);
            else if (k == "exc")
                f["arg"] = (int)r.pick(std::vector<int>{4, 5, 6, 8, 10, 11});
            else if (k == "late" || k == "delay")
                f["arg"] = (int)r.range(1, k == "late" ? 900 : 50);
            else if (k == "clock")
                f["arg"] = (int)r.range(-7200, 7200);
            if (k != "reboot" && k != "clock") {
                if (r.chance(0.35) && (k == "drop_req" || k == "drop_rsp" || k == "exc" || k == "trunc" || k == "corrupt")) {
                    f["n"] = (int)r.range(1, 12);
                    f["t1"] = endMs;
                } else
                    f["p"] = r.chance(0.3) ? 1.0 : LogU(r, 0.03, 1);
            }
        }
    }
    void G::Sched()
    {
        auto& s = plan["sched"];
        s["seed"] = (Json::UInt64)(r.next() >> 12);
        double x = r.unit();
        s["policy"] = x < 0.6 ? 1 : x < 0.85 ? 2 : 0;
        static const int pm[] = {0, 150, 600, 2000, 8000};
        s["preempt"] = o.preempt ? pm[r.below(5)] : 0;
        if (o.stalls && r.chance(0.3)) {
            s["stallP"] = LogU(r, 0.001, 0.05);
            s["stallMs"] = (int)r.range(1, 30);
        } else {
            s["stallP"] = 0.0;
            s["stallMs"] = 0;
        }
        s["spurious"] = r.chance(0.3) ? LogU(r, 0.01, 0.3) : 0.0;
    }
    Json::Value G::Finish(const std::string& prop, const std::string& profile)
    {
        plan["prop"] = prop;
        plan["profile"] = profile;
        plan["faultSeed"] = (Json::UInt64)(r.next() >> 12);
        plan["endMs"] = endMs;
        plan["quiesceMs"] = quiesceMs;
        Sched();
        if (!plan.isMember("ops"))
            plan["ops"] = Json::Value(Json::arrayValue);
        if (!plan.isMember("faults"))
            plan["faults"] = Json::Value(Json::arrayValue);
        // operations in order of time; references by index ("after") are only used in plans that build them in order
        bool refs = false;
        for (auto& op: plan["ops"])
            refs |= op.isMember("after");
        if (!refs) {
            std::vector<Json::Value> v;
            for (auto& op: plan["ops"])
                v.push_back(op);
            std::stable_sort(v.begin(), v.end(), [](const Json::Value& a, const Json::Value& b) { return a["t"].asDouble() < b["t"].asDouble(); });
            plan["ops"] = Json::Value(Json::arrayValue);
            for (auto& op: v)
                plan["ops"].append(op);
        }
        auto& cfg = plan["config"];
        if (!cfg.isMember("debug"))
            cfg["debug"] = false;
        for (auto& p: ports) {
            for (auto& s: p.slaves) {
                std::map<std::pair<int, int>, int> m = s.mem;
                Json::Value* run = nullptr;
                int ps = -1, pa = -2;
                for (auto& kv: m) {
                    if (kv.first.first != ps || kv.first.second != pa + 1 || !run) {
                        Json::Value x;
                        x["s"] = kv.first.first;
                        x["a"] = kv.first.second;
                        s.world["mem"].append(x);
                        run = &s.world["mem"][(int)s.world["mem"].size() - 1];
                    }
                    (*run)["v"].append(kv.second);
                    ps = kv.first.first;
                    pa = kv.first.second;
                }
                if (!s.templ.empty()) {
                    Json::Value t;
                    t["device_type"] = s.templ;
                    t["title"] = "Sim " + s.templ;
                    t["group"] = "g-relay";
                    auto& d = t["device"];
                    d["name"] = "Sim " + s.templ;
                    d["id"] = s.templ;
                    d["channels"] = s.channels;
                    if (s.setup.size())
                        d["setup"] = s.setup;
                    if (s.wb)
                        d["enable_wb_continuous_read"] = true;
                    if (!s.params.isNull())
                        d["parameters"] = s.params;
                    for (auto& n: s.extraTempl.getMemberNames())
                        d[n] = s.extraTempl[n];
                    plan["templates"]["config-" + s.templ + ".json"] = t;
                } else {
                    s.cfg["channels"] = s.channels;
                    if (s.setup.size())
                        s.cfg["setup"] = s.setup;
                }
                for (auto& sr: s.setupRegs) {
                    Json::Value x;
                    x.append(s.port);
                    x.append(s.idx);
                    x.append(sr.first);
                    x.append(sr.second);
                    plan["setups"].append(x);
                }
                if (!s.extra)
                    p.cfg["devices"].append(s.cfg);
                p.world["slaves"].append(s.world);
            }
            if (!p.cfg.isMember("devices"))
                p.cfg["devices"] = Json::Value(Json::arrayValue);
            if (!p.extra)
                cfg["ports"].append(p.cfg);
            plan["ports"].append(p.world);
        }
        for (auto& c: chans)
            plan["chans"].append(c.ToJson());
        return plan;
    }
}
