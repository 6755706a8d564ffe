// C09: bit fields: their neighbours stay as they are
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    Json::Value Gen(uint64_t seed, bool)
    {
        G g(seed);
        g.o.partial = 0.3;
        g.o.chansMin = 0;
        g.o.chansMax = 3;
        g.o.strings = 0;
        g.o.setup = 0;
        g.endMs = g.r.range(3000, 20000);
        g.Ports();
        std::vector<int> fields;
        struct Group
        {
            int port, slave, addr, n;
        };
        std::vector<Group> groups;
        for (auto& p: g.ports)
            for (auto& s: p.slaves) {
                if (g.r.chance(0.3))
                    g.AddSetup2(s);
                for (int k = g.r.chance(0.9) ? (int)g.r.range(1, 2) : 0; k > 0; --k) {
                    int n = (int)g.r.range(1, 4);
                    int base = s.next[HOLDING] + (int)g.r.range(0, 3);
                    s.next[HOLDING] = base + n + (int)g.r.range(0, 2);
                    bool ble = g.r.chance(0.2);
                    groups.push_back({s.port, s.idx, base, n});
                    for (int i = 0; i < n; ++i)
                        s.mem[{HOLDING, base + i}] = (int)g.r.below(65536);
                    int shared = (int)g.r.range(1, n); // most of the fields are in registers of this size
                    for (int f = (int)g.r.range(2, 6); f > 0; --f) {
                        Chan c;
                        Reg x;
                        x.port = s.port;
                        x.slave = s.idx;
                        x.words = g.r.chance(0.7) ? shared : (int)g.r.range(1, n);
                        x.addr = base + (g.r.chance(0.5) ? 0 : (int)g.r.below(n - x.words + 1));
                        static const char* one[] = {"u16", "u16", "u8"};
                        x.fmt = x.words == 1 ? one[g.r.below(3)] : x.words == 2 ? (g.r.chance(0.8) ? "u32" : "u16") : x.words == 3 ? "u32" : "u64";
                        int bits = x.words * 16;
                        int lim = std::min(bits, BytesOf(x.fmt) * 8);
                        x.width = g.r.chance(0.4) ? 1 : (int)g.r.range(1, std::min(lim, bits - 1));
                        x.off = (int)g.r.range(0, bits - x.width);
                        // the register is as wide as its highest bit asks for
                        int least = (std::max(BytesOf(x.fmt) * 8, x.off + x.width) + 15) / 16;
                        if (least < x.words)
                            x.off = bits - x.width - (int)g.r.below(std::min(16, bits - x.width));
                        x.words = (std::max(BytesOf(x.fmt) * 8, x.off + x.width) + 15) / 16;
                        x.ro = g.r.chance(0.15);
                        x.ble = ble;
                        static const char* t[] = {"holding", "holding", "holding", "holding_single", "holding_multi"};
                        x.type = s.shift ? "holding" : t[g.r.below(5)];
                        if (x.words > 1 && x.type != "holding_single" && g.r.chance(0.3))
                            x.wle = true;
                        c.regs.push_back(x);
                        c.type = "value";
                        if (g.r.chance(0.1))
                            c.readPeriod = (int)g.r.range(300, 3000);
                        else if (g.r.chance(0.25))
                            c.rateLimit = (int)g.r.range(200, 6000);
                        int ci = g.AddChan(s, c);
                        if (!x.ro)
                            fields.push_back(ci);
                    }
                }
            }
        bool faults = g.r.chance(0.7);
        if (faults)
            g.Faults(LineFaults, (int)g.r.range(1, 6), 0, g.endMs, 5000);
        // the device is slow to answer at first
        if (g.r.chance(0.2)) {
            g.Fault("drop_rsp", 0, g.r.range(200, 3000), (int)g.r.below(g.ports.size()));
            g.LastFault()["p"] = g.r.chance(0.5) ? 1.0 : 0.5;
        }
        for (int i = (int)g.r.range(1, 40); i > 0 && !fields.empty(); --i) {
            int c = g.r.pick(fields);
            double t = g.r.chance(0.2) ? g.r.unit() * 300 : 50 + g.r.unit() * (g.endMs - 60);
            g.OnOp(c, t);
            // neighbours at the same time
            if (g.r.chance(0.3))
                for (int k = (int)g.r.range(1, 3); k > 0; --k)
                    g.OnOp(g.r.pick(fields), t + LogU(g.r, 0.01, 300));
        }
        for (int i = (int)g.r.range(0, 20); i > 0 && !groups.empty(); --i) {
            auto& x = g.r.pick(groups);
            auto& op = g.Op(50 + g.r.unit() * (g.endMs - 60), "set");
            op["port"] = x.port;
            op["slave"] = x.slave;
            op["s"] = HOLDING;
            int o = (int)g.r.below(x.n);
            op["a"] = x.addr + o;
            for (int k = (int)g.r.range(1, x.n - o); k > 0; --k)
                op["v"].append((int)g.r.below(65536));
        }
        return g.Finish("C09", faults ? "faults" : "clean");
    }

    struct WSrc
    {
        ns_t t;
        bool sure;
        int val;
    };
    struct Writer
    {
        const Reg* r;
        std::vector<std::pair<ns_t, std::vector<int>>> cmds;
        std::string name;
    };
    void Judge(Ctx& c)
    {
        // who may write where
        std::map<std::pair<int, int>, std::vector<Writer>> writers;
        std::vector<Reg> setupRegs;
        setupRegs.reserve(c.plan["setup2"].size());
        std::map<std::pair<int, int>, std::set<int>> fieldWords; // words with bit fields in them
        std::map<std::pair<int, int>, std::vector<const Reg*>> regs;
        for (size_t i = 0; i < c.chans.size(); ++i)
            for (size_t k = 0; k < c.chans[i].regs.size(); ++k) {
                auto& r = c.chans[i].regs[k];
                if (r.space != HOLDING)
                    continue;
                std::pair<int, int> key{r.port, r.slave};
                regs[key].push_back(&r);
                if (r.width)
                    for (int w = 0; w < r.words; ++w)
                        fieldWords[key].insert(r.addr + w);
                if (r.ro)
                    continue;
                Writer w{&r, {}, c.chans[i].dev + "/" + c.chans[i].ctl};
                for (auto& o: H.ops) {
                    auto& op = c.plan["ops"][o.idx];
                    if (op["k"].asString() == "on" && op["chan"].asInt() == (int)i && o.accepted)
                        w.cmds.push_back({o.t, OpWords(r, op["regs"][(int)k])});
                }
                writers[key].push_back(w);
            }
        for (auto& s: c.plan["setup2"]) {
            setupRegs.push_back(Reg::From(s["reg"]));
            auto& r = setupRegs.back();
            if (r.space != HOLDING)
                continue;
            std::pair<int, int> key{r.port, r.slave};
            regs[key].push_back(&r);
            if (r.width)
                for (int w = 0; w < r.words; ++w)
                    fieldWords[key].insert(r.addr + w);
            std::vector<int> ws;
            for (auto& x: s["w"])
                ws.push_back(x.asInt());
            writers[key].push_back({&r, {{0, ws}}, "setup register " + std::to_string(r.addr)});
        }
        std::map<std::array<int, 3>, std::vector<WSrc>> known; // (port, slave, address): what the device said
        std::set<std::pair<int, int>> refused;                 // devices that refused to be read for good
        for (auto& f: H.frames) {
            if (!f.crcOk || f.slave < 0 || SpaceOf(f.fn) != HOLDING)
                continue;
            std::pair<int, int> key{f.port, f.slave};
            auto& fw = fieldWords[key];
            ns_t lat = Ports[f.port]->latency;
            auto words = IsWrite(f) ? WrittenWords(f) : std::vector<Word>();
            bool relevant = false;
            for (auto& w: words)
                relevant |= fw.count(w.addr) > 0;
            const Writer* by = nullptr;
            if (relevant) {
                ++H.probes["judged"];
                std::string why;
                bool near = false;
                for (auto& w: writers[key]) {
                    auto& r = *w.r;
                    bool multi = r.MultiWrite();
                    bool span = multi ? f.addr == r.addr && (int)words.size() == r.words
                                      : words.size() == 1 && f.addr >= r.addr && f.addr < r.addr + r.words;
                    if (!span)
                        continue;
                    near = true;
                    bool commanded = false;
                    for (auto& k: w.cmds) {
                        bool same = k.first <= f.t0;
                        for (auto& x: words) {
                            int m = MaskOf(r, x.addr - r.addr);
                            same &= (x.val & m) == (k.second[x.addr - r.addr] & m);
                        }
                        commanded |= same;
                    }
                    if (!commanded)
                        continue;
                    bool ok = true;
                    for (auto& x: words) {
                        int m = MaskOf(r, x.addr - r.addr);
                        if (m == 0xFFFF)
                            continue;
                        if (!r.width) {
                            continue; // formats that are narrower than their words are no bit fields
                        }
                        auto& kn = known[{f.port, f.slave, x.addr}];
                        bool any = false, match = false;
                        std::string last = "nothing";
                        for (size_t i = kn.size(); i-- > 0;) {
                            auto& s = kn[i];
                            if (s.t > f.t0 + lat)
                                continue;
                            if (!any)
                                last = std::to_string(s.val);
                            any = true;
                            match |= (s.val & ~m & 0xFFFF) == (x.val & ~m & 0xFFFF);
                            if (s.sure && s.t <= f.t0 - lat)
                                break;
                        }
                        if (match || (!any && refused.count(key)))
                            continue;
                        ok = false;
                        char b[200];
                        snprintf(b, sizeof(b), "; writing %s (bits %04x of word %d) with %04x, but the device last reported %s", w.name.c_str(), m, x.addr,
                                 x.val, last.c_str());
                        why += b;
                    }
                    if (ok) {
                        by = &w;
                        break;
                    }
                }
                if (!by && near && !why.empty())
                    c.Add("neighbour_changed", FrameStr(c, f) + why);
            }
            // what is known after it
            if (f.rsp.empty())
                continue;
            if (f.exc) {
                if (IsRead(f) && f.exc <= 3)
                    refused.insert(key);
                continue;
            }
            if (!f.replied && f.fate != "late" && f.fate != "unheard" && f.fate != "destroyed")
                continue;
            bool intact = Intact(c, f);
            if (IsRead(f)) {
                size_t at = Ports[f.port]->kind == "mtcp" ? 2 : 3;
                for (int i = 0; i < f.count; ++i) {
                    if (!fw.count(f.addr + i) || at + i * 2 + 1 >= f.rsp.size())
                        continue;
                    bool sure = false;
                    for (auto r: regs[key])
                        sure |= r->addr <= f.addr + i && r->addr + r->words > f.addr + i && r->addr >= f.addr &&
                                r->addr + r->words <= f.addr + f.count && (r->addr == f.addr || r->addr + r->words == f.addr + f.count);
                    known[{f.port, f.slave, f.addr + i}].push_back({f.rsp1 + lat, intact && sure, f.rsp[at + i * 2] << 8 | f.rsp[at + i * 2 + 1]});
                }
            } else
                for (auto& x: words)
                    if (fw.count(x.addr))
                        known[{f.port, f.slave, x.addr}].push_back({f.rsp1 + lat, intact && by && (int)words.size() == by->r->words, x.val});
        }
    }
}
static Register r09("C09", Gen, Judge);
