// One generator per property.
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;

namespace oracle
{
    const std::vector<std::string> LineFaults{"drop_req", "drop_rsp", "exc", "trunc", "corrupt", "offline", "power", "noise", "reboot",
                                              "unplug", "open_fail", "write_err", "short_write", "refuse", "refuse_late", "blackhole",
                                              "rst", "fin", "dup_rsp", "delay", "tcset_err", "nosock"};
    std::vector<Prop>& Props()
    {
        static std::vector<Prop> p;
        return p;
    }
}
using namespace oracle;
namespace
{
    // C01: client writes reach the device
    Json::Value GenC01(uint64_t seed, bool)
    {
        G g(seed);
        g.o.writable = 0.8;
        g.endMs = g.r.range(4000, 20000);
        g.Ports();
        bool faults = g.r.chance(0.8);
        if (faults)
            g.Faults(LineFaults, (int)g.r.range(1, 7), 0, g.endMs, 9000);
        std::vector<int> w;
        for (size_t i = 0; i < g.chans.size(); ++i)
            if (!g.chans[i].regs[0].ro)
                w.push_back((int)i);
        int n = (int)g.r.range(1, 40);
        for (int i = 0; i < n && !w.empty(); ++i) {
            int c = g.r.pick(w);
            double t = 50 + g.r.unit() * (g.endMs - 60);
            g.OnOp(c, t);
            if (g.r.chance(0.2))
                for (int k = (int)g.r.range(1, 4); k > 0; --k)
                    g.OnOp(c, t + LogU(g.r, 0.01, 300));
        }
        // device refuses some registers for good
        if (!w.empty() && g.r.chance(0.2)) {
            auto& c = g.chans[g.r.pick(w)];
            auto& s = g.SlaveOf(c);
            auto& x = c.regs[0];
            Json::Value v;
            v.append(x.space);
            v.append(x.WAddr());
            v.append(x.words);
            s.world["ro"].append(v);
        }
        // values that mean nothing
        if (!w.empty() && g.r.chance(0.3)) {
            int ci = g.r.pick(w);
            auto& c = g.chans[ci];
            if (!c.regs[0].IsStr() && c.regs[0].fmt != "char8" && c.onv.empty()) {
                auto& op = g.Op(100 + g.r.unit() * (g.endMs - 200), "on");
                op["dev"] = c.dev;
                op["ctl"] = c.ctl;
                op["val"] = g.r.chance(0.5) ? "garbage" : "";
                op["chan"] = ci;
                op["bad"] = true;
            }
        }
        return g.Finish("C01", faults ? "faults" : "clean");
    }
    // C02: what is shown is what the devices hold
    Json::Value GenC02(uint64_t seed, bool)
    {
        G g(seed);
        g.o.writable = 0.4;
        g.o.wo = 0;
        g.o.errval = 0.15;
        g.endMs = g.r.range(4000, 20000);
        g.Ports();
        bool faults = g.r.chance(0.75);
        if (faults)
            g.Faults(LineFaults, (int)g.r.range(1, 7), 0, g.endMs, 6000);
        // answers that come after the daemon has given up; only TCP can tell them from others
        for (auto& p: g.ports)
            if (p.kind == "mtcp" && g.r.chance(0.5)) {
                g.Fault("late", g.r.unit() * g.endMs * 0.7, g.endMs, (int)(&p - &g.ports[0]));
                g.LastFault()["p"] = LogU(g.r, 0.03, 0.6);
                g.LastFault()["arg"] = (int)g.r.range(400, 1800);
            }
        int n = (int)g.r.range(5, 60);
        for (int i = 0; i < n; ++i) {
            int c = (int)g.r.below(g.chans.size());
            double t = 50 + g.r.unit() * (g.endMs - 60);
            if (!g.chans[c].regs[0].ro && g.r.chance(0.3))
                g.OnOp(c, t);
            else
                g.SetOp(c, t);
            if (g.chans[c].regs[0].hasErr && g.r.chance(0.3)) {
                auto& x = g.chans[c].regs[0];
                auto& op = g.Op(50 + g.r.unit() * (g.endMs - 60), "set");
                op["port"] = x.port;
                op["slave"] = x.slave;
                op["s"] = x.space;
                op["a"] = x.addr;
                for (int w: WordsOf(x, x.err))
                    op["v"].append(w);
            }
        }
        // devices that lack some or all of the configured registers
        if (g.r.chance(0.15))
            for (auto& p: g.ports)
                for (auto& sl: p.slaves) {
                    double all = g.r.chance(0.4) ? 1 : g.r.unit() * 0.6;
                    if (!g.r.chance(0.4) || sl.wb)
                        continue;
                    for (int c: sl.chans)
                        for (auto& x: g.chans[c].regs)
                            if (g.r.chance(all))
                                for (int i = 0; i < x.words; ++i) {
                                    Json::Value e;
                                    e.append(x.space);
                                    e.append(x.addr + i);
                                    e.append((int)g.r.range(1, 3));
                                    sl.world["excRead"].append(e);
                                }
                }
        // values that change all the time
        for (int i = (int)g.r.range(0, 3); i > 0; --i) {
            auto& c = g.chans[g.r.below(g.chans.size())];
            auto& x = c.regs[0];
            if (x.IsStr() || x.fmt == "float" || x.fmt == "double" || x.fmt.substr(0, 3) == "bcd" || x.fmt == "char8" || x.words != 1 || x.width)
                continue;
            Json::Value t;
            t["port"] = x.port;
            t["slave"] = x.slave;
            t["s"] = x.space;
            t["a"] = x.addr;
            t["step"] = (int)g.r.range(1, 500);
            t["period"] = (int)g.r.range(20, 2000);
            g.plan["ticks"].append(t);
        }
        return g.Finish("C02", faults ? "faults" : "clean");
    }
}
static Register r1("C01", GenC01, Writes), r2("C02", GenC02, Values);
namespace check
{
    const std::vector<std::string>& Properties()
    {
        static std::vector<std::string> v;
        if (v.empty())
            for (auto& p: Props())
                v.push_back(p.id);
        return v;
    }
    Json::Value Generate(const std::string& prop, uint64_t seed, bool thorough)
    {
        for (auto& p: Props())
            if (prop == p.id)
                return p.gen(seed, thorough);
        fprintf(stderr, "unknown property %s\n", prop.c_str());
        exit(2);
    }
}
