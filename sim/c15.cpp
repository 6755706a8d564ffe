// C15: the service starts, and stops when it is told to
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    Json::Value Gen(uint64_t seed, bool thorough)
    {
        Rng r{seed ^ 0x15151515};
        // any other scenario, ended at any moment
        static const std::vector<std::string> base{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C13", "C13", "C16", "C16", "C17"};
        auto b = r.pick(base);
        Json::Value p;
        for (auto& x: Props())
            if (b == x.id)
                p = x.gen(seed, thorough);
        p["base"] = b;
        p["prop"] = "C15";
        double end = p["endMs"].asDouble();
        double t;
        // near an operation, a fault, the start, or anywhere
        switch (r.below(5)) {
            case 0:
                t = LogU(r, 0.01, 3000);
                break;
            case 1:
            case 2:
                if (p["ops"].size()) {
                    t = p["ops"][(int)r.below(p["ops"].size())]["t"].asDouble() + LogU(r, 0.01, 3000);
                    break;
                }
            case 3:
                if (p["faults"].size()) {
                    auto& f = p["faults"][(int)r.below(p["faults"].size())];
                    t = f[r.chance(0.5) ? "t0" : "t1"].asDouble() + LogU(r, 0.01, 6000);
                    break;
                }
            default:
                t = r.unit() * end;
        }
        p["endMs"] = std::max(0.0, std::min(t, end));
        p["quiesceMs"] = 0;
        p["faultsStay"] = true;
        p.removeMember("phases");
        if (r.chance(0.12) && p["config"]["ports"].size()) {
            // a configuration that cannot be used
            p["broken"] = true;
            auto& cfg = p["config"];
            auto& port = cfg["ports"][0];
            auto& dev = port["devices"][0];
            switch (r.below(9)) {
                case 0:
                    cfg = Json::objectValue;
                    break;
                case 1:
                    cfg["ports"] = "x";
                    break;
                case 2:
                    port.removeMember(port.isMember("path") ? "path" : "address");
                    break;
                case 3:
                    dev["slave_id"] = r.chance(0.5) ? Json::Value(999) : Json::Value("?");
                    break;
                case 4:
                    dev["device_type"] = "no such type";
                    dev.removeMember("channels");
                    break;
                case 5:
                    port["devices"].append(dev); // twice
                    break;
                case 6:
                    port["port_type"] = "carrier pigeon";
                    break;
                case 7:
                    cfg["ports"].append(port); // twice
                    break;
                case 8: {
                    Json::Value ch;
                    ch["name"] = "bad";
                    ch["reg_type"] = "nope";
                    ch["address"] = "?";
                    dev["channels"].append(ch);
                    break;
                }
            }
            if (r.chance(0.7))
                p["endMs"] = std::max(p["endMs"].asDouble(), 12000.0);
        }
        if (p["endMs"].asDouble() > 9000) {
            Json::Value op;
            op["k"] = "rpc";
            op["t"] = (int)r.range(1500, 4000);
            op["method"] = "ports/Load";
            op["params"] = Json::objectValue;
            op["c"] = 99;
            p["ops"].append(op);
        }
        return p;
    }
    bool Debug = getenv("C15_DEBUG");
    void Judge(Ctx& c)
    {
        ++H.probes["judged"];
        if (Debug)
            fprintf(stderr, "STOP %s %.0f %s %d\n", c.plan["base"].asCString(), (H.tEnd - H.tTerm) / 1e6, c.out.end.c_str(), c.out.code);
        if (c.out.end != "ok")
            return;
        // it ran
        int n = c.plan["ops"].size() - 1;
        if (n >= 0 && c.plan["ops"][n]["c"].asInt() == 99) {
            bool ans = false;
            for (auto& x: H.replies)
                ans |= x.id == n;
            ++H.probes[c.plan["broken"].asBool() ? "broken_config_alive" : "alive"];
            if (!ans && c.StallSlack() < 2 * sim::SEC)
                c.Add("not_started", "the service does not answer requests for its ports seconds after its start");
        }
        if (!c.plan["broken"].asBool() && !c.plan["oddConfig"].asBool() && H.tTerm > c.T0 + 10 * sim::SEC) {
            std::set<std::string> made;
            for (auto& p: H.pubs)
                if (p.what == 'c')
                    made.insert(p.dev + "/" + p.ctl);
            for (auto& ch: c.chans)
                if (!ch.regs[0].width && !made.count(ch.dev + "/" + ch.ctl)) { // some odd bit fields are refused
                    c.Add("control_missing", "control " + ch.dev + "/" + ch.ctl + " was not announced");
                    break;
                }
        }
        ns_t bound = (c.plan["base"] == "C13" ? 55 : 30) * sim::SEC;
        if (H.tEnd - H.tTerm > bound)
            c.Add("slow_stop", "the service took " + std::to_string((H.tEnd - H.tTerm) / sim::MS) + " ms to stop");
        if (c.out.code != 0)
            c.Add("exit_code", "the service ended with code " + std::to_string(c.out.code) + " after the termination signal");
        std::map<int, int> open;
        for (auto& p: H.ports) {
            if (p.what == 'o')
                ++open[p.port];
            if (p.what == 'c')
                --open[p.port];
        }
        for (auto& kv: open)
            if (kv.second > 0)
                c.Add("port_left_open", "port " + std::to_string(kv.first) + " is still open when the service has ended");
    }
    static Register r15("C15", Gen, Judge);
}
