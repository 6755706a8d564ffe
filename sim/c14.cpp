// C14: the template store survives crashes and disk errors
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    const std::string DIR_ = "wb-mqtt-serial.conf.d/templates";
    Json::Value Gen(uint64_t seed, bool)
    {
        G g(seed);
        auto& r = g.r;
        g.o.templates = 0.5;
        g.o.slavesMax = 2;
        g.o.chansMax = 3;
        g.Ports();
        auto plan = g.Finish("C14", "store");
        plan["ops"] = Json::arrayValue;
        plan["faults"] = Json::arrayValue;
        int phases = (int)r.range(2, 4), version = 0;
        plan["phases"] = phases;
        plan["quiesceMs"] = 1000;
        // types: some of the service's own, some users'
        std::vector<std::string> types;
        int nt = (int)r.range(2, 4);
        auto make = [&](const std::string& t) {
            Json::Value j;
            j["device_type"] = t;
            j["title"] = "v" + std::to_string(++version);
            j["device"]["name"] = t;
            j["device"]["id"] = t;
            j["device"]["channels"] = Json::arrayValue;
            for (int i = 0, n = (int)LogU(r, 1, 60); i < n; ++i) {
                Json::Value c;
                c["name"] = "c" + std::to_string(i);
                c["reg_type"] = "holding";
                c["address"] = i;
                c["type"] = "value";
                j["device"]["channels"].append(c);
            }
            return j;
        };
        static const std::vector<std::string> names{"a.json", "b.json", "m.json", "z.json", "config-x.json", "k", "../b.json", "q w.json"};
        for (int i = 0; i < nt; ++i) {
            auto t = "type" + std::to_string(i);
            types.push_back(t);
            plan["x"]["types"].append(t);
            plan["x"]["sys"][t] = "";
            plan["x"]["user"][t] = "";
            if (r.chance(0.3)) {
                auto j = make(t);
                plan["templates"]["config-" + t + ".json"] = j;
                plan["x"]["sys"][t] = j["title"];
            }
            if (r.chance(0.5)) {
                auto j = make(t);
                auto n = r.chance(0.5) ? std::string(1, "abmz"[i]) + ".json" : t + ".json";
                plan["userTemplates"][n] = j;
                plan["x"]["user"][t] = j["title"];
            }
        }
        double end = 0;
        for (int ph = 0; ph < phases; ++ph) {
            double t = 400;
            auto load = [&] {
                Json::Value op;
                op["k"] = "rpc";
                op["t"] = t;
                op["ph"] = ph;
                op["turn"] = true;
                op["method"] = "config/Load";
                op["params"]["lang"] = "en";
                op["x"] = "load";
                plan["ops"].append(op);
                t += LogU(r, 1, 300);
            };
            load();
            int n = ph + 1 < phases ? (int)r.range(1, 7) : (int)r.range(0, 2);
            for (int i = 0; i < n; ++i) {
                Json::Value op;
                op["k"] = "rpc";
                op["t"] = t;
                op["ph"] = ph;
                op["turn"] = true;
                auto& ty = r.pick(types);
                op["type"] = ty;
                bool force = r.chance(0.8);
                op["params"]["force"] = force;
                if (r.chance(0.3)) {
                    op["method"] = "templates/Delete";
                    op["params"]["type"] = ty;
                    op["x"] = "delete";
                } else {
                    op["method"] = "templates/Upload";
                    op["params"]["filename"] = r.pick(names);
                    auto j = make(ty);
                    op["x"] = "upload";
                    op["v"] = j["title"];
                    Json::StreamWriterBuilder wb;
                    auto text = Json::writeString(wb, j);
                    if (r.chance(0.1)) {
                        op["invalid"] = true;
                        switch (r.below(3)) {
                            case 0:
                                text = text.substr(0, r.below(text.size()));
                                break;
                            case 1:
                                j["device"]["channels"][0]["type"] = 5;
                                j["device"]["channels"][0].removeMember("address");
                                text = Json::writeString(wb, j);
                                break;
                            default:
                                j["deprecated"] = true;
                                text = Json::writeString(wb, j);
                                break;
                        }
                    }
                    op["params"]["content"] = text;
                }
                plan["ops"].append(op);
                t += LogU(r, 1, 300);
                if (r.chance(0.6))
                    load();
                // a disk error or a kill around this operation
                if (r.chance(0.5)) {
                    Json::Value f;
                    bool kill = ph + 1 < phases && r.chance(0.45);
                    f["k"] = kill ? "fs_kill" : r.chance(0.3) ? "fs_short" : "fs_err";
                    f["ph"] = ph;
                    f["path"] = DIR_;
                    f["t0"] = op["t"];
                    f["t1"] = op["t"].asDouble() + LogU(r, 1, 500);
                    if (r.chance(0.7)) {
                        if (f["k"] != "fs_short")
                            f["op"] = std::string(1, "OwruurwroO"[r.below(10)]);
                        f["n"] = (int)r.range(1, 3);
                    } else {
                        if (f["k"] != "fs_short")
                            f["op"] = std::string(1, "Oworu"[r.below(5)]);
                        f["p"] = r.unit();
                    }
                    if (f["k"] == "fs_err")
                        f["arg"] = r.chance(0.5) ? 28 : r.chance(0.5) ? 5 : 30;
                    f["seed"] = (Json::UInt64)(r.next() >> 12);
                    plan["faults"].append(f);
                }
            }
            load();
            end = std::max(end, t + 500);
        }
        plan["endMs"] = end;
        return plan;
    }
    using Set = std::set<std::string>;
    void Judge(Ctx& c)
    {
        if (c.out.end != "ok" && c.out.end != "killed")
            return;
        const auto& x = c.plan["x"];
        std::map<std::string, Set> cur; // what the user's store may hold, by type
        for (auto& t: x["types"]) {
            auto n = t.asString();
            if (c.phase == 0)
                cur[n] = {x["user"][n].asString()};
            else
                for (auto& v: (*c.carry)["cur"][n])
                    cur[n].insert(v.asString());
        }
        Set unknown;
        for (auto& v: (*c.carry)["unknown"])
            unknown.insert(v.asString());
        auto str = [](const Set& s) {
            std::string o;
            for (auto& v: s)
                o += (o.empty() ? "" : " or ") + (v.empty() ? std::string("none") : v);
            return o;
        };
        bool killed = c.out.end == "killed";
        for (auto& op: H.ops) {
            if (!op.accepted && !killed)
                continue;
            const auto& o = c.plan["ops"][op.idx];
            const Reply* rep = nullptr;
            for (auto& y: H.replies)
                if (y.id == op.idx)
                    rep = &y;
            ns_t end = rep ? rep->t : sim::NEVER;
            bool fault = false, blind = false; // blind: a file could not be read, what is in memory is unknown
            for (auto& f: H.fs) {
                fault |= f.err && f.t >= op.t && f.t <= end;
                blind |= f.err && f.op == 'o' && f.t <= end;
            }
            if (!rep && !killed)
                c.Add("unanswered", "request " + std::to_string(op.idx) + " was not answered");
            auto k = o["x"].asString(), t = o["type"].asString();
            auto at = " (phase " + std::to_string(c.phase) + ", " + (rep ? c.Ms(rep->t) : "never") + ")";
            if (k == "load") {
                if (!rep || !rep->ok) {
                    if (rep && !fault && !blind)
                        c.Add("load_failed", "config/Load fails: " + rep->msg + at);
                    continue;
                }
                if (blind)
                    continue;
                std::map<std::string, std::string> seen;
                for (auto& g: rep->res["types"])
                    for (auto& y: g["types"])
                        seen[y["type"].asString()] = y["name"].asString();
                for (auto& kv: cur) {
                    if (unknown.count(kv.first))
                        continue;
                    auto sys = x["sys"][kv.first].asString();
                    Set may;
                    for (auto& v: kv.second)
                        may.insert(v.empty() ? sys : v);
                    ++H.probes["judged"];
                    auto is = seen.count(kv.first) ? seen[kv.first] : "";
                    if (!may.count(is))
                        c.Add(c.phase ? "lost_after_restart" : "wrong_template",
                              "the template in effect for " + kv.first + " is " + (is.empty() ? "none" : is) + ", should be " + str(may) + at);
                }
                continue;
            }
            auto nv = k == "upload" ? o["v"].asString() : std::string();
            if (!rep)
                cur[t].insert(nv);
            else if (rep->ok) {
                ++H.probes[k + "_ok"];
                if (o["invalid"].asBool() && k == "upload")
                    c.Add("invalid_accepted", "an invalid template was accepted" + at);
                if (blind)
                    unknown.insert(t); // the service may not know the file it had to replace
                cur[t] = {nv};
            } else if (fault) {
                ++H.probes[k + "_failed"];
                cur[t].insert(nv);
            } else {
                ++H.probes[k + "_refused"];
                bool none = k == "delete" && (blind || unknown.count(t) || cur[t].count(""));
                if (!none && !o["invalid"].asBool())
                    c.Add("refused", "a valid " + k + " was refused: " + rep->msg + at);
            }
        }
        ++H.probes[killed ? "killed" : "stopped"];
        (*c.carry)["unknown"] = Json::arrayValue;
        for (auto& t: unknown)
            (*c.carry)["unknown"].append(t);
        auto& out = (*c.carry)["cur"];
        out = Json::objectValue;
        for (auto& kv: cur)
            for (auto& v: kv.second)
                out[kv.first].append(v);
    }
    static Register r14("C14", Gen, Judge);
}
