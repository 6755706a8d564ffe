// C17: hostile bytes from lines and clients
#include "oracle.h"
#include <algorithm>
using namespace gen;
using namespace model;
using namespace oracle;

namespace
{
    Json::Value Odd(Rng& r)
    {
        switch (r.below(18)) {
            case 0:
                return Json::Value();
            case 1:
                return -1;
            case 2:
                return 65536;
            case 3:
                return (Json::Int64)r.next();
            case 4:
                return 1e300;
            case 5:
                return "";
            case 6:
                return std::string(r.range(1, 400), 'x');
            case 7:
                return Json::Value(Json::arrayValue);
            case 8:
                return Json::Value(Json::objectValue);
            case 9:
                return r.chance(0.5);
            case 10:
                return "0x";
            case 11:
                return "-5";
            case 12:
                return "1e3";
            case 13:
                return 0;
            case 14:
                return 255;
            case 15:
                return "\xff\xfe\x80";
            case 16:
                return "99999999999999999999";
            default:
                return (int)r.below(300);
        }
    }
    // replaces or removes something somewhere in the message
    void Mutate(Rng& r, Json::Value& v, int depth = 0)
    {
        if ((v.isObject() || v.isArray()) && !v.empty() && !(depth && r.chance(0.3))) {
            if (v.isObject()) {
                auto n = v.getMemberNames();
                auto& k = n[r.below(n.size())];
                if (r.chance(0.2))
                    v.removeMember(k);
                else
                    Mutate(r, v[k], depth + 1);
            } else
                Mutate(r, v[(int)r.below(v.size())], depth + 1);
            return;
        }
        v = Odd(r);
    }
    Json::Value Gen(uint64_t seed, bool thorough)
    {
        Rng r(seed ^ 0xC17C17);
        static const std::vector<std::string> bases{"C10", "C10", "C10", "C01", "C04", "C11", "C02", "C06", "C13", "C12", "C18"};
        Json::Value p;
        std::string from;
        while (p.isNull()) {
            from = r.pick(bases);
            for (auto& x: Props())
                if (from == x.id)
                    p = x.gen(r.next() >> 12, thorough);
        }
        p["prop"] = "C17";
        p["profile"] = "like " + from;
        if (r.chance(0.12)) { // a configuration with mistakes in it
            for (int k = (int)r.range(1, 3); k > 0; --k)
                Mutate(r, p["config"]);
            p["profile"] = p["profile"].asString() + ", odd configuration";
            p["oddConfig"] = true;
            p["extraFds"] = 4;
        }
        double end = std::min(p["endMs"].asDouble(), 40000.0);
        // hostile answers
        for (int i = (int)r.range(1, 5); i > 0; --i) {
            Json::Value f;
            int port = (int)r.below(p["ports"].size());
            bool serial = p["ports"][port]["kind"].asString() == "serial";
            f["k"] = serial && r.chance(0.15) ? "noise" : "evil";
            double t0 = r.chance(0.3) ? 0 : r.unit() * end;
            f["t0"] = t0;
            f["t1"] = std::min(end, t0 + LogU(r, 100, 40000));
            f["port"] = port;
            if (r.chance(0.5) && p["ports"][port]["slaves"].size() && f["k"].asString() == "evil")
                f["slave"] = (int)r.below(p["ports"][port]["slaves"].size());
            if (r.chance(0.8))
                f["p"] = LogU(r, 0.05, 1);
            f["seed"] = (Json::UInt64)(r.next() >> 12);
            p["faults"].append(f);
        }
        // hostile clients
        int n = r.chance(0.5) ? (int)r.range(1, 12) : 0;
        Json::Value ops(Json::arrayValue);
        std::vector<int> src;
        bool refs = false;
        for (int i = 0; i < (int)p["ops"].size(); ++i) {
            auto k = p["ops"][i]["k"].asString();
            refs |= p["ops"][i].isMember("after");
            if (k == "on" || k == "rpc")
                src.push_back(i);
        }
        if (!src.empty())
            for (int i = 0; i < n; ++i) {
                auto op = p["ops"][r.pick(src)];
                op["t"] = 20 + r.unit() * (end - 40);
                if (op["k"].asString() == "on") {
                    static const std::vector<std::string> vals{"", "-", "nan", "inf", "-inf", "1e400", "0x", "0xFFFFFFFFFFFFFFFFFF", ";", ";;;;", "1;2;3;4;5;6", "-1",
                                                               "18446744073709551616", "1.5e-320", "\xff\xfe", " 12", "12 ", "1,5", "true", "0b1", "12abc", "+7", "."};
                    op["val"] = r.chance(0.1) ? std::string(r.range(50, 5000), '7') : r.pick(vals);
                    op["bad"] = true;
                } else {
                    for (int k = (int)r.range(1, 3); k > 0; --k)
                        Mutate(r, op["params"]);
                    op["x"] = Json::Value();
                    p["extraFds"] = p["extraFds"].asInt() + 1;
                }
                if (!refs)
                    ops.append(op);
            }
        if (!ops.empty()) {
            std::vector<Json::Value> v;
            for (auto& o: p["ops"])
                v.push_back(o);
            for (auto& o: ops)
                v.push_back(o);
            std::stable_sort(v.begin(), v.end(), [](const Json::Value& a, const Json::Value& b) { return a["t"].asDouble() < b["t"].asDouble(); });
            p["ops"] = Json::Value(Json::arrayValue);
            for (auto& o: v)
                p["ops"].append(o);
        }
        return p;
    }
    void Judge(Ctx& c)
    {
        H.probes["judged"] += 1;
        if (c.out.end != "ok")
            return;
        std::set<int> off; // slaves that may have been suspended
        bool susp = false;
        for (auto& op: c.plan["ops"])
            susp |= op["k"].asString() == "rpc" && op["method"].asString() == "device/SetPoll";
        for (auto& o: H.ops) {
            auto& op = c.plan["ops"][o.idx];
            if (op["k"].asString() != "rpc" || !o.accepted)
                continue;
            int n = 0;
            for (auto& x: H.replies)
                n += x.id == o.callId;
            ++H.probes["judged"];
            if (n != 1 && o.t < H.tTerm - 15 * sim::SEC)
                c.Add(n ? "answered_twice" : "not_answered", "request " + op["method"].asString() + " of " + c.Ms(o.t) + " was answered " + std::to_string(n) + " times");
        }
        if (susp || c.plan["oddConfig"].asBool() || H.tTerm < H.tActiveEnd + 25 * sim::SEC)
            return;
        // polling goes on for slaves that were not made to lie about what they can do
        for (size_t p = 0; p < Ports.size(); ++p)
            for (auto& s: Ports[p]->slaves) {
                bool readable = false, lied = false;
                for (auto& ch: c.chans)
                    for (auto& r: ch.regs)
                        readable |= r.port == (int)p && r.slave == s->idx && !r.wo;
                for (auto& f: H.frames)
                    lied |= f.port == (int)p && ((f.slave == s->idx && (f.fate == "evil" || f.fate == "corrupt" || f.exc)) || f.fate == "noise");
                if (!readable || lied)
                    continue;
                ++H.probes["judged"];
                bool ok = false;
                for (auto& f: H.frames)
                    ok |= f.port == (int)p && f.slave == s->idx && f.t0 >= H.tTerm - 15 * sim::SEC - c.StallSlack() && f.replied && (IsRead(f) || s->fast);
                if (!ok)
                    c.Add("not_polled", "slave " + std::to_string(s->id) + " of port " + Ports[p]->path + " is not polled any more at the end");
            }
    }
}
static Register r17("C17", Gen, Judge);
