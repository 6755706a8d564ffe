// Building blocks of plans.
#pragma once
#include "model.h"

namespace gen
{
    using sim::Rng;
    struct Opt
    {
        int portsMin = 1, portsMax = 2;
        double tcp = 0.15, mtcp = 0.2;
        int slavesMin = 1, slavesMax = 3;
        int chansMin = 2, chansMax = 7;
        double writable = 0.6, partial = 0.1, multi = 0.07, scaled = 0.2, orders = 0.15, strings = 0.08, bits = 0.2, onoff = 0.08, wo = 0.04;
        double u16only = 0; // chance that a channel is a plain u16 holding
        double readPeriod = 0.05, rateLimit = 0.1, holes = 0.3;
        double setup = 0.5; // devices with setup sections
        double deviceOpts = 0.4;
        double templates = 0.35;
        double guard = 0.2;
        double fast = 0;    // Wiren Board devices with Fast Modbus events
        double wbDev = 0.1; // Wiren Board devices (continuous read)
        double errval = 0.05, press = 0;
        double hexId = 0.1; // slave_id written in hex
        double io = 0.05; // devices with protocol modbus_io
        bool stalls = true, preempt = true, slowBaud = false, anyLine = true;
        int delayMaxUs = 8000;
        bool shortTimeout = false;
    };
    struct SlaveG
    {
        int port = 0, idx = 0, id = 1;
        std::string dev; // MQTT device id
        std::array<int, 4> next{0, 0, 0, 0};
        std::vector<int> chans; // indexes in G.chans
        bool wb = false, fast = false;
        int shift = 0; // of addresses, in devices with I/O modules
        Json::Value cfg;   // device section of the configuration
        Json::Value world; // slave section of the plan
        std::map<std::pair<int, int>, int> mem;
        Json::Value channels = Json::Value(Json::arrayValue), setup = Json::Value(Json::arrayValue);
        std::vector<std::pair<int, int>> setupRegs; // (addr, value)
        bool extra = false;                         // on the line but not in the configuration
        std::vector<std::string> paramIds;          // parameters of the template without a value in the configuration
        std::string templ;
        Json::Value params;  // template parameters
        Json::Value extraTempl;
    };
    struct PortG
    {
        std::string kind, path;
        Json::Value cfg, world;
        int baud = 9600;
        bool extra = false; // not in the configuration
        std::vector<SlaveG> slaves;
    };
    struct G
    {
        Rng r;
        Opt o;
        Json::Value plan;
        std::vector<PortG> ports;
        std::vector<model::Chan> chans;
        double endMs = 20000, quiesceMs = 30000;
        uint64_t uniq = 1;
        std::map<std::pair<int, int>, std::set<uint64_t>> used; // raw values used per (channel, register)
        explicit G(uint64_t seed): r(seed)
        {}
        void Ports();
        PortG& AddPort(const std::string& kind);
        SlaveG& AddSlave(PortG& p);
        int AddChan(SlaveG& s);
        int AddChan(SlaveG& s, model::Chan c, bool emit = true);
        model::Reg MakeReg(SlaveG& s, bool writable);
        void AddSetup(SlaveG& s);
        void AddSetup2(SlaveG& s); // all kinds of registers; recorded in plan["setup2"]
        Json::Value& RpcOp(double t, const std::string& method, const Json::Value& params);
        Json::Value PortReq(const PortG& p); // how RPC requests name a port
        uint64_t RandomRaw(const model::Reg& r);
        std::string RandomStr(const model::Reg& r);
        void Init(SlaveG& s, const model::Reg& r, uint64_t raw);
        void InitStr(SlaveG& s, const model::Reg& r, const std::string& v);
        Json::Value& Op(double t, const std::string& k);
        void OnOp(int chan, double t);
        void SetOp(int chan, double t);
        void Fault(const std::string& k, double t0, double t1, int port = -1, int slave = -1);
        Json::Value& LastFault();
        void Faults(const std::vector<std::string>& kinds, int n, double from, double to, double maxLen);
        void Sched();
        Json::Value Finish(const std::string& prop, const std::string& profile);
        Json::Value ChanJson(const model::Chan& c);
        Json::Value RegJson(const model::Reg& r);
        SlaveG& SlaveOf(const model::Chan& c)
        {
            return ports[c.regs[0].port].slaves[c.regs[0].slave];
        }
    };
    double LogU(Rng& r, double a, double b);
}
