#pragma once
#include "gen.h"
#include <functional>

namespace oracle
{
    using namespace model;
    using namespace world;
    using check::Violation;

    struct Ctx
    {
        const Json::Value& plan;
        const check::Outcome& out;
        std::vector<Violation>& v;
        ns_t T0 = 0;
        int phase = 0;
        Json::Value* carry = nullptr; // handed to the next phase
        std::vector<Chan> chans;
        struct SetupReg
        {
            int port, slave, addr, val;
        };
        std::vector<SetupReg> setups;
        // per (port, slave): memory history
        struct Cell
        {
            ns_t t;
            int val;
        };
        std::map<std::array<int, 4>, std::vector<Cell>> hist; // port, slave, space, addr
        std::map<std::pair<int, int>, std::vector<ns_t>> changes; // times at which a slave's memory changed
        explicit Ctx(const Json::Value& p, const check::Outcome& o, std::vector<Violation>& vs);
        void Add(const std::string& key, const std::string& msg);
        int MemAt(int port, int slave, int space, int addr, ns_t t) const; // value after all changes with time <= t
        bool WordsAt(const Reg& r, ns_t t, std::vector<int>& w) const;
        int SlaveByUnit(int port, int unit) const;
        std::string Ms(ns_t t) const;
        ns_t StallSlack() const;
        bool HostFault(int port, ns_t a, ns_t b) const; // something happened to the host's side of the line
        bool FaultFree() const
        {
            return plan["faults"].empty();
        }
    };
    struct Word
    {
        int space, addr, val;
    };
    bool IsWrite(const Frame& f);
    bool IsRead(const Frame& f);
    int SpaceOf(int fn);
    std::vector<Word> WrittenWords(const Frame& f);
    std::vector<int> OpWords(const Reg& r, const Json::Value& x); // words of a command
    bool Shifted(const Frame& f); // may be read as a part of a shifted stream
    bool Intact(const Ctx& c, const Frame& f); // the daemon got a complete, correct answer
    std::string FrameStr(const Ctx& c, const Frame& f);

    // Something that told the daemon the value of a register
    struct Src
    {
        ns_t t;    // known to the daemon since
        bool sure; // the daemon cannot have missed it
        std::vector<int> words;
        int frame;
    };
    // by channel, by register; in order of time
    std::vector<std::vector<std::vector<Src>>> Sources(const Ctx& c);
    struct Shown
    {
        ns_t t;
        std::string val, err;
        char what;
    };
    std::vector<std::vector<Shown>> ShownStates(const Ctx& c); // by channel

    void Writes(Ctx& c);
    void Values(Ctx& c);
    void SetupFirst(Ctx& c, const std::set<std::pair<int, int>>& suspended = {}); // (port, slave)
    void Converged(Ctx& c); // after the quiet time everything that can work shows its current value
    bool PartMatches(const Chan& c, const Reg& r, const std::vector<int>& w, const std::string& text);

    // A property: how plans are drawn, how runs are judged
    struct Prop
    {
        const char* id;
        Json::Value (*gen)(uint64_t seed, bool thorough);
        void (*judge)(Ctx&);
    };
    std::vector<Prop>& Props();
    struct Register
    {
        Register(const char* id, Json::Value (*gen)(uint64_t, bool), void (*judge)(Ctx&))
        {
            Props().push_back({id, gen, judge});
        }
    };
    extern const std::vector<std::string> LineFaults;
}
