// Plan generation and judgement.
#pragma once
#include "world.h"

namespace check
{
    struct Violation
    {
        std::string key; // stable identification of what failed
        std::string msg;
    };
    struct Outcome
    {
        std::string end = "ok"; // ok, deadlock, livelock, exit, crash, hang, no_exit, killed (planned)
        std::string detail;
        int code = 0;
    };
    const std::vector<std::string>& Properties();
    Json::Value Generate(const std::string& prop, uint64_t seed, bool thorough);
    // phase: 0.. of a plan that restarts the daemon; carry: what the previous phase handed over
    std::vector<Violation> Judge(const Json::Value& plan, const Outcome& out, int phase, Json::Value& carry);
    // plain non-trivial counters for the evidence file: what the run really exercised
    void Coverage(const Json::Value& plan, std::map<std::string, uint64_t>& cov);
    void AtQuiesce(const Json::Value& plan);
}
