// Executable reference model of what a channel means: independent of the daemon's own conversion code.
#pragma once
#include "check.h"
#include <optional>

namespace model
{
    using world::Bytes;
    struct Reg
    {
        int port = 0, slave = 0, space = world::HOLDING;
        std::string type = "holding"; // reg_type in the configuration
        int addr = 0, waddr = -1;
        int words = 1;
        std::string fmt = "u16";
        bool wle = false, ble = false; // little endian word / byte order
        int off = 0, width = 0;        // bit field (width 0: whole register)
        double scale = 1, offset = 0, round = 0;
        bool ro = false, wo = false;
        bool hasErr = false, hasUns = false;
        uint64_t err = 0, uns = 0;
        int WAddr() const
        {
            return waddr >= 0 ? waddr : addr;
        }
        bool IsStr() const
        {
            return fmt == "string" || fmt == "string8";
        }
        bool IsBit() const
        {
            return space <= world::DISCRETE;
        }
        bool MultiWrite() const // written with function 16
        {
            return type == "holding_multi" || (type == "holding" && words > 1);
        }
        Json::Value ToJson() const;
        static Reg From(const Json::Value&);
    };
    struct Chan
    {
        std::string dev, ctl, type = "value";
        std::string onv, offv;
        int readPeriod = 0, rateLimit = 0;
        bool sporadic = false, semi = false;
        std::vector<Reg> regs;
        Json::Value ToJson() const;
        static Chan From(const Json::Value&);
    };
    int BytesOf(const std::string& fmt);
    // words as they lie in the device, from a raw value
    std::vector<int> WordsOf(const Reg& r, uint64_t raw);
    std::vector<int> WordsOfStr(const Reg& r, const std::string& s);
    uint64_t RawOf(const Reg& r, const std::vector<int>& words);
    std::string StrOf(const Reg& r, const std::vector<int>& words);
    // the bits of device word i (from addr) this register owns
    uint16_t MaskOf(const Reg& r, int i);
    // published text
    bool IsNum(const std::string& s, double& v);
    bool SameText(const Reg& r, const std::vector<int>& words, const std::string& text);
    std::string Text(const Reg& r, const std::vector<int>& words); // for messages
    long double Num(const Reg& r, uint64_t raw);
    uint64_t Mask(int bits);
    std::string NumText(const Reg& r, uint64_t raw); // a decimal a client would send for raw

    std::vector<Chan> Chans(const Json::Value& plan);
}
