#include "model.h"
#include <cmath>
#include <cstring>

namespace model
{
    using namespace world;
    uint64_t Mask(int bits)
    {
        return bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
    }
    int BytesOf(const std::string& f)
    {
        if (f == "u8" || f == "s8" || f == "bcd8" || f == "char8")
            return 1;
        if (f == "u16" || f == "s16" || f == "bcd16")
            return 2;
        if (f == "u24" || f == "s24" || f == "bcd24")
            return 3;
        if (f == "u32" || f == "s32" || f == "bcd32" || f == "float")
            return 4;
        return 8;
    }
    Json::Value Reg::ToJson() const
    {
        Json::Value v;
        v["port"] = port;
        v["slave"] = slave;
        v["space"] = space;
        v["type"] = type;
        v["addr"] = addr;
        if (waddr >= 0)
            v["waddr"] = waddr;
        v["words"] = words;
        v["fmt"] = fmt;
        if (wle)
            v["wle"] = true;
        if (ble)
            v["ble"] = true;
        if (off)
            v["off"] = off;
        if (width)
            v["width"] = width;
        if (scale != 1)
            v["scale"] = scale;
        if (offset != 0)
            v["offset"] = offset;
        if (round != 0)
            v["round"] = round;
        if (ro)
            v["ro"] = true;
        if (wo)
            v["wo"] = true;
        if (hasErr)
            v["err"] = (Json::UInt64)err;
        if (hasUns)
            v["uns"] = (Json::UInt64)uns;
        return v;
    }
    Reg Reg::From(const Json::Value& v)
    {
        Reg r;
        r.port = v["port"].asInt();
        r.slave = v["slave"].asInt();
        r.space = v["space"].asInt();
        r.type = v["type"].asString();
        r.addr = v["addr"].asInt();
        if (v.isMember("waddr"))
            r.waddr = v["waddr"].asInt();
        r.words = v["words"].asInt();
        r.fmt = v["fmt"].asString();
        r.wle = v["wle"].asBool();
        r.ble = v["ble"].asBool();
        r.off = v["off"].asInt();
        r.width = v["width"].asInt();
        if (v.isMember("scale"))
            r.scale = v["scale"].asDouble();
        if (v.isMember("offset"))
            r.offset = v["offset"].asDouble();
        if (v.isMember("round"))
            r.round = v["round"].asDouble();
        r.ro = v["ro"].asBool();
        r.wo = v["wo"].asBool();
        if (v.isMember("err")) {
            r.hasErr = true;
            r.err = v["err"].asUInt64();
        }
        if (v.isMember("uns")) {
            r.hasUns = true;
            r.uns = v["uns"].asUInt64();
        }
        return r;
    }
    Json::Value Chan::ToJson() const
    {
        Json::Value v;
        v["dev"] = dev;
        v["ctl"] = ctl;
        v["type"] = type;
        if (!onv.empty())
            v["onv"] = onv;
        if (!offv.empty())
            v["offv"] = offv;
        if (readPeriod)
            v["readPeriod"] = readPeriod;
        if (rateLimit)
            v["rateLimit"] = rateLimit;
        if (sporadic)
            v["sporadic"] = true;
        if (semi)
            v["semi"] = true;
        for (auto& r: regs)
            v["regs"].append(r.ToJson());
        return v;
    }
    Chan Chan::From(const Json::Value& v)
    {
        Chan c;
        c.dev = v["dev"].asString();
        c.ctl = v["ctl"].asString();
        c.type = v["type"].asString();
        c.onv = v.isMember("onv") ? v["onv"].asString() : "";
        c.offv = v.isMember("offv") ? v["offv"].asString() : "";
        c.readPeriod = v["readPeriod"].asInt();
        c.rateLimit = v["rateLimit"].asInt();
        c.sporadic = v["sporadic"].asBool();
        c.semi = v["semi"].asBool();
        for (auto& r: v["regs"])
            c.regs.push_back(Reg::From(r));
        return c;
    }
    std::vector<Chan> Chans(const Json::Value& plan)
    {
        std::vector<Chan> r;
        for (auto& c: plan["chans"])
            r.push_back(Chan::From(c));
        return r;
    }

    // The register as one number: first word most significant in big endian word order
    static int Pos(const Reg& r, int i) // significance (0 lowest) of device word i
    {
        return r.wle ? i : r.words - 1 - i;
    }
    static int Swap(const Reg& r, int w)
    {
        return r.ble ? ((w & 0xFF) << 8 | (w >> 8 & 0xFF)) : w;
    }
    std::vector<int> WordsOf(const Reg& r, uint64_t raw)
    {
        std::vector<int> w(r.words);
        if (r.IsBit()) {
            w[0] = raw ? 1 : 0;
            return w;
        }
        for (int i = 0; i < r.words; ++i) {
            int p = Pos(r, i) * 16 - r.off;
            uint64_t x = p >= 0 ? (p < 64 ? raw >> p : 0) : raw << -p;
            w[i] = Swap(r, (int)(x & 0xFFFF));
        }
        return w;
    }
    uint16_t MaskOf(const Reg& r, int i)
    {
        if (r.IsBit() || r.IsStr())
            return 0xFFFF;
        return (uint16_t)WordsOf(r, Mask(r.width ? r.width : BytesOf(r.fmt) * 8))[i];
    }
    uint64_t RawOf(const Reg& r, const std::vector<int>& w)
    {
        if (r.IsBit())
            return w[0] ? 1 : 0;
        unsigned __int128 v = 0;
        for (int i = 0; i < r.words; ++i)
            v |= (unsigned __int128)(uint16_t)Swap(r, w[i]) << (Pos(r, i) * 16);
        v >>= r.off;
        return (uint64_t)v & Mask(r.width ? r.width : BytesOf(r.fmt) * 8);
    }
    std::vector<int> WordsOfStr(const Reg& r, const std::string& s)
    {
        std::vector<int> w(r.words, 0);
        for (int i = 0; i < r.words; ++i) {
            int k = r.wle ? r.words - 1 - i : i;
            int v = 0;
            if (r.fmt == "string8") {
                v = (k * 2 < (int)s.size() ? (uint8_t)s[k * 2] : 0) << 8 | (k * 2 + 1 < (int)s.size() ? (uint8_t)s[k * 2 + 1] : 0);
            } else
                v = k < (int)s.size() ? (uint8_t)s[k] : 0;
            w[i] = Swap(r, v);
        }
        return w;
    }
    std::string StrOf(const Reg& r, const std::vector<int>& w)
    {
        std::string s;
        for (int k = 0; k < r.words; ++k) {
            int v = Swap(r, w[r.wle ? r.words - 1 - k : k]);
            for (int b = r.fmt == "string8" ? 1 : 0; b >= 0; --b) {
                uint8_t c = (uint8_t)(v >> (8 * b));
                if (c == 0 || c == 0xFF)
                    return s;
                s += (char)c;
            }
        }
        return s;
    }
    static uint64_t Bcd(uint64_t v, int bytes)
    {
        uint64_t r = 0, m = 1;
        for (int i = 0; i < bytes * 2; ++i) {
            r += (v & 0xF) * m;
            m *= 10;
            v >>= 4;
        }
        return r;
    }
    static int64_t Sext(uint64_t v, int bits)
    {
        if (bits >= 64)
            return (int64_t)v;
        v &= Mask(bits);
        return (v >> (bits - 1)) & 1 ? (int64_t)(v | ~Mask(bits)) : (int64_t)v;
    }
    static long double RawNum(const Reg& r, uint64_t raw)
    {
        if (r.fmt == "float") {
            float f;
            uint32_t x = (uint32_t)raw;
            memcpy(&f, &x, 4);
            return f;
        }
        if (r.fmt == "double") {
            double f;
            memcpy(&f, &raw, 8);
            return f;
        }
        if (r.fmt.substr(0, 3) == "bcd")
            return Bcd(raw, BytesOf(r.fmt));
        if (r.fmt[0] == 's')
            return Sext(raw, BytesOf(r.fmt) * 8);
        return raw & Mask(BytesOf(r.fmt) * 8);
    }
    long double Num(const Reg& r, uint64_t raw)
    {
        long double v = RawNum(r, raw) * (long double)r.scale + (long double)r.offset;
        if (r.round > 0)
            v = roundl(v / (long double)r.round) * (long double)r.round;
        return v;
    }
    bool IsNum(const std::string& s, double& v)
    {
        if (s.empty())
            return false;
        char* e = nullptr;
        v = strtod(s.c_str(), &e);
        return *e == 0;
    }
    bool SameText(const Reg& r, const std::vector<int>& w, const std::string& text)
    {
        if (r.IsStr())
            return StrOf(r, w) == text;
        auto raw = RawOf(r, w);
        if (r.fmt == "char8")
            return text == std::string(1, (char)(uint8_t)raw);
        long double want = Num(r, raw);
        bool plain = r.scale == 1 && r.offset == 0 && r.round == 0;
        if (plain && r.fmt != "float" && r.fmt != "double") {
            char b[64];
            if (r.fmt[0] == 's')
                snprintf(b, sizeof(b), "%lld", (long long)Sext(raw, BytesOf(r.fmt) * 8));
            else
                snprintf(b, sizeof(b), "%llu", (unsigned long long)(r.fmt.substr(0, 3) == "bcd" ? Bcd(raw, BytesOf(r.fmt)) : raw & Mask(BytesOf(r.fmt) * 8)));
            return text == b;
        }
        char* e = nullptr;
        long double got = strtold(text.c_str(), &e);
        if (text.empty() || *e)
            return false;
        if (std::isnan(want) || std::isinf(want))
            return std::isnan(got) == std::isnan(want) && std::isinf(got) == std::isinf(want);
        long double rel = r.fmt == "float" ? 2e-6L : 1e-9L;
        long double tol = fabsl(want) * rel + 1e-12L;
        // half-way cases of the rounding may go either way
        if (r.round > 0) {
            long double x = RawNum(r, raw) * (long double)r.scale + (long double)r.offset;
            long double fr = x / (long double)r.round;
            if (fabsl(fabsl(fr - floorl(fr)) - 0.5L) < 1e-5L)
                tol += r.round;
        }
        return fabsl(got - want) <= tol;
    }
    std::string Text(const Reg& r, const std::vector<int>& w)
    {
        if (r.IsStr())
            return StrOf(r, w);
        char b[64];
        snprintf(b, sizeof(b), "%.12Lg", Num(r, RawOf(r, w)));
        return b;
    }
    std::string NumText(const Reg& r, uint64_t raw)
    {
        char b[80];
        if (r.fmt == "char8")
            return std::string(1, (char)raw);
        if (r.fmt == "float" || r.fmt == "double") {
            snprintf(b, sizeof(b), "%.17Lg", Num(r, raw));
            return b;
        }
        if (r.scale == 1 && r.offset == 0) {
            if (r.fmt[0] == 's')
                snprintf(b, sizeof(b), "%lld", (long long)Sext(raw, BytesOf(r.fmt) * 8));
            else
                snprintf(b, sizeof(b), "%llu", (unsigned long long)RawNum(r, raw));
            return b;
        }
        snprintf(b, sizeof(b), "%.15Lg", Num(r, raw));
        return b;
    }
}
