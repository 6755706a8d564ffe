#include "world.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <netdb.h>
#include <wblib/all.h>

using namespace sim;

namespace world
{
    int Phase = 0;
    History H;
    std::vector<std::unique_ptr<Port>> Ports;

    namespace
    {
        const Json::Value* ThePlan = nullptr;
        uint64_t FaultSeed = 1;
        bool Off = false;
        int MemGroup = 0;

        struct Window
        {
            std::string k;
            int port = -1, slave = -1; // -1: any
            int fn = 0;                // 0: any function
            ns_t t0 = 0, t1 = 0;
            double p = 1;
            int n = 0;                  // if > 0: hits exactly the n-th candidate, once
            int arg = 0;
            int seen = 0;
            uint64_t seed = 0;
            std::string path; // disk faults
            char op = 0;
        };
        std::vector<Window> Windows;

        ns_t MsOf(const Json::Value& v)
        {
            return (ns_t)(v.asDouble() * 1e6);
        }
        double Unit(uint64_t h)
        {
            return (h >> 11) * (1.0 / 9007199254740992.0);
        }
    }

    const Json::Value& Plan()
    {
        return *ThePlan;
    }
    uint64_t Hash(uint64_t a, uint64_t b, uint64_t c)
    {
        uint64_t z = a * 0x9E3779B97F4A7C15ULL + b * 0xC2B2AE3D27D4EB4FULL + c * 0x165667B19E3779F9ULL + 0x1234567;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    void Alarm(const std::string& key, const std::string& msg)
    {
        if (H.alarms.size() < 50)
            H.alarms.push_back(key + "|" + msg);
    }
    void Probe(const std::string& name)
    {
        ++H.probes[name];
    }
    static void Fired(const std::string& k)
    {
        ++H.faults[k];
    }
    bool HadFault(const std::string& k)
    {
        return H.faults.count(k);
    }
    void FaultsOff()
    {
        Off = true;
    }
    bool FaultsAreOff()
    {
        return Off;
    }
    uint16_t Crc(const uint8_t* p, size_t n)
    {
        uint16_t c = 0xFFFF;
        for (size_t i = 0; i < n; ++i) {
            c ^= p[i];
            for (int k = 0; k < 8; ++k)
                c = c & 1 ? (c >> 1) ^ 0xA001 : c >> 1;
        }
        return c; // low byte goes first on the wire
    }
    std::string Hex(const Bytes& b)
    {
        std::string s;
        char t[4];
        for (auto c: b) {
            snprintf(t, sizeof(t), "%02x", c);
            s += t;
        }
        return s;
    }
    std::string Line::Str() const
    {
        return std::to_string(baud) + std::to_string(data) + parity + std::to_string(stop);
    }
    static Line LineOf(const Json::Value& v, Line d)
    {
        if (v.isMember("baud"))
            d.baud = v["baud"].asInt();
        if (v.isMember("parity"))
            d.parity = v["parity"].asString()[0];
        if (v.isMember("data"))
            d.data = v["data"].asInt();
        if (v.isMember("stop"))
            d.stop = v["stop"].asInt();
        return d;
    }

    // ------------------------------------------------------------------ fault windows
    // Returns the window of one of the given kinds that hits candidate number `idx` of (port, slave)
    static Window* Hit(std::initializer_list<const char*> kinds, int port, int slave, uint64_t idx, int fn = 0)
    {
        if (Off)
            return nullptr;
        ns_t now = Now();
        for (auto& w: Windows) {
            bool match = false;
            for (auto k: kinds)
                match = match || w.k == k;
            if (!match || now < w.t0 || now >= w.t1 || (w.port >= 0 && w.port != port) ||
                (w.slave >= 0 && w.slave != slave) || (w.fn && w.fn != fn))
                continue;
            if (w.n > 0) {
                if (++w.seen == w.n) {
                    Fired(w.k);
                    return &w;
                }
                continue;
            }
            if (w.p >= 1 || Unit(Hash(w.seed, (uint64_t)port * 1000 + slave + 1, idx)) < w.p) {
                Fired(w.k);
                return &w;
            }
        }
        return nullptr;
    }
    static bool Active(const char* kind, int port, int slave = -1)
    {
        if (Off)
            return false;
        ns_t now = Now();
        for (auto& w: Windows)
            if (w.k == kind && now >= w.t0 && now < w.t1 && (w.port < 0 || w.port == port) &&
                (slave < 0 || w.slave < 0 || w.slave == slave))
                return true;
        return false;
    }

    // ------------------------------------------------------------------ slaves
    void SetMem(Slave& s, int space, int addr, const std::vector<int>& vals, int frame)
    {
        ++MemGroup;
        for (size_t i = 0; i < vals.size(); ++i) {
            int a = addr + (int)i;
            int old = s.Get(space, a);
            if (vals[i] < 0)
                s.mem[space].erase(a);
            else
                s.mem[space][a] = (uint16_t)vals[i];
            int nv = s.Get(space, a);
            H.mem.push_back({Now(), s.port, s.idx, space, a, old, nv, frame, MemGroup});
            if (old != nv && nv >= 0 && s.fast) {
                static const int evType[4] = {1, 2, 3, 4};
                std::pair<int, int> k(evType[space], a);
                if (!s.evEnabled.count(k) && s.evWide.count({space, a - 1}))
                    --k.second;
                if (s.evEnabled.count(k) && std::find(s.evQueue.begin(), s.evQueue.end(), k) == s.evQueue.end())
                    s.evQueue.push_back(k);
            }
        }
        Mix(Hash(1, (uint64_t)addr, (uint64_t)(vals.empty() ? 0 : vals[0])));
    }
    void PowerOff(Slave& s)
    {
        if (!s.up)
            return;
        s.up = false;
        H.slaves.push_back({Now(), s.port, s.idx, 'd'});
    }
    static void ResetState(Slave& s)
    {
        for (int sp = 0; sp < 4; ++sp)
            for (auto& kv: s.powerOn[sp])
                if (s.Get(sp, kv.first) != kv.second)
                    SetMem(s, sp, kv.first, {kv.second}, -1);
        s.evEnabled.clear();
        s.evQueue.clear();
        s.evUnconfirmed.clear();
        s.evWaiting = false;
        s.evInFlight.clear();
        s.evFrames.clear();
        s.rebootEventOn = true;
        s.rebootPending = true;
        s.inBoot = s.boot["broken"].asBool();
        s.settingsDefaultInBoot = false;
        s.blTarget = -1;
        s.blDone = false;
    }
    void PowerOn(Slave& s)
    {
        if (s.up)
            return;
        s.up = true;
        ResetState(s);
        H.slaves.push_back({Now(), s.port, s.idx, 'u'});
    }
    void Reboot(Slave& s, ns_t bootTime)
    {
        ResetState(s);
        s.bootUntil = Now() + bootTime;
        H.slaves.push_back({Now(), s.port, s.idx, 'b'});
    }

    static void SetString(Slave& s, int space, int addr, int len, const std::string& v)
    {
        std::vector<int> w(len, 0);
        for (int i = 0; i < len && i < (int)v.size(); ++i)
            w[i] = (uint8_t)v[i];
        SetMem(s, space, addr, w, -1);
    }
    static Bytes FromHex(const std::string& s)
    {
        Bytes b;
        for (size_t i = 0; i + 1 < s.size(); i += 2)
            b.push_back((uint8_t)strtol(s.substr(i, 2).c_str(), nullptr, 16));
        return b;
    }
    static void BootLog(Slave& s, const std::string& what)
    {
        ++s.blSteps;
        H.boots.push_back({Now(), s.port, s.idx, what});
    }
    static void EnterBoot(Slave& s)
    {
        if (s.inBoot)
            return;
        s.inBoot = true;
        s.blInfo.clear();
        s.blData.clear();
        s.blTarget = -1;
        s.bootUntil = Now() + 100 * MS;
        BootLog(s, "boot");
        H.slaves.push_back({Now(), s.port, s.idx, 'B'});
        auto idx = s.idx;
        auto port = s.port;
        // leaves the bootloader by itself when nobody flashes it
        auto n = s.blSteps;
        After(s.boot.get("waitMs", 120000).asInt64() * MS, [=] {
            auto& sl = *Ports[port]->slaves[idx];
            if (sl.inBoot && sl.blSteps == n && !sl.boot["broken"].asBool())
                Reboot(sl, 500 * MS);
        });
    }
    // Firmware block writes. Returns exception code, 0 on success
    static int FlashWrite(Slave& s, int addr, const Bytes& d, int frame)
    {
        bool canFlashComponents = !s.inBoot;
        if (addr == 0x1000) {
            if (d.size() != 32)
                return 3;
            s.blInfo = d;
            s.blData.clear();
            s.blTarget = -1;
            s.blDone = false;
            int i = 0;
            for (const auto& im: s.boot["images"]) {
                if (FromHex(im["info"].asString()) == d)
                    s.blTarget = i;
                ++i;
            }
            if (s.blTarget >= 0) {
                bool comp = s.boot["images"][s.blTarget]["component"].asInt() >= 0;
                if (comp != canFlashComponents)
                    s.blTarget = -1;
            }
            BootLog(s, s.blTarget < 0 ? "badinfo" : "info");
            if (s.blTarget < 0)
                return 4;
            return 0;
        }
        // an exception with code 4 would say that the block is written already
        if (s.blTarget < 0)
            return s.blDone && d == s.blLast ? 4 : 3;
        auto img = FromHex(s.boot["images"][s.blTarget]["data"].asString());
        // the block that was just written again?
        if (d.size() <= s.blData.size() && std::equal(d.begin(), d.end(), s.blData.end() - d.size()))
            return 4;
        size_t at = s.blData.size();
        Bytes expect(img.begin() + std::min(at, img.size()), img.begin() + std::min(at + d.size(), img.size()));
        if (expect.size() % 2)
            expect.push_back(0xFF);
        s.blData.insert(s.blData.end(), d.begin(), d.end());
        if (s.boot["images"][s.blTarget]["component"].asInt() < 0)
            s.boot["broken"] = true; // erased
        if (expect != d) {
            BootLog(s, "badblock");
            s.blTarget = -1;
            return 3;
        }
        if (s.blData.size() >= img.size()) {
            const auto& im = s.boot["images"][s.blTarget];
            BootLog(s, "done:" + im["version"].asString());
            s.blDone = true;
            s.blLast = d;
            int comp = im["component"].asInt();
            auto ver = im["version"].asString();
            auto kind = im["kind"].asString();
            int p = s.port, i = s.idx;
            s.blTarget = -1;
            if (comp >= 0)
                SetString(s, INPUT, 64800 + comp * 48, 16, ver);
            else
                After(200 * MS, [=] {
                    auto& sl = *Ports[p]->slaves[i];
                    if (kind == "bootloader") {
                        SetString(sl, HOLDING, 330, 7, ver);
                        sl.blInfo.clear();
                        sl.blData.clear();
                        // a new bootloader starts and waits for firmware
                        BootLog(sl, "newboot");
                        return;
                    }
                    SetString(sl, HOLDING, 250, 16, ver);
                    sl.boot["broken"] = false;
                    if (sl.up)
                        Reboot(sl, 800 * MS);
                });
        }
        return 0;
    }

    // Standard PDU. Empty result: no answer.
    static Bytes HandlePdu(Slave& s, const Bytes& pdu, Frame& f)
    {
        if (pdu.size() < 2)
            return {};
        int fn = pdu[0];
        auto exc = [&](int c) {
            f.exc = c;
            return Bytes{(uint8_t)(fn | 0x80), (uint8_t)c};
        };
        auto be = [&](size_t i) { return pdu[i] << 8 | pdu[i + 1]; };
        if (fn >= 1 && fn <= 4) {
            if (pdu.size() != 5)
                return exc(3);
            int sp = fn == 1 ? COIL : fn == 2 ? DISCRETE : fn == 3 ? HOLDING : INPUT;
            int a = be(1), n = be(3);
            bool bit = sp <= DISCRETE;
            int lim = bit ? 2000 : s.maxRead;
            if (n < 1 || n > lim)
                return exc(3);
            if (s.inBoot) {
                // the bootloader knows only a few registers
                if (!(sp == HOLDING && ((a >= 290 && a + n <= 302) || (a >= 330 && a + n <= 337) ||
                                        (a >= 200 && a + n <= 220 && !s.boot["noModelInBoot"].asBool()))))
                    return exc(2);
            }
            Bytes r{(uint8_t)fn};
            bool any = false;
            for (int i = 0; i < n; ++i) {
                auto e = s.excRead.find({sp, a + i});
                if (e != s.excRead.end())
                    return exc(e->second);
                any = any || s.Get(sp, a + i) >= 0;
            }
            bool cont = s.contRead && s.Get(HOLDING, 114) == 1;
            if (!any)
                return exc(2);
            if (bit) {
                r.push_back((uint8_t)((n + 7) / 8));
                for (int i = 0; i < (n + 7) / 8; ++i)
                    r.push_back(0);
                for (int i = 0; i < n; ++i) {
                    int v = s.Get(sp, a + i);
                    if (v < 0) {
                        if (!cont)
                            return exc(2);
                        v = 0;
                    }
                    if (v)
                        r[2 + i / 8] |= 1 << (i % 8);
                }
            } else {
                r.push_back((uint8_t)(n * 2));
                for (int i = 0; i < n; ++i) {
                    int v = s.Get(sp, a + i);
                    if (v < 0) {
                        if (!cont)
                            return exc(2);
                        v = 0xFFFE;
                    }
                    r.push_back((uint8_t)(v >> 8));
                    r.push_back((uint8_t)v);
                }
            }
            return r;
        }
        if (fn == 5 || fn == 6) {
            if (pdu.size() != 5)
                return exc(3);
            int sp = fn == 5 ? COIL : HOLDING;
            int a = be(1), v = be(3);
            if (fn == 5 && v != 0 && v != 0xFF00)
                return exc(3);
            auto e = s.excWrite.find({sp, a});
            if (e != s.excWrite.end())
                return exc(e->second);
            if (fn == 6 && s.wb && !s.boot.isNull() && (a == 129 || a == 131)) {
                if (a == 131 && s.Get(HOLDING, 131) < 0)
                    return exc(2);
                if (!s.inBoot)
                    s.settingsDefaultInBoot = a == 129;
                f.applied = true;
                int p = s.port, i = s.idx;
                After(30 * MS, [=] { EnterBoot(*Ports[p]->slaves[i]); });
                if (a == 129 && s.boot["silentReboot"].asBool())
                    return {};
                return pdu;
            }
            if (s.inBoot || s.Get(sp, a) < 0 || s.ro.count({sp, a}))
                return exc(2);
            SetMem(s, sp, a, {fn == 5 ? (v ? 1 : 0) : v}, f.id);
            f.applied = true;
            return pdu;
        }
        if (fn == 15 || fn == 16) {
            if (pdu.size() < 6)
                return exc(3);
            int a = be(1), n = be(3), bc = pdu[5];
            int sp = fn == 15 ? COIL : HOLDING;
            int need = fn == 15 ? (n + 7) / 8 : n * 2;
            if (n < 1 || bc != need || (int)pdu.size() != 6 + bc || n > (fn == 15 ? 1968 : s.maxWrite))
                return exc(3);
            Bytes ok(pdu.begin(), pdu.begin() + 5);
            if (fn == 16 && s.wb && !s.boot.isNull() && (a == 0x1000 || a == 0x2000)) {
                if (!s.inBoot && s.boot["components"].empty())
                    return exc(2);
                int e = FlashWrite(s, a, Bytes(pdu.begin() + 6, pdu.end()), f.id);
                if (e)
                    return exc(e);
                f.applied = true;
                return ok;
            }
            std::vector<int> vals;
            for (int i = 0; i < n; ++i) {
                auto e = s.excWrite.find({sp, a + i});
                if (e != s.excWrite.end())
                    return exc(e->second);
                if (s.inBoot || s.Get(sp, a + i) < 0 || s.ro.count({sp, a + i}))
                    return exc(2);
                vals.push_back(fn == 15 ? (pdu[6 + i / 8] >> (i % 8)) & 1 : be(6 + i * 2));
            }
            SetMem(s, sp, a, vals, f.id);
            f.applied = true;
            return ok;
        }
        if (fn == 23) {
            if (pdu.size() < 10)
                return exc(3);
            int a = be(1), n = be(3), wa = be(5), wn = be(7), bc = pdu[9];
            if (n < 1 || n > 125 || wn < 1 || wn > 121 || bc != wn * 2 || (int)pdu.size() != 10 + bc)
                return exc(3);
            for (int i = 0; i < wn; ++i)
                if (s.inBoot || s.Get(HOLDING, wa + i) < 0 || s.ro.count({HOLDING, wa + i}))
                    return exc(2);
            for (int i = 0; i < n; ++i)
                if (s.Get(HOLDING, a + i) < 0)
                    return exc(2);
            std::vector<int> vals;
            for (int i = 0; i < wn; ++i)
                vals.push_back(be(10 + i * 2));
            SetMem(s, HOLDING, wa, vals, f.id);
            f.applied = true;
            Bytes r{23, (uint8_t)(n * 2)};
            for (int i = 0; i < n; ++i) {
                int v = s.Get(HOLDING, a + i);
                r.push_back((uint8_t)(v >> 8));
                r.push_back((uint8_t)v);
            }
            return r;
        }
        return exc(1);
    }

    // Enable events request, PDU without function code: 0x18 len records
    static Bytes HandleEnableEvents(Slave& s, const Bytes& pdu, Frame& f)
    {
        if (s.oldFw) {
            f.exc = 1;
            return {(uint8_t)(pdu[0] | 0x80), 1};
        }
        Bytes r{pdu[0], 0x18, 0};
        size_t i = 3, end = std::min(pdu.size(), (size_t)3 + pdu[2]);
        while (i + 4 <= end) {
            int type = pdu[i], addr = pdu[i + 1] << 8 | pdu[i + 2], n = pdu[i + 3];
            i += 4;
            Bytes bits((n + 7) / 8, 0);
            for (int k = 0; k < n && i < end; ++k, ++i) {
                int prio = pdu[i];
                if (type == 0x0F) {
                    s.rebootEventOn = prio != 0;
                    if (!prio)
                        s.rebootPending = false;
                    if (prio)
                        bits[k / 8] |= 1 << (k % 8);
                    continue;
                }
                std::pair<int, int> key(type, addr + k);
                if (prio && type >= 1 && type <= 4 && s.evSupported.count({type - 1, addr + k}) &&
                    s.Get(type - 1, addr + k) >= 0)
                {
                    if (!s.evEnabled.count(key))
                        s.evQueue.push_back(key); // the current value is reported first
                    s.evEnabled[key] = {prio};
                    bits[k / 8] |= 1 << (k % 8);
                } else {
                    s.evEnabled.erase(key);
                    s.evQueue.erase(std::remove(s.evQueue.begin(), s.evQueue.end(), key), s.evQueue.end());
                }
            }
            r.insert(r.end(), bits.begin(), bits.end());
        }
        r[2] = (uint8_t)(r.size() - 3);
        f.applied = true;
        Probe("events_enabled");
        return r;
    }

    // ------------------------------------------------------------------ serial line
    struct Sink
    {
        virtual ~Sink() = default;
        virtual bool Rx(const Bytes& b, const Line& from) = 0; // false: nobody got it
    };

    struct Bus
    {
        Port* P;
        Sink* S = nullptr;
        ns_t hostEnd = 0;         // end of the last transmission of the daemon
        ns_t rspStart = 0, rspEnd = 0; // last answer on the line
        bool rspFault = false;    // it is late or otherwise abnormal
        bool ToHost(const Bytes& b, const Line& l) // false: nobody got it
        {
            return S && S->Rx(b, l);
        }
        uint64_t epoch = 0;       // bumped when an answer in flight is destroyed
        int lastFrame = -1;       // being transmitted

        void Send(const Bytes& b, const Line& hs, bool cut = false)
        {
            Frame f;
            f.id = (int)H.frames.size();
            f.port = P->idx;
            f.t0 = Now();
            f.line = hs;
            f.b = b;
            f.t1 = f.t0 + hs.Char() * (ns_t)b.size();
            ns_t quiet = std::max(hostEnd, std::min(rspEnd, f.t0));
            f.gap = f.t0 - quiet;
            if (b.size() >= 4) {
                uint16_t c = Crc(b.data(), b.size() - 2);
                f.crcOk = b[b.size() - 2] == (c & 0xFF) && b[b.size() - 1] == (c >> 8);
            }
            if (cut) { // a part that happens to look like a frame is not the daemon's request
                f.crcOk = false;
                f.fate = "short_write";
            }
            f.unit = b.empty() ? -1 : b[0];
            if (f.crcOk)
                Parse(f, Bytes(b.begin() + 1, b.end() - 2));
            bool lost = false;
            if (f.t0 < hostEnd) {
                f.fate = "overlap";
                lost = true;
                if (lastFrame >= 0)
                    H.frames[lastFrame].fate = "overlap";
            } else if (f.t0 < rspEnd && f.t0 >= rspStart) {
                f.fate = rspFault ? "collision_late" : "collision";
                ++epoch;
                rspEnd = f.t0;
                lost = true;
            } else if (f.t0 < rspStart) {
                // the answer to the previous request has not even begun: the device sees a second request and drops its answer
                ++epoch;
                rspStart = rspEnd = 0;
                f.fate = rspFault ? "" : "too_early";
            }
            hostEnd = f.t1;
            Mix(Hash(2, (uint64_t)f.t0, Crc(b.data(), b.size())));
            H.frames.push_back(f);
            lastFrame = f.id;
            if (lost)
                return;
            int id = f.id;
            At(f.t1, [this, id] { Deliver(id); });
        }
        static void Parse(Frame& f, const Bytes& pdu)
        {
            if (pdu.empty())
                return;
            Bytes p = pdu;
            if (pdu.size() >= 7 && (pdu[0] == 0x46 || pdu[0] == 0x60) && pdu[1] == 0x08) {
                f.sn = (uint32_t)pdu[2] << 24 | pdu[3] << 16 | pdu[4] << 8 | pdu[5];
                p = Bytes(pdu.begin() + 6, pdu.end());
            }
            f.fn = p[0];
            if (f.fn >= 1 && f.fn <= 16 && p.size() >= 5) {
                f.addr = p[1] << 8 | p[2];
                f.count = f.fn == 5 || f.fn == 6 ? 1 : p[3] << 8 | p[4];
                if (f.fn == 5 || f.fn == 6)
                    f.data = {p[3], p[4]};
                else if (f.fn == 15 || f.fn == 16)
                    f.data = Bytes(p.begin() + std::min<size_t>(6, p.size()), p.end());
            } else if (f.fn == 23 && p.size() >= 10) {
                f.addr = p[1] << 8 | p[2];
                f.count = p[3] << 8 | p[4];
                f.data = Bytes(p.begin() + 10, p.end());
            }
        }
        void Deliver(int id)
        {
            Frame& f = H.frames[id];
            if (f.fate == "overlap" || !f.crcOk) {
                if (f.fate.empty())
                    f.fate = "badcrc";
                return;
            }
            Bytes pdu(f.b.begin() + 1, f.b.end() - 2);
            if (f.unit == 0xFD) {
                Broadcast(f, pdu);
                return;
            }
            bool settings = false, offline = false;
            for (auto& s: P->slaves) {
                if (s->id != f.unit)
                    continue;
                if (!s->up || s->mute || Now() < s->bootUntil || Active("offline", P->idx, s->idx)) {
                    offline = true;
                    continue;
                }
                if (!(EffLine(*s) == f.line)) {
                    settings = true;
                    continue;
                }
                To(*s, f, pdu, false);
                return;
            }
            f.fate = offline ? "offline" : settings ? "settings" : "nobody";
            Noise(f);
        }
        static Line EffLine(const Slave& s)
        {
            if (s.inBoot && s.settingsDefaultInBoot) {
                Line l;
                l.baud = 9600;
                l.parity = 'N';
                l.stop = 2;
                return l;
            }
            return s.line;
        }
        void Noise(const Frame& f)
        {
            if (auto w = Hit({"noise"}, P->idx, -1, (uint64_t)f.id)) {
                Bytes nb(1 + Hash(w->seed, 7, f.id) % 12);
                for (size_t i = 0; i < nb.size(); ++i)
                    nb[i] = (uint8_t)Hash(w->seed, 8 + i, f.id);
                After(5 * MS, [this, nb, l = f.line] { ToHost(nb, l); });
            }
        }
        // Hands a request to a slave, applies faults and schedules the answer
        void To(Slave& s, Frame& f, const Bytes& pduIn, bool bySn)
        {
            ++s.nReq;
            f.slave = s.idx;
            uint64_t idx = s.nReq;
            if (Hit({"drop_req"}, P->idx, s.idx, idx, f.fn)) {
                f.fate = "drop_req";
                return;
            }
            Bytes pdu = bySn ? Bytes(pduIn.begin() + 6, pduIn.end()) : pduIn;
            Bytes r;
            if (auto w = Hit({"exc"}, P->idx, s.idx, idx, f.fn)) {
                f.fate = "exc";
                f.exc = w->arg ? w->arg : 6;
                r = {(uint8_t)(pdu[0] | 0x80), (uint8_t)f.exc};
            } else if ((pdu[0] == 0x46 || pdu[0] == 0x60) && pdu.size() > 2 && pdu[1] == 0x18 && s.fast && !s.inBoot)
                r = HandleEnableEvents(s, pdu, f);
            else
                r = HandlePdu(s, pdu, f);
            if (r.empty())
                return;
            Bytes out;
            if (bySn) {
                out = {0xFD, pduIn[0], 0x09};
                out.insert(out.end(), pduIn.begin() + 2, pduIn.begin() + 6);
                out.insert(out.end(), r.begin(), r.end());
            } else {
                out = {(uint8_t)s.id};
                out.insert(out.end(), r.begin(), r.end());
            }
            Answer(f, out, s, 0);
            AfterAnswer(s, f);
        }
        // settings written by the daemon take effect after the answer
        void AfterAnswer(Slave& s, const Frame& f)
        {
            if (!s.wb || !f.applied || f.rsp1 == 0)
                return;
            bool touches = (f.fn == 6 || f.fn == 16) && f.addr <= 128 && f.addr + f.count > 110;
            if (!touches)
                return;
            int p = s.port, i = s.idx;
            At(f.rsp1, [p, i] {
                auto& sl = *Ports[p]->slaves[i];
                if (sl.Get(HOLDING, 110) > 0)
                    sl.line.baud = sl.Get(HOLDING, 110) * 100;
                int par = sl.Get(HOLDING, 111);
                if (par >= 0)
                    sl.line.parity = par == 1 ? 'O' : par == 2 ? 'E' : 'N';
                if (sl.Get(HOLDING, 112) > 0)
                    sl.line.stop = sl.Get(HOLDING, 112);
                if (sl.Get(HOLDING, 128) > 0)
                    sl.id = sl.Get(HOLDING, 128);
            });
        }
        // out: without CRC
        void Answer(Frame& f, Bytes out, const Slave& s, int arbitration, bool addCrc = true)
        {
            uint64_t idx = Hash(s.nReq, f.id);
            if (addCrc) {
                uint16_t c = Crc(out.data(), out.size());
                out.push_back(c & 0xFF);
                out.push_back(c >> 8);
            }
            Line dl = EffLine(s);
            ns_t start = arbitration ? f.t1 + std::max(dl.Char() * 7 / 2, 800 * US) : f.t1 + std::max(dl.Char() * 7 / 2, s.delayMin + (ns_t)(Hash(idx, 3) % (uint64_t)(s.delayMax - s.delayMin + 1)));
            bool abnormal = false;
            uint64_t nr = s.nReq;
            if (f.fate.empty() || f.fate == "exc") {
                if (Hit({"drop_rsp"}, P->idx, s.idx, nr, f.fn)) {
                    f.fate = "drop_rsp";
                    return;
                }
                if (auto w = Hit({"trunc"}, P->idx, s.idx, nr, f.fn)) {
                    f.fate = "trunc";
                    out.resize(1 + Hash(w->seed, 4, idx) % (out.size() - 1));
                    abnormal = true;
                } else if (auto w = Hit({"corrupt"}, P->idx, s.idx, nr, f.fn)) {
                    f.fate = "corrupt";
                    int n = 1 + Hash(w->seed, 5, idx) % 3;
                    Bytes orig = out;
                    for (int i = 0; i < n; ++i) {
                        uint64_t h = Hash(w->seed, 6 + i, idx);
                        out[h % out.size()] ^= 1 << ((h >> 32) % 8);
                    }
                    if (orig == out)
                        out[0] ^= 1;
                    abnormal = true;
                } else if (auto w = Hit({"evil"}, P->idx, s.idx, nr, f.fn)) {
                    f.fate = "evil";
                    Evil(out, Hash(w->seed, 9, idx), f);
                    abnormal = true;
                } else if (auto w = Hit({"late"}, P->idx, s.idx, nr, f.fn)) {
                    f.fate = "late";
                    start += (w->arg ? w->arg : 700) * MS + (ns_t)(Hash(w->seed, 10, idx) % (200 * MS));
                    abnormal = true;
                } else if (auto w = Hit({"delay"}, P->idx, s.idx, nr, f.fn)) {
                    start += (ns_t)(Hash(w->seed, 11, idx) % (uint64_t)((w->arg ? w->arg : 20) * MS));
                }
            }
            if (arbitration) {
                Bytes a(arbitration, 0xFF);
                out.insert(out.begin(), a.begin(), a.end());
            }
            f.rsp = out;
            f.rsp0 = start;
            f.rsp1 = start + dl.Char() * (ns_t)out.size();
            f.replied = !abnormal;
            Mix(Hash(3, (uint64_t)start, Crc(out.data(), out.size())));
            rspStart = f.rsp0;
            rspEnd = f.rsp1;
            rspFault = abnormal;
            uint64_t ep = ++epoch;
            // what arrives together: not more than about 8 ms of the line
            size_t maxChunk = std::max<size_t>(1, (size_t)(8 * MS / dl.Char()));
            size_t pos = 0;
            int id = f.id;
            while (pos < out.size()) {
                size_t n = std::min(out.size() - pos, 1 + Hash(idx, 20 + pos) % maxChunk);
                Bytes part(out.begin() + pos, out.begin() + pos + n);
                pos += n;
                At(f.rsp0 + dl.Char() * (ns_t)pos, [this, part, dl, ep, id] {
                    if (ep != epoch) {
                        if (Now() <= rspEnd + 300 * MS && H.frames[id].replied) {
                            H.frames[id].replied = false;
                            if (H.frames[id].fate.empty())
                                H.frames[id].fate = "destroyed";
                        }
                        return;
                    }
                    if (!ToHost(part, dl)) {
                        H.frames[id].replied = false;
                        if (H.frames[id].fate.empty())
                            H.frames[id].fate = "unheard";
                    }
                });
            }
        }
        // Well-formed nonsense: correct CRC, wrong content
        void Evil(Bytes& out, uint64_t h, const Frame& f)
        {
            Bytes body(out.begin(), out.end() - 2);
            for (int k = 0, n = 1 + (h >> 60) % 3; k < n; ++k)
                EvilOnce(body, Hash(h, 100 + k), f);
            uint16_t c = Crc(body.data(), body.size());
            body.push_back(c & 0xFF);
            body.push_back(c >> 8);
            out = body;
        }
        static void EvilOnce(Bytes& body, uint64_t h, const Frame& f)
        {
            auto rnd = [&](size_t i) { return (uint8_t)Hash(h, 1000 + i); };
            if (body.size() < 2)
                body.resize(2);
            if (body.size() > 9 && body[1] == 0x46 && body[2] == 0x11 && (h >> 52) % 2) { // records of an event packet
                size_t at = 6;
                for (size_t k = (h >> 40) % 4; k > 0 && at + 4 + body[at] < body.size(); --k)
                    at += 4 + body[at];
                at = std::min(at, body.size() - 2);
                switch (h % 4) {
                    case 0: // a record says it is longer or shorter
                        body[at] = (uint8_t)(h >> 8) % 12;
                        break;
                    case 1: // a record ends in the middle
                        body.resize(std::min(body.size(), at + 1 + (h >> 8) % 5));
                        body[5] = (uint8_t)(body.size() - 6);
                        break;
                    case 2: // of another type
                        body[at + 1] = (uint8_t)((h >> 8) % 2 ? (h >> 16) : (h >> 16) % 17);
                        break;
                    case 3: { // with more data
                        size_t n = 1 + (h >> 8) % 40;
                        body[at] = (uint8_t)std::min<size_t>(255, body[at] + n);
                        for (size_t i = 0; i < n; ++i)
                            body.insert(body.begin() + std::min(body.size(), at + 4), rnd(i));
                        body[5] = (uint8_t)(body.size() - 6);
                    }
                }
                return;
            }
            if (body.size() > 3 && body[1] == 0x46 && body[2] == 0x18 && (h >> 52) % 2) { // the answer about enabled events
                body.resize(4 + (h >> 8) % ((h >> 5) % 2 ? 20 : 2));
                for (size_t i = 4; i < body.size(); ++i)
                    body[i] = rnd(i);
                body[3] = (h >> 16) % 2 ? (uint8_t)(body.size() - 4) : (uint8_t)((h >> 24) % 40);
                return;
            }
            switch (h % 12) {
                case 0: // truncated but with a correct CRC
                    body.resize((h >> 8) % 20 ? 1 + (h >> 9) % body.size() : 0);
                    break;
                case 1: // byte count changed together with the length
                    if (body.size() > 3) {
                        size_t n = (h >> 8) % (body.size() - 2);
                        body.resize(3 + n);
                        body[2] = (uint8_t)n;
                    }
                    break;
                case 2: // other function
                    body[1] = (uint8_t)(h >> 8);
                    break;
                case 3: // exception with an odd code
                    body = {body[0], (uint8_t)(body[1] | 0x80), (uint8_t)((h >> 8) % 3 ? (h >> 16) : 0)};
                    break;
                case 4: // other slave
                    body[0] = (uint8_t)(h >> 8);
                    break;
                case 5: // random byte
                    body[(h >> 8) % body.size()] = (uint8_t)(h >> 24);
                    break;
                case 6: // longer
                    for (size_t i = 0; i < 1 + (h >> 8) % 20; ++i)
                        body.push_back(rnd(i));
                    break;
                case 7: // wrong byte count only
                    if (body.size() > 3)
                        body[2] = (uint8_t)(h >> 8);
                    break;
                case 8: // much longer
                    for (size_t i = 0; i < 1 + (h >> 8) % 300; ++i)
                        body.push_back(rnd(i));
                    break;
                case 9: // random data
                    for (size_t i = 2; i < body.size(); ++i)
                        body[i] = rnd(i);
                    break;
                case 10: // consistently longer
                    if (body.size() > 3) {
                        for (size_t i = 0; i < 1 + (h >> 8) % 120; ++i)
                            body.push_back(rnd(i));
                        body[2] = (uint8_t)(body.size() - 3);
                    }
                    break;
                case 11: // the request itself
                    if (f.b.size() > 4)
                        body = Bytes(f.b.begin(), f.b.end() - 2);
                    break;
            }
        }
        bool Listens(const Slave& s, const Frame& f)
        {
            return s.fast && s.up && !s.mute && Now() >= s.bootUntil && !s.inBoot && EffLine(s) == f.line &&
                   !Active("offline", P->idx, s.idx);
        }
        void Broadcast(Frame& f, const Bytes& pdu)
        {
            if (pdu.size() < 2)
                return;
            int cmd = pdu[1];
            if (pdu[0] == 0x60 && cmd != 1 && cmd != 2 && cmd != 8) {
                f.fate = "nobody";
                return;
            }
            if (cmd == 0x08 && pdu.size() > 7) {
                for (auto& s: P->slaves)
                    if (Listens(*s, f) && s->sn == f.sn) {
                        To(*s, f, pdu, true);
                        return;
                    }
                f.fate = "nobody";
                return;
            }
            if (cmd == 0x01 || cmd == 0x02) {
                if (pdu[0] == 0x60) {
                    f.fate = "nobody";
                    return;
                }
                Slave* best = nullptr;
                bool any = false;
                for (auto& s: P->slaves) {
                    if (!Listens(*s, f))
                        continue;
                    any = true;
                    if (cmd == 0x01)
                        s->scanned = false;
                    if (!s->scanned && (!best || s->sn < best->sn))
                        best = s.get();
                }
                if (!any) {
                    f.fate = "nobody";
                    return;
                }
                Bytes out{0xFD, pdu[0], 0x04};
                Slave* a = nullptr;
                for (auto& s: P->slaves)
                    if (Listens(*s, f))
                        a = s.get();
                if (best) {
                    out = {0xFD,
                           pdu[0],
                           0x03,
                           (uint8_t)(best->sn >> 24),
                           (uint8_t)(best->sn >> 16),
                           (uint8_t)(best->sn >> 8),
                           (uint8_t)best->sn,
                           (uint8_t)best->id};
                    best->scanned = true;
                    a = best;
                }
                ++a->nReq;
                if (Hit({"drop_req"}, P->idx, a->idx, a->nReq, f.fn)) {
                    if (best)
                        best->scanned = false;
                    f.fate = "drop_req";
                    return;
                }
                f.slave = a->idx;
                Answer(f, out, *a, 2 + Hash(f.id, 5) % 8);
                return;
            }
            if (cmd == 0x10 && pdu.size() >= 6) {
                Events(f, pdu);
                return;
            }
            f.fate = "nobody";
        }
        void Events(Frame& f, const Bytes& pdu)
        {
            int startId = pdu[2], maxBytes = pdu[3], confId = pdu[4], confFlag = pdu[5];
            Slave* any = nullptr;
            for (auto& s: P->slaves)
                if (Listens(*s, f))
                    any = s.get();
            if (!any) {
                f.fate = "nobody";
                return;
            }
            ++any->nReq;
            if (Hit({"drop_req"}, P->idx, any->idx, any->nReq, f.fn)) {
                f.fate = "drop_req";
                return;
            }
            for (auto& s: P->slaves)
                if (Listens(*s, f) && s->id == confId && s->evWaiting && s->evFlag == confFlag) {
                    s->evWaiting = false;
                    s->evUnconfirmed.clear();
                    s->evInFlight.clear();
                    H.confirms.push_back({Now(), P->idx, s->idx, f.id, s->evFrames});
                    s->evFrames.clear();
                }
            // lowest address at or after startId wins the arbitration
            Slave* best = nullptr;
            auto has = [](Slave& s) {
                return s.evWaiting || !s.evQueue.empty() || (s.rebootPending && s.rebootEventOn);
            };
            for (auto& s: P->slaves)
                if (Listens(*s, f) && has(*s)) {
                    auto key = [&](Slave* x) { return (x->id < startId ? 1000 : 0) + x->id; };
                    if (!best || key(s.get()) < key(best))
                        best = s.get();
                }
            if (!best) {
                Answer(f, {0xFD, 0x46, 0x12}, *any, 1 + Hash(f.id, 5) % 6);
                f.slave = any->idx;
                return;
            }
            auto& s = *best;
            if (&s != any)
                ++s.nReq;
            f.slave = s.idx;
            int n = 0;
            Bytes rec;
            if (s.evWaiting) {
                rec = s.evUnconfirmed;
                Probe("event_packet_resent");
                for (size_t i = 0; i + 4 <= rec.size(); i += 4 + rec[i]) {
                    ++n;
                    uint64_t v = 0;
                    for (int k = rec[i] - 1; k >= 0; --k)
                        v = v << 8 | rec[i + 4 + k];
                    H.events.push_back({Now(), P->idx, s.idx, rec[i + 1], rec[i + 2] << 8 | rec[i + 3], v, f.id, rec[i + 1] == 0x0F});
                }
            } else {
                if (s.rebootPending && s.rebootEventOn) {
                    rec.insert(rec.end(), {0, 0x0F, 0, 0});
                    s.rebootPending = false;
                    ++n;
                    H.events.push_back({Now(), P->idx, s.idx, 0x0F, 0, 0, f.id, true});
                    Probe("reboot_event");
                }
                while (!s.evQueue.empty()) {
                    auto k = s.evQueue.front();
                    bool wide = s.evWide.count({k.first - 1, k.second}) > 0;
                    int sz = k.first == COIL + 1 || k.first == DISCRETE + 1 ? 1 : wide ? 4 : 2;
                    if (!rec.empty() && (int)rec.size() + 4 + sz > maxBytes)
                        break;
                    s.evQueue.erase(s.evQueue.begin());
                    uint32_t v = (uint32_t)std::max(0, s.Get(k.first - 1, k.second));
                    if (wide)
                        v = v << 16 | (uint32_t)std::max(0, s.Get(k.first - 1, k.second + 1));
                    rec.insert(rec.end(), {(uint8_t)sz, (uint8_t)k.first, (uint8_t)(k.second >> 8), (uint8_t)k.second});
                    for (int b = 0; b < sz; ++b)
                        rec.push_back((uint8_t)(v >> (8 * b)));
                    ++n;
                    H.events.push_back({Now(), P->idx, s.idx, k.first, k.second, (uint64_t)v, f.id, false});
                }
                // the flag is not the one that the request confirms: it may stem from before a restart of the device
                s.evFlag = confId == s.id ? !confFlag : !s.evFlag;
                s.evUnconfirmed = rec;
                s.evWaiting = true;
                s.evFrames.clear();
            }
            s.evFrames.push_back(f.id);
            Bytes out{(uint8_t)s.id, 0x46, 0x11, (uint8_t)s.evFlag, (uint8_t)n, (uint8_t)rec.size()};
            out.insert(out.end(), rec.begin(), rec.end());
            Answer(f, out, s, 1 + Hash(f.id, 5) % 6);
        }
    };
    static std::vector<std::unique_ptr<Bus>> Buses;

    // ------------------------------------------------------------------ serial port of the host
    struct TtyDev: io::Tty, Sink
    {
        Port* P;
        Bus* B;
        std::vector<uint8_t> rx;
        bool open = true;
        termios cur;
        Line line;
        explicit TtyDev(Port* p, Bus* b): P(p), B(b)
        {
            memset(&cur, 0, sizeof(cur));
            cfsetospeed(&cur, B9600);
            cfsetispeed(&cur, B9600);
            cur.c_cflag |= CS8 | CREAD;
        }
        bool Broken()
        {
            return Active("unplug", P->idx);
        }
        bool Rx(const Bytes& b, const Line& from) override
        {
            if (!open || Broken())
                return false;
            bool ok = line == from;
            if (ok)
                rx.insert(rx.end(), b.begin(), b.end());
            else
                for (size_t i = 0; i < b.size(); i += 2)
                    rx.push_back((uint8_t)(b[i] ^ 0x5A ^ i));
            WakeAll(static_cast<io::FdObj*>(this));
            return ok;
        }
        ssize_t Read(void* p, size_t n) override
        {
            if (Broken()) {
                errno = EIO;
                H.ports.push_back({Now(), P->idx, 'e', line});
                return -1;
            }
            n = std::min(n, rx.size());
            memcpy(p, rx.data(), n);
            rx.erase(rx.begin(), rx.begin() + n);
            return n;
        }
        ssize_t Write(const void* p, size_t n) override
        {
            if (Broken()) {
                errno = EIO;
                sim::Spend(100 * US); // and the message about it
                Fired("write_eio");
                H.ports.push_back({Now(), P->idx, 'e', line});
                return -1;
            }
            auto id = (uint64_t)H.frames.size();
            if (Hit({"write_err"}, P->idx, -1, id)) {
                errno = EIO;
                sim::Spend(100 * US); // and the message about it
                H.ports.push_back({Now(), P->idx, 'e', line});
                return -1;
            }
            size_t m = n;
            if (auto w = Hit({"short_write"}, P->idx, -1, id)) {
                sim::Spend(100 * US);
                m = n > 1 ? 1 + Hash(w->seed, 1, id) % (n - 1) : 0;
                H.ports.push_back({Now(), P->idx, 'e', line});
            }
            if (m)
                B->Send(Bytes((const uint8_t*)p, (const uint8_t*)p + m), line, m < n);
            return m;
        }
        int Available() override
        {
            if (Broken()) {
                errno = EIO;
                return -1;
            }
            return rx.size();
        }
        bool Readable() override
        {
            return !rx.empty() || Broken();
        }
        ns_t NextReadable() override
        {
            if (Off)
                return NEVER;
            ns_t r = NEVER;
            for (auto& w: Windows)
                if (w.k == "unplug" && (w.port < 0 || w.port == P->idx) && w.t0 > Now())
                    r = std::min(r, w.t0);
            return r;
        }
        int GetAttr(termios* t) override
        {
            *t = cur;
            return 0;
        }
        int SetAttr(const termios* t) override
        {
            if (Broken()) {
                errno = EIO;
                return -1;
            }
            if (Hit({"tcset_err"}, P->idx, -1, (uint64_t)H.ports.size())) {
                errno = EIO;
                return -1;
            }
            cur = *t;
            switch (cfgetospeed(&cur)) {
                case B110:
                    line.baud = 110;
                    break;
                case B300:
                    line.baud = 300;
                    break;
                case B600:
                    line.baud = 600;
                    break;
                case B1200:
                    line.baud = 1200;
                    break;
                case B2400:
                    line.baud = 2400;
                    break;
                case B4800:
                    line.baud = 4800;
                    break;
                case B9600:
                    line.baud = 9600;
                    break;
                case B19200:
                    line.baud = 19200;
                    break;
                case B38400:
                    line.baud = 38400;
                    break;
                case B57600:
                    line.baud = 57600;
                    break;
                case B115200:
                    line.baud = 115200;
                    break;
                default:
                    line.baud = 0 + 50;
            }
            line.parity = !(cur.c_cflag & PARENB) ? 'N' : (cur.c_cflag & PARODD) ? 'O' : 'E';
            line.stop = cur.c_cflag & CSTOPB ? 2 : 1;
            switch (cur.c_cflag & CSIZE) {
                case CS5:
                    line.data = 5;
                    break;
                case CS6:
                    line.data = 6;
                    break;
                case CS7:
                    line.data = 7;
                    break;
                default:
                    line.data = 8;
            }
            H.ports.push_back({Now(), P->idx, 's', line});
            Mix(Hash(4, (uint64_t)line.baud, (uint64_t)line.parity));
            return 0;
        }
        int Flush(int q) override
        {
            if (q == TCIFLUSH || q == TCIOFLUSH)
                rx.clear();
            return 0;
        }
        void OnClose() override
        {
            open = false;
            if (B->S == static_cast<Sink*>(this))
                B->S = nullptr;
            H.ports.push_back({Now(), P->idx, 'c', line});
        }
    };
    struct NullSink: Sink
    {
        bool Rx(const Bytes&, const Line&) override
        {
            return false;
        }
    };
    static NullSink Null;

    // ------------------------------------------------------------------ TCP side of a gateway
    struct SockDev: io::Sock, Sink
    {
        Port* P = nullptr;
        Bus* B = nullptr;
        enum
        {
            New,
            Connecting,
            Up,
            Refused,
            Dead,
            Fin,
            Rst
        } st = New;
        std::vector<uint8_t> rx;  // received by the host
        std::vector<uint8_t> tcp; // partial Modbus TCP request
        bool closed = false;
        std::weak_ptr<SockDev> self;
        ns_t lastRx = 0;

        void Wake()
        {
            WakeAll(static_cast<io::FdObj*>(this));
        }
        int Connect(const std::string& host, int port) override
        {
            auto name = host + ":" + std::to_string(port);
            for (auto& p: Ports)
                if (p->path == name)
                    P = p.get();
            if (!P) {
                errno = ECONNREFUSED;
                return -1;
            }
            B = Buses[P->idx].get();
            auto n = (uint64_t)H.ports.size();
            if (Hit({"refuse"}, P->idx, -1, n)) {
                H.ports.push_back({Now(), P->idx, 'E', P->line});
                errno = ECONNREFUSED;
                return -1;
            }
            st = Connecting;
            auto me = self.lock();
            if (Hit({"blackhole"}, P->idx, -1, n)) {
                H.ports.push_back({Now(), P->idx, 'E', P->line});
                errno = EINPROGRESS;
                return -1;
            }
            bool refuseLater = Hit({"refuse_late"}, P->idx, -1, n) != nullptr;
            After(P->latency * 2 + 1 * MS, [me, refuseLater] {
                if (me->closed)
                    return;
                me->st = refuseLater ? Refused : Up;
                H.ports.push_back({Now(), me->P->idx, refuseLater ? 'E' : 'o', me->P->line});
                if (!refuseLater)
                    me->B->S = me.get();
                me->Wake();
            });
            errno = EINPROGRESS;
            return -1;
        }
        bool Writable() override
        {
            return st != Connecting;
        }
        int SoError() override
        {
            return st == Refused ? ECONNREFUSED : 0;
        }
        void CheckBreak()
        {
            if (st == Up) {
                if (Active("rst", P->idx)) {
                    st = Rst;
                    Fired("rst");
                } else if (Active("fin", P->idx)) {
                    st = Fin;
                    Fired("fin");
                }
                if (st != Up) {
                    if (B->S == static_cast<Sink*>(this))
                        B->S = &Null;
                    H.ports.push_back({Now(), P->idx, 'e', P->line});
                }
            }
        }
        ssize_t Read(void* p, size_t n) override
        {
            CheckBreak();
            if (st == Rst) { // the error is reported once
                st = Dead;
                errno = ECONNRESET;
                return -1;
            }
            n = std::min(n, rx.size());
            memcpy(p, rx.data(), n);
            rx.erase(rx.begin(), rx.begin() + n);
            return n;
        }
        int Available() override
        {
            CheckBreak();
            return rx.size();
        }
        bool Readable() override
        {
            CheckBreak();
            return !rx.empty() || st == Fin || st == Rst || st == Dead;
        }
        ns_t NextReadable() override
        {
            ns_t r = NEVER;
            if (!Off && P)
                for (auto& w: Windows)
                    if ((w.k == "rst" || w.k == "fin") && (w.port < 0 || w.port == P->idx) && w.t0 > Now())
                        r = std::min(r, w.t0);
            return r;
        }
        ssize_t Write(const void* p, size_t n) override
        {
            CheckBreak();
            if (st == Rst || st == Fin || st == Dead) {
                errno = st == Rst ? ECONNRESET : EPIPE;
                if (st == Dead) {
                    struct sigaction sa;
                    sigaction(SIGPIPE, nullptr, &sa);
                    if (sa.sa_handler == SIG_DFL)
                        Alarm("sigpipe", "a write to a closed connection kills the service: SIGPIPE is not ignored");
                    errno = EPIPE;
                }
                bool first = st == Fin; // the peer answers what comes after its FIN with RST
                st = Dead;
                return first ? (ssize_t)n : -1;
            }
            if (st != Up) {
                errno = ENOTCONN;
                return -1;
            }
            Bytes b((const uint8_t*)p, (const uint8_t*)p + n);
            if (auto w = Hit({"short_write"}, P->idx, -1, (uint64_t)H.frames.size())) {
                b.resize(n > 1 ? 1 + Hash(w->seed, 1, H.frames.size()) % (n - 1) : 0);
                H.ports.push_back({Now(), P->idx, 'e', P->line});
            }
            auto me = self.lock();
            auto m = b.size();
            if (Active("blackhole", P->idx)) {
                Fired("blackhole_data");
                return m;
            }
            bool cut = m < n;
            After(P->latency, [me, b, cut] {
                if (me->P->kind == "mtcp")
                    me->ModbusTcp(b);
                else
                    me->B->Send(b, me->P->line, cut);
            });
            return m;
        }
        void ToHost(const Bytes& b, ns_t extra = 0)
        {
            auto me = self.lock();
            // TCP keeps the order and may merge or split
            ns_t t = std::max(lastRx, Now() + P->latency + extra);
            lastRx = t;
            auto put = [me](Bytes part) {
                if (me->closed || me->st != Up || Active("blackhole", me->P->idx))
                    return;
                me->rx.insert(me->rx.end(), part.begin(), part.end());
                me->Wake();
            };
            if (b.size() > 2 && Hash((uint64_t)t, b.size()) % 3 == 0) {
                size_t k = 1 + Hash((uint64_t)t, 2) % (b.size() - 1);
                Bytes b1(b.begin(), b.begin() + k), b2(b.begin() + k, b.end());
                At(t, [put, b1] { put(b1); });
                lastRx = t + 2 * MS;
                At(t + 2 * MS, [put, b2] { put(b2); });
                return;
            }
            At(t, [put, b] { put(b); });
        }
        bool Rx(const Bytes& b, const Line& from) override
        {
            if (closed || st != Up || !(from == P->line))
                return false;
            ToHost(b);
            return true;
        }
        void ModbusTcp(const Bytes& b)
        {
            if (closed || st != Up)
                return;
            tcp.insert(tcp.end(), b.begin(), b.end());
            while (tcp.size() >= 7) {
                size_t len = tcp[4] << 8 | tcp[5];
                if (len < 2 || len > 254 || tcp[2] || tcp[3]) { // not a request: the stream is out of step
                    tcp.clear();
                    return;
                }
                if (tcp.size() < 6 + len)
                    return;
                Bytes m(tcp.begin(), tcp.begin() + 6 + len);
                tcp.erase(tcp.begin(), tcp.begin() + 6 + len);
                Frame f;
                f.id = (int)H.frames.size();
                f.port = P->idx;
                f.t0 = f.t1 = Now();
                f.line = P->line;
                f.b = Bytes(m.begin() + 6, m.end());
                f.crcOk = true;
                f.unit = m[6];
                Bytes pdu(m.begin() + 7, m.end());
                Bus::Parse(f, pdu);
                Mix(Hash(5, (uint64_t)f.t0, Crc(m.data(), m.size())));
                Slave* s = nullptr;
                for (auto& x: P->slaves)
                    if (x->id == f.unit)
                        s = x.get();
                H.frames.push_back(f);
                auto& fr = H.frames.back();
                if (!s || !s->up || s->mute || Now() < s->bootUntil || Active("offline", P->idx, s->idx)) {
                    fr.fate = s ? "offline" : "nobody";
                    if (s && Hash(f.id, 3) % 2) { // some gateways answer for an absent device
                        fr.exc = 11;
                        Mbap(m, Bytes{(uint8_t)(pdu[0] | 0x80), 11}, f.unit, 20 * MS);
                    }
                    continue;
                }
                ++s->nReq;
                fr.slave = s->idx;
                uint64_t idx = s->nReq;
                if (Hit({"drop_req"}, P->idx, s->idx, idx, f.fn)) {
                    fr.fate = "drop_req";
                    continue;
                }
                Bytes r;
                if (auto w = Hit({"exc"}, P->idx, s->idx, idx, f.fn)) {
                    fr.fate = "exc";
                    fr.exc = w->arg ? w->arg : 6;
                    r = {(uint8_t)(pdu[0] | 0x80), (uint8_t)fr.exc};
                } else
                    r = HandlePdu(*s, pdu, fr);
                if (r.empty())
                    continue;
                if (Hit({"drop_rsp"}, P->idx, s->idx, idx, f.fn)) {
                    fr.fate = "drop_rsp";
                    continue;
                }
                ns_t d = s->delayMin + (ns_t)(Hash(idx, 3) % (uint64_t)(s->delayMax - s->delayMin + 1));
                fr.rsp0 = Now() + d;
                fr.rsp1 = fr.rsp0;
                fr.rsp = r;
                fr.replied = true;
                if (auto w = Hit({"late"}, P->idx, s->idx, idx, f.fn)) {
                    fr.fate = "late";
                    fr.replied = false;
                    d += (w->arg ? w->arg : 1500) * MS;
                } else if (Hit({"dup_rsp"}, P->idx, s->idx, idx, f.fn)) {
                    Mbap(m, r, f.unit, d);
                    d += 1 * MS;
                } else if (auto w = Hit({"evil"}, P->idx, s->idx, idx, f.fn)) {
                    fr.fate = "evil";
                    fr.replied = false;
                    Bytes o{(uint8_t)f.unit};
                    o.insert(o.end(), r.begin(), r.end());
                    o.push_back(0);
                    o.push_back(0);
                    B->Evil(o, Hash(w->seed, 9, idx), fr);
                    o.resize(std::max<size_t>(o.size(), 3) - 2);
                    Bytes mm = m;
                    if (Hash(w->seed, 12, idx) % 4 == 0)
                        mm[Hash(w->seed, 13, idx) % 6] ^= 1 << (Hash(w->seed, 14, idx) % 8);
                    r = Bytes(o.begin() + 1, o.end());
                    static const int lens[] = {0, 1, 2, 3, 255, 256, 65535};
                    uint64_t h = Hash(w->seed, 15, idx);
                    Mbap(mm, r, o[0], d, h % 6 == 0 ? lens[h / 6 % 7] : -1);
                    continue;
                }
                Mbap(m, r, f.unit, d);
            }
        }
        void Mbap(const Bytes& m, const Bytes& r, int unit, ns_t d, int len = -1)
        {
            if (len < 0)
                len = (int)r.size() + 1;
            Bytes o{m[0], m[1], m[2], m[3], (uint8_t)(len >> 8), (uint8_t)len, (uint8_t)unit};
            o.insert(o.end(), r.begin(), r.end());
            auto me = self.lock();
            After(d, [me, o] {
                if (!me->closed)
                    me->ToHost(o);
            });
        }
        void OnClose() override
        {
            closed = true;
            if (B && B->S == static_cast<Sink*>(this))
                B->S = &Null;
            if (P)
                H.ports.push_back({Now(), P->idx, 'c', P->line});
        }
    };

    // ------------------------------------------------------------------ set up
    static void LoadMem(Slave& s, const Json::Value& list, std::array<std::map<int, uint16_t>, 4>& m)
    {
        for (const auto& r: list) {
            int a = r["a"].asInt();
            for (const auto& v: r["v"])
                m[r["s"].asInt()][a++] = (uint16_t)v.asInt();
        }
        (void)s;
    }
    void Load(const Json::Value& plan)
    {
        ThePlan = &plan;
        FaultSeed = plan["faultSeed"].asUInt64();
        ns_t base = Now();
        uint64_t wi = 0;
        for (const auto& f: plan["faults"]) {
            if (f.isMember("ph") && f["ph"].asInt() != Phase)
                continue;
            Window w;
            w.k = f["k"].asString();
            if (f.isMember("port"))
                w.port = f["port"].asInt();
            if (f.isMember("slave"))
                w.slave = f["slave"].asInt();
            if (f.isMember("fn"))
                w.fn = f["fn"].asInt();
            w.t0 = base + MsOf(f["t0"]);
            w.t1 = f.isMember("t1") ? base + MsOf(f["t1"]) : NEVER;
            if (f.isMember("p"))
                w.p = f["p"].asDouble();
            if (f.isMember("n"))
                w.n = f["n"].asInt();
            if (f.isMember("arg"))
                w.arg = f["arg"].asInt();
            if (f.isMember("path"))
                w.path = f["path"].asString();
            if (f.isMember("op"))
                w.op = f["op"].asString()[0];
            w.seed = f.isMember("seed") ? f["seed"].asUInt64() : Hash(FaultSeed, ++wi);
            Windows.push_back(w);
        }
        for (const auto& pj: plan["ports"]) {
            auto p = std::make_unique<Port>();
            p->idx = (int)Ports.size();
            p->kind = pj["kind"].asString();
            p->path = pj["path"].asString();
            p->line = LineOf(pj, Line());
            p->latency = MsOf(pj["latency"]);
            for (const auto& sj: pj["slaves"]) {
                auto s = std::make_unique<Slave>();
                s->port = p->idx;
                s->idx = (int)p->slaves.size();
                s->id = sj["id"].asInt();
                s->line = LineOf(sj, p->line);
                LoadMem(*s, sj["mem"], s->mem);
                LoadMem(*s, sj["powerOn"], s->powerOn);
                for (const auto& r: sj["ro"])
                    for (int i = 0; i < r[2].asInt(); ++i)
                        s->ro.insert({r[0].asInt(), r[1].asInt() + i});
                for (const auto& r: sj["excRead"])
                    s->excRead[{r[0].asInt(), r[1].asInt()}] = r[2].asInt();
                for (const auto& r: sj["excWrite"])
                    s->excWrite[{r[0].asInt(), r[1].asInt()}] = r[2].asInt();
                for (const auto& r: sj["events"])
                    for (int i = 0; i < r[2].asInt(); ++i)
                        s->evSupported.insert({r[0].asInt(), r[1].asInt() + i});
                for (const auto& r: sj["evWide"]) // 32 bit values
                    s->evWide.insert({r[0].asInt(), r[1].asInt()});
                for (const auto& r: sj["evOn"]) // left enabled by an earlier configuration
                    s->evEnabled[{r[0].asInt() + 1, r[1].asInt()}] = {1};
                if (sj.isMember("maxRead"))
                    s->maxRead = sj["maxRead"].asInt();
                if (sj.isMember("maxWrite"))
                    s->maxWrite = sj["maxWrite"].asInt();
                if (sj.isMember("delayUs")) {
                    s->delayMin = sj["delayUs"][0].asInt() * US;
                    s->delayMax = sj["delayUs"][1].asInt() * US;
                }
                s->wb = sj["wb"].asBool();
                s->contRead = sj["contRead"].asBool();
                s->fast = sj["fast"].asBool();
                s->oldFw = sj["oldFw"].asBool();
                s->sn = sj["sn"].asUInt();
                s->mute = sj["mute"].asBool();
                if (sj.isMember("boot"))
                    s->boot = sj["boot"];
                s->inBoot = s->boot["startInBoot"].asBool();
                if (sj.isMember("up"))
                    s->up = sj["up"].asBool();
                s->rebootPending = s->fast;
                p->slaves.push_back(std::move(s));
            }
            auto b = std::make_unique<Bus>();
            b->P = p.get();
            b->S = &Null;
            Buses.push_back(std::move(b));
            Ports.push_back(std::move(p));
        }
        // power cuts
        for (auto& w: Windows) {
            if (w.k == "power" || w.k == "reboot") {
                auto k = w.k;
                int p = w.port, s = w.slave, arg = w.arg;
                auto t1 = w.t1;
                At(w.t0, [=] {
                    if (Off || p >= (int)Ports.size() || s >= (int)Ports[p]->slaves.size())
                        return;
                    Fired(k);
                    auto& sl = *Ports[p]->slaves[s];
                    if (k == "reboot")
                        Reboot(sl, (arg ? arg : 300) * MS);
                    else
                        PowerOff(sl);
                });
                if (k == "power")
                    At(t1, [=] {
                        if (p < (int)Ports.size() && s < (int)Ports[p]->slaves.size())
                            PowerOn(*Ports[p]->slaves[s]);
                    });
            }
            if (w.k == "clock")
                At(w.t0, [d = (ns_t)w.arg * SEC] {
                    Fired("clock");
                    io::WallOffset += d;
                });
            if (w.k == "offline" || w.k == "unplug" || w.k == "blackhole")
                At(w.t0, [k = w.k] {
                    if (!Off)
                        Fired(k);
                });
        }
        for (const auto& pj: plan["ports"]) {
            int pi = (int)(&pj - &plan["ports"][0]);
            (void)pi;
        }
        // values that change by themselves
        struct Tick
        {
            int p, s, sp, a, step;
            ns_t period;
        };
        for (const auto& t: plan["ticks"]) {
            auto tk = std::make_shared<Tick>(Tick{t["port"].asInt(),
                                                  t["slave"].asInt(),
                                                  t["s"].asInt(),
                                                  t["a"].asInt(),
                                                  t["step"].asInt(),
                                                  MsOf(t["period"])});
            auto fn = std::make_shared<std::function<void()>>();
            *fn = [tk, fn] {
                auto& s = *Ports[tk->p]->slaves[tk->s];
                int v = s.Get(tk->sp, tk->a);
                if (v >= 0 && !Off)
                    SetMem(s, tk->sp, tk->a, {tk->sp <= DISCRETE ? !v : (v + tk->step) & 0xFFFF}, -1);
                if (!Off)
                    After(tk->period, *fn);
            };
            After(tk->period, *fn);
        }
    }
    Json::Value SaveState()
    {
        Json::Value r(Json::arrayValue);
        for (auto& p: Ports) {
            Json::Value pv(Json::arrayValue);
            for (auto& s: p->slaves) {
                Json::Value sv;
                sv["id"] = s->id;
                sv["baud"] = s->line.baud;
                sv["parity"] = std::string(1, s->line.parity);
                sv["stop"] = s->line.stop;
                for (int sp = 0; sp < 4; ++sp)
                    for (auto& kv: s->mem[sp]) {
                        Json::Value m(Json::arrayValue);
                        m.append(sp);
                        m.append(kv.first);
                        m.append((int)kv.second);
                        sv["mem"].append(m);
                    }
                pv.append(sv);
            }
            r.append(pv);
        }
        return r;
    }
    void LoadState(const Json::Value& st)
    {
        for (size_t p = 0; p < Ports.size() && p < st.size(); ++p)
            for (size_t i = 0; i < Ports[p]->slaves.size(); ++i) {
                auto& s = *Ports[p]->slaves[i];
                const auto& sv = st[(int)p][(int)i];
                s.id = sv["id"].asInt();
                s.line = LineOf(sv, s.line);
                for (auto& m: s.mem)
                    m.clear();
                for (const auto& m: sv["mem"])
                    s.mem[m[0].asInt()][m[1].asInt()] = (uint16_t)m[2].asInt();
            }
    }
}

namespace world { int PortCount(); }
int world::PortCount()
{
    return (int)Ports.size() + (*ThePlan)["extraFds"].asInt(); // endpoints named by mutated requests
}
// ====================================================================== io:: callbacks
namespace io
{
    using namespace world;
    std::shared_ptr<Tty> OpenTty(const std::string& path)
    {
        for (auto& p: Ports) {
            if (p->kind != "serial" || p->path != path)
                continue;
            auto n = (uint64_t)H.ports.size();
            if (Active("unplug", p->idx) || Hit({"open_fail"}, p->idx, -1, n)) {
                H.ports.push_back({Now(), p->idx, 'E', p->line});
                errno = ENOENT;
                return nullptr;
            }
            auto t = std::make_shared<TtyDev>(p.get(), Buses[p->idx].get());
            if (Buses[p->idx]->S && Buses[p->idx]->S != &world::Null)
                Alarm("opened_twice", "serial port " + path + " is opened while it is still open");
            Buses[p->idx]->S = t.get();
            H.ports.push_back({Now(), p->idx, 'o', t->line});
            Mix(77);
            return t;
        }
        errno = ENOENT;
        return nullptr;
    }
    std::shared_ptr<Sock> NewSock()
    {
        if (Hit({"nosock"}, -1, -1, (uint64_t)H.ports.size())) {
            errno = EMFILE;
            H.ports.push_back({Now(), -1, 'E', Line()});
            return nullptr;
        }
        auto s = std::make_shared<SockDev>();
        s->self = s;
        return s;
    }
    int Resolve(const std::string& host)
    {
        if (Hit({"dns"}, -1, -1, (uint64_t)H.ports.size()))
            return EAI_AGAIN;
        return host.empty() || !isdigit(host[0]) ? EAI_NONAME : 0;
    }
    bool EintrNow()
    {
        static uint64_t n = 0;
        return Hit({"eintr"}, -1, -1, ++n) != nullptr;
    }
    HttpReply Http(const std::string& url)
    {
        HttpReply r;
        const auto& h = world::Plan()["http"];
        static uint64_t n = 0;
        ++n;
        r.delay = 50 * MS;
        if (auto w = Hit({"http_fail"}, -1, -1, n)) {
            r.curlCode = w->arg ? w->arg : 7;
            r.delay = 2 * SEC;
            return r;
        }
        if (auto w = Hit({"http_status"}, -1, -1, n)) {
            r.status = w->arg ? w->arg : 503;
            r.body = "error";
            return r;
        }
        if (!h.isMember(url)) {
            r.status = 404;
            r.body = "not found";
            Probe("http_404");
            return r;
        }
        const auto& e = h[url];
        if (e.isMember("hex")) {
            auto s = e["hex"].asString();
            for (size_t i = 0; i + 1 < s.size(); i += 2)
                r.body.push_back((char)strtol(s.substr(i, 2).c_str(), nullptr, 16));
        } else
            r.body = e["body"].asString();
        if (e.isMember("status"))
            r.status = e["status"].asInt();
        if (auto w = Hit({"http_short"}, -1, -1, n)) {
            r.body.resize(r.body.size() * (w->arg ? w->arg : 50) / 100);
            r.curlCode = 18; // part of the file
            Probe("http_short");
        }
        Probe("http_ok");
        return r;
    }
}
namespace world
{
    // Disk faults; a kill does not return. Returns what FsHook returns.
    int FsFault(char op, const std::string& path, size_t n, bool& kill)
    {
        kill = false;
        if (Off)
            return 0;
        for (auto& w: Windows) {
            if (w.k.compare(0, 3, "fs_") || Now() < w.t0 || Now() >= w.t1)
                continue;
            if (w.op && w.op != op)
                continue;
            if (!w.path.empty() && path.find(w.path) == std::string::npos)
                continue;
            ++w.seen;
            bool hit = w.n > 0 ? w.seen == w.n : Unit(Hash(w.seed, (uint64_t)w.seen)) < w.p;
            if (!hit)
                continue;
            ++H.faults[w.k];
            H.fs.push_back({Now(), op, path, 1});
            if (w.k == "fs_kill") {
                kill = true;
                return 0;
            }
            if (w.k == "fs_err")
                return w.arg ? w.arg : EIO;
            if (w.k == "fs_short" && op == 'w')
                return -(int)(n ? Hash(w.seed, 5, w.seen) % n : 0) - 1;
        }
        return 0;
    }
}
