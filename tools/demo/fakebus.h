// A Modbus RTU line with devices in memory, and the service's port driver on top of it.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <optional>
#include <set>
#include <thread>
#include <unistd.h>
#include <vector>
#include <wblib/wbmqtt.h>

#include "crc16.h"
#include "rpc/rpc_config.h"
#include "serial_config.h"
#include "serial_driver.h"
#include "serial_exc.h"
#include "serial_port_driver.h"

using Bytes = std::vector<uint8_t>;

struct TDev
{
    int Id;
    std::map<int, int> Mem[4]; // coils, discrete inputs, holding, input registers
    bool Up = true;
    bool ZeroHoles = false; // answers for registers it does not have
    int MaxRead = 125;
    // may answer instead of the device; an empty vector is silence
    std::function<std::optional<Bytes>(const Bytes& pdu)> Hook;
    Bytes Exc(int fn, int code)
    {
        return {(uint8_t)(fn | 0x80), (uint8_t)code};
    }
    Bytes Handle(const Bytes& p)
    {
        if (Hook) {
            auto r = Hook(p);
            if (r)
                return *r;
        }
        int fn = p[0];
        if (p.size() < 5)
            return {};
        int a = p[1] << 8 | p[2], n = p[3] << 8 | p[4];
        if (fn >= 1 && fn <= 4) {
            int sp = fn == 1 ? 0 : fn == 2 ? 1 : fn == 3 ? 2 : 3;
            if (sp >= 2 && n > MaxRead)
                return Exc(fn, 3);
            Bytes r{(uint8_t)fn, (uint8_t)(sp < 2 ? (n + 7) / 8 : n * 2)};
            if (sp < 2)
                r.resize(2 + (n + 7) / 8);
            for (int i = 0; i < n; ++i) {
                auto it = Mem[sp].find(a + i);
                if (it == Mem[sp].end() && !ZeroHoles)
                    return Exc(fn, 2);
                int v = it == Mem[sp].end() ? 0 : it->second;
                if (sp < 2) {
                    if (v)
                        r[2 + i / 8] |= 1 << (i % 8);
                } else {
                    r.push_back(v >> 8);
                    r.push_back(v);
                }
            }
            return r;
        }
        if (fn == 5 || fn == 6) {
            int sp = fn == 5 ? 0 : 2;
            if (!Mem[sp].count(a))
                return Exc(fn, 2);
            Mem[sp][a] = fn == 5 ? n != 0 : n;
            return p;
        }
        if (fn == 16) {
            for (int i = 0; i < n; ++i)
                if (!Mem[2].count(a + i))
                    return Exc(fn, 2);
            for (int i = 0; i < n; ++i)
                Mem[2][a + i] = p[6 + i * 2] << 8 | p[7 + i * 2];
            return Bytes(p.begin(), p.begin() + 5);
        }
        return Exc(fn, 1);
    }
};

struct TReq
{
    std::chrono::steady_clock::time_point T;
    int Unit;
    Bytes Pdu;
    int Fn() const
    {
        return Pdu[0];
    }
    int Addr() const
    {
        return Pdu[1] << 8 | Pdu[2];
    }
    int Count() const
    {
        return Pdu[3] << 8 | Pdu[4];
    }
};

class TFakeLine: public TPort
{
public:
    std::map<int, TDev> Devs;
    std::vector<TReq> Log;
    std::vector<std::string> Settings; // applied settings and resets
    Bytes Answer;
    bool Opened = false;
    std::function<void(const TReq&)> OnRequest;
    std::function<bool()> OpenFails;
    std::chrono::microseconds ByteTime{1000};
    int Opens = 0;

    TDev& Dev(int id)
    {
        Devs[id].Id = id;
        return Devs[id];
    }
    void Open() override
    {
        if (OpenFails && OpenFails())
            throw TSerialDeviceException("cannot open");
        Opened = true;
        ++Opens;
    }
    void Close() override
    {
        Opened = false;
    }
    bool IsOpen() const override
    {
        return Opened;
    }
    void CheckPortOpen() const override
    {
        if (!Opened)
            throw TSerialDeviceException("port is not open");
    }
    void WriteBytes(const uint8_t* b, int n) override
    {
        CheckPortOpen();
        Answer.clear();
        if (n < 4)
            return;
        TReq r{std::chrono::steady_clock::now(), b[0], Bytes(b + 1, b + n - 2)};
        Log.push_back(r);
        if (OnRequest)
            OnRequest(r);
        auto d = Devs.find(r.Unit);
        if (d == Devs.end() || !d->second.Up)
            return;
        auto a = d->second.Handle(r.Pdu);
        if (a.empty())
            return;
        Answer = {b[0]};
        Answer.insert(Answer.end(), a.begin(), a.end());
        auto crc = CRC16::CalculateCRC16(Answer.data(), Answer.size());
        Answer.push_back(crc >> 8);
        Answer.push_back(crc & 0xFF);
    }
    using TPort::WriteBytes;
    uint8_t ReadByte(const std::chrono::microseconds&) override
    {
        if (Answer.empty())
            throw TSerialDeviceTransientErrorException("timeout");
        auto c = Answer[0];
        Answer.erase(Answer.begin());
        return c;
    }
    TReadFrameResult ReadFrame(uint8_t* buf,
                               size_t count,
                               const std::chrono::microseconds&,
                               const std::chrono::microseconds&,
                               TFrameCompletePred) override
    {
        CheckPortOpen();
        if (Answer.empty())
            throw TResponseTimeoutException();
        TReadFrameResult r;
        r.Count = std::min(count, Answer.size());
        memcpy(buf, Answer.data(), r.Count);
        Answer.erase(Answer.begin(), Answer.begin() + r.Count);
        return r;
    }
    void SkipNoise() override
    {
        Answer.clear();
    }
    void SleepSinceLastInteraction(const std::chrono::microseconds&) override
    {}
    std::chrono::microseconds GetSendTimeBytes(double n) const override
    {
        return std::chrono::microseconds((int64_t)(n * ByteTime.count()));
    }
    std::chrono::microseconds GetSendTimeBits(size_t n) const override
    {
        return std::chrono::microseconds((int64_t)(n * ByteTime.count() / 11));
    }
    std::string GetDescription(bool) const override
    {
        return "/dev/fake";
    }
    void ApplySerialPortSettings(const TSerialPortConnectionSettings& s) override
    {
        Settings.push_back(std::to_string(s.BaudRate) + s.Parity + std::to_string(s.StopBits));
    }
    void ResetSerialPortSettings() override
    {
        Settings.push_back("reset");
    }
};

// Devices of a line that report changes by events
struct TEventLine
{
    TFakeLine& Line;
    struct TRec
    {
        int Id, Type, Addr;
        Bytes Data;
    };
    std::set<std::array<int, 3>> Refused; // unit, event type, address
    std::set<int> NoEnableAnswer;         // units
    bool Deaf = false;                    // requests for events are not answered
    std::vector<TRec> Queue;
    int Sent = 0; // records in the packet that is not confirmed yet
    int SentBy = 0;
    int Flag = 0;
    std::map<int, int> Enables; // requests that enable events, by unit
    TEventLine(TFakeLine& l): Line(l)
    {
        Line.OnRequest = [this](const TReq& r) {
            if (r.Unit == 0xFD && r.Pdu[0] == 0x46 && r.Pdu[1] == 0x10)
                Events(r.Pdu);
        };
    }
    void Attach(int unit)
    {
        Line.Dev(unit).Hook = [this, unit](const Bytes& p) -> std::optional<Bytes> {
            if (p[0] != 0x46 || p[1] != 0x18)
                return std::nullopt;
            ++Enables[unit];
            if (NoEnableAnswer.count(unit))
                return Bytes();
            Bytes r{0x46, 0x18, 0};
            for (size_t i = 3; i + 4 <= p.size(); i += 4 + p[i + 3]) {
                uint8_t bits = 0;
                for (int k = 0; k < p[i + 3]; ++k) {
                    if (k && k % 8 == 0) {
                        r.push_back(bits);
                        bits = 0;
                    }
                    if (p[i + 4 + k] && !Refused.count({unit, p[i], (p[i + 1] << 8 | p[i + 2]) + k}))
                        bits |= 1 << k % 8;
                }
                r.push_back(bits);
            }
            r[2] = r.size() - 3;
            return r;
        };
    }
    void Send(int unit, int type, int addr, Bytes data)
    {
        Queue.push_back({unit, type, addr, data});
    }
    void Events(const Bytes& p)
    {
        Line.Answer.clear();
        if (Deaf)
            return;
        if (Sent && p.size() >= 6 && p[4] == SentBy && p[5] == Flag) {
            Queue.erase(Queue.begin(), Queue.begin() + Sent);
            Sent = 0;
        }
        Bytes a;
        if (Queue.empty()) {
            a = {0xFD, 0x46, 0x12};
        } else {
            if (!Sent)
                Flag = p.size() >= 6 && p[4] == Queue[0].Id ? !p[5] : !Flag;
            Sent = 1;
            SentBy = Queue[0].Id;
            auto& q = Queue[0];
            a = {(uint8_t)q.Id, 0x46, 0x11, (uint8_t)Flag, 1, (uint8_t)(4 + q.Data.size()), (uint8_t)q.Data.size(), (uint8_t)q.Type, (uint8_t)(q.Addr >> 8), (uint8_t)q.Addr};
            a.insert(a.end(), q.Data.begin(), q.Data.end());
        }
        auto crc = CRC16::CalculateCRC16(a.data(), a.size());
        a.push_back(crc >> 8);
        a.push_back(crc & 0xFF);
        Line.Answer = a;
    }
};

struct TPubl
{
    char What;
    std::string Dev, Ctl, Val, Err;
};

struct TBench
{
    std::shared_ptr<TFakeLine> Line = std::make_shared<TFakeLine>();
    std::string Dir;
    std::mutex M;
    std::vector<TPubl> Pubs;
    std::map<std::string, std::string> Val, Err;
    WBMQTT::PDeviceDriver Driver;
    std::shared_ptr<TMQTTSerialDriver> Serial;
    PHandlerConfig Config;
    PTemplateMap Templates;
    std::shared_ptr<TSerialDeviceFactory> Factory;
    // devices: JSON array text
    void Start(const std::string& devices, const std::string& portExtra = "", const std::map<std::string, std::string>& templates = {})
    {
        char d[] = "/tmp/demo.XXXXXX";
        Dir = mkdtemp(d);
        std::ofstream(Dir + "/c.conf") << "{\"ports\":[{\"port_type\":\"serial\",\"path\":\"/dev/fake\",\"enabled\":true" << portExtra
                                       << ",\"devices\":" << devices << "}]}";
        auto& h = WBMQTT::StubHooks;
        h.Control = [this](char w, const std::string& dev, const std::string& c, const std::string& v, const std::string& e) {
            std::lock_guard<std::mutex> l(M);
            Pubs.push_back({w, dev, c, v, e});
            if (w == 'v') {
                Val[dev + "/" + c] = v;
                Err[dev + "/" + c] = e;
            }
            if (w == 'e')
                Err[dev + "/" + c] = e;
        };
        Factory = std::make_shared<TSerialDeviceFactory>();
        RegisterProtocols(*Factory);
        auto common = WBMQTT::JSON::Parse("/repo/wb-mqtt-serial-confed-common.schema.json");
        Templates = std::make_shared<TTemplateMap>(LoadConfigTemplatesSchema("/repo/wb-mqtt-serial-device-template.schema.json", common));
        if (!templates.empty()) {
            std::string td = Dir + "/templates";
            if (system(("mkdir -p " + td).c_str()))
                exit(3);
            for (auto& t: templates)
                std::ofstream(td + "/" + t.first) << t.second;
            Templates->AddTemplatesDir(td);
        }
        TProtocolConfedSchemasMap protocolSchemas("/repo/protocols", common);
        auto ports = WBMQTT::JSON::Parse("/repo/wb-mqtt-serial-ports.schema.json");
        auto rpc = std::make_shared<TRPCConfig>();
        Config = LoadConfig(Dir + "/c.conf",
                            *Factory,
                            common,
                            *Templates,
                            rpc,
                            ports,
                            protocolSchemas,
                            [this](const Json::Value&, PRPCConfig) { return std::make_shared<TFeaturePort>(Line, false); });
        auto mqtt = WBMQTT::NewMosquittoMqttClient(WBMQTT::TMosquittoMqttConfig());
        Driver = WBMQTT::NewDriver(WBMQTT::TDriverArgs{}.SetId("demo").SetBackend(WBMQTT::NewDriverBackend(mqtt)));
        Driver->StartLoop();
        Driver->WaitForReady();
        Serial = std::make_shared<TMQTTSerialDriver>(Driver, Config);
    }
    // Runs poll cycles until the condition holds; false if it never does
    bool Until(double secs, std::function<bool()> cond)
    {
        auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds((int)(secs * 1000));
        while (std::chrono::steady_clock::now() < end) {
            {
                std::lock_guard<std::mutex> l(M);
                if (cond())
                    return true;
            }
            Serial->LoopOnce();
        }
        std::lock_guard<std::mutex> l(M);
        return cond();
    }
    void For(double secs)
    {
        Until(secs, [] { return false; });
    }
    void On(const std::string& dev, const std::string& ctl, const std::string& v)
    {
        if (!WBMQTT::TStub::ClientOn(dev, ctl, v))
            Fail("command not accepted: " + dev + "/" + ctl);
        std::this_thread::sleep_for(std::chrono::milliseconds(100)); // the driver's thread hands it over
    }
    [[noreturn]] void Fail(const std::string& s)
    {
        std::cout << "FAIL: " << s << std::endl;
        Quit(1);
    }
    [[noreturn]] void Quit(int rc)
    {
        if (!Dir.empty() && system(("rm -rf '" + Dir + "'").c_str())) {
        }
        _exit(rc);
    }
    void Need(bool ok, const std::string& s)
    {
        if (!ok)
            Fail(s);
    }
    [[noreturn]] void Pass()
    {
        std::cout << "OK" << std::endl;
        Quit(0);
    }
};
