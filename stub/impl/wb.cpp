#include <wblib/all.h>

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <fstream>
#include <regex>

namespace WBMQTT
{
    TStubHooks StubHooks;
    TLogger Error("ERROR: ", TLogger::StdErr, 0), Warn("WARNING: ", TLogger::StdErr, 0), Info("INFO: ", TLogger::StdErr, 0),
        Debug("DEBUG: ", TLogger::StdErr, 0, false);

    TLogger::TStream::~TStream()
    {
        if (L && StubHooks.Log)
            StubHooks.Log(L->Prefix, S.str());
    }
    void StubYield()
    {
        if (StubHooks.Yield)
            StubHooks.Yield();
    }
    std::vector<std::string> StringSplit(const std::string& s, const std::string& d)
    {
        std::vector<std::string> r;
        size_t p = 0;
        while (true) {
            auto q = s.find(d, p);
            r.push_back(s.substr(p, q == std::string::npos ? q : q - p));
            if (q == std::string::npos)
                return r;
            p = q + d.size();
        }
    }
    std::vector<std::string> StringSplit(const std::string& s, char c)
    {
        return StringSplit(s, std::string(1, c));
    }
    bool StringStartsWith(const std::string& s, const std::string& p)
    {
        return s.compare(0, p.size(), p) == 0;
    }
    bool StringHasSuffix(const std::string& s, const std::string& p)
    {
        return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
    }
    bool StringHasSuffix(const std::string& s, const std::string& p, size_t& pos)
    {
        if (!StringHasSuffix(s, p))
            return false;
        pos = s.size() - p.size();
        return true;
    }
    std::string StringFormat(const std::string fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        char b[4096];
        vsnprintf(b, sizeof(b), fmt.c_str(), ap);
        va_end(ap);
        return b;
    }
    std::string HexDump(const uint8_t* p, size_t n)
    {
        return HexDump(std::vector<uint8_t>(p, p + n));
    }
    std::string HexDump(const std::vector<uint8_t>& v)
    {
        std::string r;
        char b[8];
        for (size_t i = 0; i < v.size(); ++i) {
            snprintf(b, sizeof(b), i ? " %02X" : "%02X", v[i]);
            r += b;
        }
        return r;
    }
    void SetThreadName(const std::string&)
    {}
    std::vector<std::string> GetUnitTypes()
    {
        return {"mm/h", "m/s", "W", "kWh", "V", "mV", "A", "mA", "deg C", "%, RH", "lux", "ppm", "ppb", "Pa", "s"};
    }

    // ---------- JSON ----------
    namespace JSON
    {
        Json::Value Parse(std::istream& in)
        {
            Json::Value v;
            std::string errs;
            Json::CharReaderBuilder b;
            if (!Json::parseFromStream(b, in, &v, &errs))
                throw std::runtime_error("Failed to parse JSON: " + errs);
            return v;
        }
        Json::Value Parse(const std::string& fn)
        {
            std::ifstream f(fn);
            if (!f.is_open())
                throw std::runtime_error("Can't open file: " + fn);
            try {
                return Parse(f);
            } catch (const std::exception& e) {
                throw std::runtime_error("Failed to parse JSON " + fn + ": " + e.what());
            }
        }
        Json::Value ParseWithSettings(const std::string& fn, const Json::Value&)
        {
            return Parse(fn);
        }

        // JSON schema draft-04 subset
        namespace
        {
            struct V
            {
                const Json::Value& Root;
                std::string Err;
                const Json::Value* Resolve(const std::string& ref)
                {
                    if (ref.empty() || ref[0] != '#')
                        return nullptr;
                    const Json::Value* c = &Root;
                    if (ref == "#")
                        return c;
                    for (auto& p: StringSplit(ref.substr(2), '/')) {
                        if (!c->isObject() || !c->isMember(p))
                            return nullptr;
                        c = &(*c)[p];
                    }
                    return c;
                }
                bool Fail(const std::string& path, const std::string& m)
                {
                    if (Err.empty())
                        Err = "Validation failed.\nError 1\n  context: " + path + "\n  desc: " + m;
                    return false;
                }
                static bool IsType(const std::string& t, const Json::Value& v)
                {
                    if (t == "object")
                        return v.isObject();
                    if (t == "array")
                        return v.isArray();
                    if (t == "string")
                        return v.isString();
                    if (t == "integer")
                        return v.isNumeric() && v.isIntegral();
                    if (t == "number")
                        return v.isNumeric();
                    if (t == "boolean")
                        return v.isBool();
                    if (t == "null")
                        return v.isNull();
                    return true;
                }
                static bool Eq(const Json::Value& a, const Json::Value& b)
                {
                    if (a.isNumeric() && b.isNumeric())
                        return a.asDouble() == b.asDouble();
                    return a == b;
                }
                bool Quiet(const Json::Value& s, const Json::Value& v, const std::string& path)
                {
                    auto e = Err;
                    bool r = Check(s, v, path);
                    Err = e;
                    return r;
                }
                bool Check(const Json::Value& s, const Json::Value& v, const std::string& path)
                {
                    if (!s.isObject())
                        return true;
                    if (s.isMember("$ref")) {
                        auto t = Resolve(s["$ref"].asString());
                        if (!t)
                            throw std::runtime_error("Failed to resolve JSON reference " + s["$ref"].asString());
                        return Check(*t, v, path);
                    }
                    if (s.isMember("type")) {
                        const auto& t = s["type"];
                        bool ok = false;
                        if (t.isArray()) {
                            for (auto& x: t)
                                ok = ok || IsType(x.asString(), v);
                        } else
                            ok = IsType(t.asString(), v);
                        if (!ok)
                            return Fail(path, "Value type not permitted by 'type' constraint.");
                    }
                    if (s.isMember("enum")) {
                        bool ok = false;
                        for (auto& x: s["enum"])
                            ok = ok || Eq(x, v);
                        if (!ok)
                            return Fail(path, "Failed to match against any enum values.");
                    }
                    if (s.isMember("const") && !Eq(s["const"], v))
                        return Fail(path, "Failed to match const.");
                    if (v.isNumeric()) {
                        double d = v.asDouble();
                        if (s.isMember("minimum") && s["minimum"].isNumeric()) {
                            double m = s["minimum"].asDouble();
                            if (d < m || (d == m && s["exclusiveMinimum"].isBool() && s["exclusiveMinimum"].asBool()))
                                return Fail(path, "Expected number greater than or equal to minimum.");
                        }
                        if (s.isMember("maximum") && s["maximum"].isNumeric()) {
                            double m = s["maximum"].asDouble();
                            if (d > m || (d == m && s["exclusiveMaximum"].isBool() && s["exclusiveMaximum"].asBool()))
                                return Fail(path, "Expected number less than or equal to maximum.");
                        }
                        if (s.isMember("multipleOf") && s["multipleOf"].isNumeric()) {
                            double q = d / s["multipleOf"].asDouble();
                            if (std::fabs(q - std::round(q)) > 1e-9)
                                return Fail(path, "Value should be a multiple of multipleOf.");
                        }
                    }
                    if (v.isString()) {
                        auto str = v.asString();
                        if (s.isMember("minLength") && str.size() < s["minLength"].asUInt())
                            return Fail(path, "String should be no less than minLength characters in length.");
                        if (s.isMember("maxLength") && str.size() > s["maxLength"].asUInt())
                            return Fail(path, "String should be no more than maxLength characters in length.");
                        if (s.isMember("pattern")) {
                            if (!std::regex_search(str, std::regex(s["pattern"].asString())))
                                return Fail(path, "Failed to match regex specified by 'pattern' constraint.");
                        }
                    }
                    if (v.isArray()) {
                        if (s.isMember("minItems") && v.size() < s["minItems"].asUInt())
                            return Fail(path, "Array should contain no fewer than minItems elements.");
                        if (s.isMember("maxItems") && v.size() > s["maxItems"].asUInt())
                            return Fail(path, "Array should contain no more than maxItems elements.");
                        if (s.isMember("items")) {
                            const auto& it = s["items"];
                            for (Json::ArrayIndex i = 0; i < v.size(); ++i) {
                                const auto& sub = it.isArray() ? it.get(i, Json::Value()) : it;
                                if (!Check(sub, v[i], path + "[" + std::to_string(i) + "]"))
                                    return false;
                            }
                        }
                        if (s["uniqueItems"].isBool() && s["uniqueItems"].asBool()) {
                            for (Json::ArrayIndex i = 0; i < v.size(); ++i)
                                for (Json::ArrayIndex j = 0; j < i; ++j)
                                    if (v[i] == v[j])
                                        return Fail(path, "Elements in array should be unique.");
                        }
                    }
                    if (v.isObject()) {
                        if (s["required"].isArray())
                            for (auto& r: s["required"])
                                if (!v.isMember(r.asString()))
                                    return Fail(path, "Missing required property '" + r.asString() + "'.");
                        if (s.isMember("minProperties") && v.size() < s["minProperties"].asUInt())
                            return Fail(path, "Object should have no fewer than minProperties.");
                        const auto& props = s["properties"];
                        for (auto it = v.begin(); it != v.end(); ++it) {
                            bool known = false;
                            if (props.isObject() && props.isMember(it.name())) {
                                known = true;
                                if (!Check(props[it.name()], *it, path + "[" + it.name() + "]"))
                                    return false;
                            }
                            const auto& pp = s["patternProperties"];
                            if (pp.isObject())
                                for (auto p = pp.begin(); p != pp.end(); ++p)
                                    if (std::regex_search(it.name(), std::regex(p.name()))) {
                                        known = true;
                                        if (!Check(*p, *it, path + "[" + it.name() + "]"))
                                            return false;
                                    }
                            if (!known && s.isMember("additionalProperties")) {
                                const auto& ap = s["additionalProperties"];
                                if (ap.isBool() && !ap.asBool())
                                    return Fail(path, "Object contains a property that could not be validated using 'properties' or 'additionalProperties' constraints: '" + it.name() + "'.");
                                if (ap.isObject() && !Check(ap, *it, path + "[" + it.name() + "]"))
                                    return false;
                            }
                        }
                        const auto& deps = s["dependencies"];
                        if (deps.isObject())
                            for (auto p = deps.begin(); p != deps.end(); ++p)
                                if (v.isMember(p.name())) {
                                    if (p->isArray()) {
                                        for (auto& r: *p)
                                            if (!v.isMember(r.asString()))
                                                return Fail(path, "Missing dependency '" + r.asString() + "'.");
                                    } else if (!Check(*p, v, path))
                                        return false;
                                }
                    }
                    if (s["allOf"].isArray())
                        for (auto& x: s["allOf"])
                            if (!Check(x, v, path))
                                return false;
                    if (s["anyOf"].isArray()) {
                        bool ok = false;
                        for (auto& x: s["anyOf"])
                            if (Quiet(x, v, path)) {
                                ok = true;
                                break;
                            }
                        if (!ok)
                            return Fail(path, "Failed to validate against any schemas allowed by anyOf constraint.");
                    }
                    if (s["oneOf"].isArray()) {
                        int n = 0;
                        for (auto& x: s["oneOf"])
                            n += Quiet(x, v, path);
                        if (n != 1)
                            return Fail(path, "Failed to validate against exactly one schema of oneOf constraint.");
                    }
                    if (s.isMember("not") && Quiet(s["not"], v, path))
                        return Fail(path, "Target should not validate against schema specified in 'not' constraint.");
                    return true;
                }
            };
        }
        void Validate(const Json::Value& v, const Json::Value& schema)
        {
            V c{schema, {}};
            if (!c.Check(schema, v, "<root>"))
                throw std::runtime_error(c.Err);
        }
        void TValidator::Validate(const Json::Value& v) const
        {
            JSON::Validate(v, *Schema);
        }
    }

    // ---------- MQTT / RPC ----------
    namespace
    {
        std::mutex& RegMutex()
        {
            static std::mutex m;
            return m;
        }
        std::vector<TMqttRpcServer*> Servers;
        std::vector<std::weak_ptr<TDeviceDriver>> Drivers;
    }
    void TMqttClient::Publish(const TMqttMessage& m)
    {
        if (StubHooks.Publish)
            StubHooks.Publish(m.Topic, m.Payload, m.Retained);
        StubYield();
    }
    PMqttClient NewMosquittoMqttClient(const TMosquittoMqttConfig&)
    {
        return std::make_shared<TMqttClient>();
    }
    TMqttRpcServer::TMqttRpcServer(PMqttClient, const std::string&)
    {
        std::lock_guard<std::mutex> l(RegMutex());
        Servers.push_back(this);
    }
    TMqttRpcServer::~TMqttRpcServer()
    {
        {
            std::lock_guard<std::mutex> l(RegMutex());
            Servers.erase(std::remove(Servers.begin(), Servers.end(), this), Servers.end());
        }
        Stop();
    }
    void TMqttRpcServer::RegisterMethod(const std::string& d, const std::string& m, TMethod f)
    {
        Sync[d + "/" + m] = f;
    }
    void TMqttRpcServer::RegisterAsyncMethod(const std::string& d, const std::string& m, TAsyncMethod f)
    {
        Async[d + "/" + m] = f;
    }
    void TMqttRpcServer::Start()
    {
        std::lock_guard<std::mutex> l(Mutex);
        if (Running)
            return;
        Running = true;
        Started = true;
        Thread = std::thread([this] { Loop(); });
    }
    void TMqttRpcServer::Stop()
    {
        {
            std::lock_guard<std::mutex> l(Mutex);
            Running = false;
            Cv.notify_all();
        }
        if (Thread.joinable())
            Thread.join();
    }
    void TMqttRpcServer::Loop()
    {
        while (true) {
            TReq r;
            {
                std::unique_lock<std::mutex> l(Mutex);
                Cv.wait(l, [this] { return !Running || !Queue.empty(); });
                if (!Running)
                    return;
                r = Queue.front();
                Queue.pop_front();
            }
            auto reply = [id = r.CallId](bool ok, const Json::Value& v, int code, const std::string& m) {
                if (StubHooks.RpcReply)
                    StubHooks.RpcReply(id, ok, v, code, m);
                StubYield();
            };
            try {
                auto s = Sync.find(r.M);
                if (s != Sync.end()) {
                    reply(true, s->second(r.Params), 0, "");
                } else {
                    Async.at(r.M)(
                        r.Params,
                        [reply](const Json::Value& v) { reply(true, v, 0, ""); },
                        [reply](int c, const std::string& m) { reply(false, Json::Value(), c, m); });
                }
            } catch (const std::exception& e) {
                reply(false, Json::Value(), E_RPC_SERVER_ERROR, e.what());
            }
        }
    }
    PMqttRpcServer NewMqttRpcServer(PMqttClient c, const std::string& n)
    {
        return std::make_shared<TMqttRpcServer>(c, n);
    }
    bool TStub::ClientRpc(const std::string& drv, const std::string& method, const Json::Value& params, int callId)
    {
        std::lock_guard<std::mutex> l(RegMutex());
        auto m = drv + "/" + method;
        for (auto s: Servers) {
            if (!s->Sync.count(m) && !s->Async.count(m))
                continue;
            std::lock_guard<std::mutex> l2(s->Mutex);
            if (!s->Started) {
                // Registered but never started explicitly: served by the thread of its client once mqtt runs
                s->Running = true;
                s->Started = true;
                s->Thread = std::thread([s] { s->Loop(); });
            }
            if (!s->Running)
                return false;
            s->Queue.push_back({m, params, callId});
            s->Cv.notify_all();
            return true;
        }
        return false;
    }

    // ---------- driver ----------
    static void Ctl(char w, const std::string& d, const std::string& c, const std::string& v, const std::string& e)
    {
        if (StubHooks.Control)
            StubHooks.Control(w, d, c, v, e);
    }
    static std::string DevId(const TControl* c)
    {
        auto d = c->GetDevice();
        return d ? d->GetId() : std::string("?");
    }
    TFuture<void> TControl::UpdateRawValueAndError(const PDriverTx&, const std::string& value, const std::string& error)
    {
        Value = value;
        Err = error;
        HasValue = true;
        Ctl('v', DevId(this), GetId(), value, error);
        return {};
    }
    TFuture<void> TControl::SetError(const PDriverTx&, const std::string& error)
    {
        Err = error;
        Ctl('e', DevId(this), GetId(), "", error);
        return {};
    }
    TFuture<PControl> TLocalDevice::CreateControl(const PDriverTx& tx, const TControlArgs& a)
    {
        auto c = std::make_shared<TControl>();
        c->Args = a;
        c->Device = shared_from_this();
        {
            std::lock_guard<std::mutex> l(tx->Driver->Mutex);
            Controls[a.Id] = c;
        }
        Ctl('c', Id, a.Id, a.Type, a.Readonly ? "ro" : "rw");
        return TFuture<PControl>(c);
    }
    TFuture<void> TLocalDevice::RemoveUnusedControls(const PDriverTx&)
    {
        return {};
    }
    TFuture<void> TLocalDevice::SetError(const PDriverTx&, const std::string& e)
    {
        Err = e;
        Ctl('d', Id, "", "", e);
        return {};
    }
    PDriverTx TDeviceDriver::BeginTx()
    {
        auto t = std::make_shared<TDriverTx>();
        t->Driver = shared_from_this();
        StubYield();
        return t;
    }
    TFuture<PLocalDevice> TDriverTx::CreateDevice(const TLocalDeviceArgs& a)
    {
        auto d = std::make_shared<TLocalDevice>();
        d->Id = a.Id;
        {
            std::lock_guard<std::mutex> l(Driver->Mutex);
            Driver->Devices[a.Id] = d;
        }
        Ctl('D', a.Id, "", a.Title, "");
        return TFuture<PLocalDevice>(d);
    }
    PDevice TDriverTx::GetDevice(const std::string& id)
    {
        std::lock_guard<std::mutex> l(Driver->Mutex);
        auto it = Driver->Devices.find(id);
        return it == Driver->Devices.end() ? nullptr : it->second;
    }
    TFuture<void> TDriverTx::RemoveDeviceById(const std::string& id)
    {
        {
            std::lock_guard<std::mutex> l(Driver->Mutex);
            if (!Driver->Devices.erase(id))
                throw std::runtime_error("device " + id + " not found");
        }
        Ctl('X', id, "", "", "");
        return {};
    }
    void TDeviceDriver::StartLoop()
    {
        std::lock_guard<std::mutex> l(Mutex);
        Running = true;
        Thread = std::thread([this] { Loop(); });
    }
    void TDeviceDriver::StopLoop()
    {
        {
            std::lock_guard<std::mutex> l(Mutex);
            Running = false;
            Cv.notify_all();
        }
        if (Thread.joinable())
            Thread.join();
    }
    TDeviceDriver::~TDeviceDriver()
    {
        StopLoop();
    }
    void TDeviceDriver::Loop()
    {
        while (true) {
            TControlOnValueEvent ev;
            std::function<void(const TControlOnValueEvent&)> h;
            {
                std::unique_lock<std::mutex> l(Mutex);
                Cv.wait(l, [this] { return !Running || !Queue.empty(); });
                if (!Running)
                    return;
                auto q = Queue.front();
                Queue.pop_front();
                auto d = Devices.find(q.Dev);
                if (d == Devices.end())
                    continue;
                auto c = d->second->Controls.find(q.Ctl);
                if (c == d->second->Controls.end() || c->second->Args.Readonly)
                    continue;
                ev.Control = c->second;
                ev.RawValue = q.Val;
                h = Handler;
            }
            if (h) {
                try {
                    h(ev);
                } catch (const std::exception& e) {
                    if (StubHooks.Log)
                        StubHooks.Log("DRIVER: ", e.what());
                }
            }
        }
    }
    bool TStub::IsReadonly(const std::string& dev, const std::string& ctl)
    {
        std::lock_guard<std::mutex> l(RegMutex());
        for (auto& w: Drivers) {
            auto d = w.lock();
            if (!d)
                continue;
            std::lock_guard<std::mutex> l2(d->Mutex);
            auto i = d->Devices.find(dev);
            if (i != d->Devices.end()) {
                auto c = i->second->Controls.find(ctl);
                if (c != i->second->Controls.end())
                    return c->second->Args.Readonly;
            }
        }
        return true;
    }
    bool TStub::ClientOn(const std::string& dev, const std::string& ctl, const std::string& val)
    {
        std::lock_guard<std::mutex> l(RegMutex());
        for (auto& w: Drivers) {
            auto d = w.lock();
            if (!d)
                continue;
            std::lock_guard<std::mutex> l2(d->Mutex);
            auto i = d->Devices.find(dev);
            if (!d->Running || i == d->Devices.end() || !i->second->Controls.count(ctl))
                continue;
            d->Queue.push_back({dev, ctl, val});
            d->Cv.notify_all();
            return true;
        }
        return false;
    }
    PDriverBackend NewDriverBackend(PMqttClient)
    {
        return std::make_shared<TDriverBackend>();
    }
    PDeviceDriver NewDriver(const TDriverArgs&)
    {
        auto d = std::make_shared<TDeviceDriver>();
        std::lock_guard<std::mutex> l(RegMutex());
        Drivers.push_back(d);
        return d;
    }

    // ---------- signals ----------
    namespace SignalHandling
    {
        namespace
        {
            std::mutex M;
            std::condition_variable Cv;
            bool Signalled = false, Stopped = false, Done = false;
            std::vector<std::function<void()>> Handlers;
            std::function<void()> OnTimeout;
            std::chrono::milliseconds Timeout(0);
            std::thread Thread, WatchDog;
        }
        void Handle(std::initializer_list<int>)
        {}
        void OnSignals(std::initializer_list<int>, std::function<void()> f)
        {
            Handlers.push_back(f);
        }
        void SetOnTimeout(std::chrono::milliseconds t, std::function<void()> f)
        {
            Timeout = t;
            OnTimeout = f;
        }
        void Start()
        {
            Thread = std::thread([] {
                {
                    std::unique_lock<std::mutex> l(M);
                    Cv.wait(l, [] { return Signalled; });
                }
                if (OnTimeout)
                    WatchDog = std::thread([] {
                        std::unique_lock<std::mutex> l(M);
                        if (!Cv.wait_for(l, Timeout, [] { return Done; })) {
                            if (StubHooks.Signal)
                                StubHooks.Signal('T');
                            l.unlock();
                            OnTimeout();
                        }
                    });
                if (StubHooks.Signal)
                    StubHooks.Signal('h');
                // last registered runs first, as in libwbmqtt1
                for (auto it = Handlers.rbegin(); it != Handlers.rend(); ++it)
                    (*it)();
                std::lock_guard<std::mutex> l(M);
                Done = true;
                Cv.notify_all();
            });
        }
        void Wait()
        {
            if (StubHooks.Signal)
                StubHooks.Signal('W');
            Thread.join();
            if (WatchDog.joinable())
                WatchDog.join();
            Handlers.clear();
            OnTimeout = nullptr;
            if (StubHooks.Signal)
                StubHooks.Signal('d');
        }
        void Stop()
        {
            Stopped = true;
        }
    }
    void TStub::Terminate()
    {
        std::lock_guard<std::mutex> l(SignalHandling::M);
        SignalHandling::Signalled = true;
        SignalHandling::Cv.notify_all();
    }
}
