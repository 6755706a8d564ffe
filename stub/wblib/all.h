// Stand-in for libwbmqtt1 (wblib): the part of its API wb-mqtt-serial uses, with no broker behind it.
// Everything that would leave the process goes through StubHooks (see the end of this file).
#pragma once
#include <any>
#include <csignal>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <iomanip>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

#include <wblib/json/json.h>

namespace WBMQTT
{
    // ---------- exceptions ----------
    class TBaseException: public std::exception
    {
        std::string Msg;

    public:
        TBaseException(const char*, int, const std::string& m): Msg(m)
        {}
        const char* what() const noexcept override
        {
            return Msg.c_str();
        }
    };

    // ---------- log ----------
    class TLogger
    {
    public:
        enum EOutput
        {
            StdErr,
            StdOut
        };
        enum EColor
        {
            RED = 31,
            YELLOW = 33,
            GREY = 37,
            WHITE = 38
        };
        enum class EColorUsage
        {
            OFF,
            ON,
            AUTO
        };
        class TStream
        {
            const TLogger* L;
            std::ostringstream S;

        public:
            TStream(const TLogger* l): L(l)
            {}
            TStream(TStream&& o): L(o.L), S(std::move(o.S))
            {
                o.L = nullptr;
            }
            ~TStream();
            template<class T> TStream& operator<<(const T& v)
            {
                if (L)
                    S << v;
                return *this;
            }
        };
        TLogger(const std::string& prefix, EOutput, int, bool enabled = true, EColorUsage = EColorUsage::AUTO)
            : Prefix(prefix),
              Enabled(enabled)
        {}
        TStream Log() const
        {
            return TStream(Enabled ? this : nullptr);
        }
        void SetEnabled(bool e)
        {
            Enabled = e;
        }
        bool IsEnabled() const
        {
            return Enabled;
        }
        std::string Prefix;

    private:
        bool Enabled;
    };
    extern TLogger Error, Warn, Info, Debug;

    // ---------- utils ----------
    std::vector<std::string> StringSplit(const std::string& s, char c);
    std::vector<std::string> StringSplit(const std::string& s, const std::string& d);
    bool StringStartsWith(const std::string& s, const std::string& p);
    bool StringHasSuffix(const std::string& s, const std::string& p);
    bool StringHasSuffix(const std::string& s, const std::string& p, size_t& pos);
    std::string StringFormat(const std::string fmt, ...);
    std::string HexDump(const std::vector<uint8_t>& v);
    std::string HexDump(const uint8_t* p, size_t n);
#define wb_throw(E, msg) throw E(__FILE__, __LINE__, msg)
    void SetThreadName(const std::string& n);
    std::vector<std::string> GetUnitTypes();

    // ---------- JSON ----------
    namespace JSON
    {
        template<class T> bool Is(const Json::Value& v);
        template<class T> T As(const Json::Value& v);
        template<> inline bool Is<int>(const Json::Value& v)
        {
            return v.isInt();
        }
        template<> inline int As<int>(const Json::Value& v)
        {
            return v.asInt();
        }
        template<> inline bool Is<unsigned>(const Json::Value& v)
        {
            return v.isUInt();
        }
        template<> inline unsigned As<unsigned>(const Json::Value& v)
        {
            return v.asUInt();
        }
        template<> inline bool Is<int64_t>(const Json::Value& v)
        {
            return v.isInt64();
        }
        template<> inline int64_t As<int64_t>(const Json::Value& v)
        {
            return v.asInt64();
        }
        template<> inline bool Is<uint64_t>(const Json::Value& v)
        {
            return v.isUInt64();
        }
        template<> inline uint64_t As<uint64_t>(const Json::Value& v)
        {
            return v.asUInt64();
        }
        template<> inline bool Is<bool>(const Json::Value& v)
        {
            return v.isBool();
        }
        template<> inline bool As<bool>(const Json::Value& v)
        {
            return v.asBool();
        }
        template<> inline bool Is<double>(const Json::Value& v)
        {
            return v.isDouble();
        }
        template<> inline double As<double>(const Json::Value& v)
        {
            return v.asDouble();
        }
        template<> inline bool Is<std::string>(const Json::Value& v)
        {
            return v.isString();
        }
        template<> inline std::string As<std::string>(const Json::Value& v)
        {
            return v.asString();
        }
#define WBSTUB_DUR(D)                                                                                                  \
    template<> inline bool Is<D>(const Json::Value& v)                                                                 \
    {                                                                                                                  \
        return v.isInt64();                                                                                            \
    }                                                                                                                  \
    template<> inline D As<D>(const Json::Value& v)                                                                    \
    {                                                                                                                  \
        return D(v.asInt64());                                                                                         \
    }
        WBSTUB_DUR(std::chrono::seconds)
        WBSTUB_DUR(std::chrono::milliseconds)
        WBSTUB_DUR(std::chrono::microseconds)
        template<class T> bool Get(const Json::Value& root, const std::string& key, T& value)
        {
            if (!root.isMember(key))
                return false;
            const auto& v = root[key];
            if (!Is<T>(v))
                throw std::runtime_error("Invalid type of parameter " + key);
            value = As<T>(v);
            return true;
        }
        Json::Value Parse(const std::string& fileName);
        Json::Value Parse(std::istream& s);
        Json::Value ParseWithSettings(const std::string& fileName, const Json::Value& settings);
        class TValidator
        {
            std::shared_ptr<Json::Value> Schema;

        public:
            explicit TValidator(const Json::Value& schema): Schema(std::make_shared<Json::Value>(schema))
            {}
            void Validate(const Json::Value& v) const;
        };
        void Validate(const Json::Value& v, const Json::Value& schema);
    }

    // ---------- MQTT ----------
    struct TMqttMessage
    {
        std::string Topic, Payload;
        int Qos = 1;
        bool Retained = true;
        TMqttMessage(const std::string& t, const std::string& p, int q = 1, bool r = true)
            : Topic(t),
              Payload(p),
              Qos(q),
              Retained(r)
        {}
    };
    class TMqttClient
    {
    public:
        virtual ~TMqttClient() = default;
        virtual void Publish(const TMqttMessage& m);
        virtual void Start()
        {}
        virtual void Stop()
        {}
    };
    using PMqttClient = std::shared_ptr<TMqttClient>;
    struct TMosquittoMqttConfig
    {
        std::string Id, Host = "localhost", User, Password, Prefix;
        int Port = 1883;
    };
    PMqttClient NewMosquittoMqttClient(const TMosquittoMqttConfig&);

    // ---------- RPC ----------
    enum
    {
        E_RPC_PARSE_ERROR = -32700,
        E_RPC_SERVER_ERROR = -32000,
        E_RPC_REQUEST_TIMEOUT = -32600
    };
    class TMqttRpcServer
    {
    public:
        using TResultCallback = std::function<void(const Json::Value&)>;
        using TErrorCallback = std::function<void(int, const std::string&)>;
        using TMethod = std::function<Json::Value(const Json::Value&)>;
        using TAsyncMethod = std::function<void(const Json::Value&, TResultCallback, TErrorCallback)>;
        TMqttRpcServer(PMqttClient, const std::string& name);
        ~TMqttRpcServer();
        void RegisterMethod(const std::string& d, const std::string& m, TMethod f);
        void RegisterAsyncMethod(const std::string& d, const std::string& m, TAsyncMethod f);
        void Start();
        void Stop();

    private:
        friend struct TStub;
        struct TReq
        {
            std::string M;
            Json::Value Params;
            int CallId;
        };
        void Loop();
        std::map<std::string, TMethod> Sync;
        std::map<std::string, TAsyncMethod> Async;
        std::mutex Mutex;
        std::condition_variable Cv;
        std::deque<TReq> Queue;
        bool Running = false, Started = false;
        std::thread Thread;
    };
    using PMqttRpcServer = std::shared_ptr<TMqttRpcServer>;
    PMqttRpcServer NewMqttRpcServer(PMqttClient, const std::string& name);

    // ---------- driver ----------
    struct TPublishParameters
    {
        enum TPolicy
        {
            PublishOnlyOnChange,
            PublishAll,
            PublishSomeUnchanged
        };
        TPolicy Policy = PublishOnlyOnChange;
        std::chrono::milliseconds PublishUnchangedInterval = std::chrono::milliseconds(0);
        void Set(int seconds)
        {
            if (seconds < 0)
                Policy = PublishOnlyOnChange;
            else if (seconds == 0)
                Policy = PublishAll;
            else {
                Policy = PublishSomeUnchanged;
                PublishUnchangedInterval = std::chrono::seconds(seconds);
            }
        }
    };
    using TTitles = std::unordered_map<std::string, std::string>;
    class TAny
    {
        std::any A;

    public:
        TAny() = default;
        template<class T> explicit TAny(const T& v): A(v)
        {}
        template<class T> const T& As() const
        {
            return *std::any_cast<T>(&A);
        }
    };
    template<class T> class TFuture
    {
        T V;

    public:
        explicit TFuture(T v): V(std::move(v))
        {}
        T GetValue();
        void Sync();
    };
    template<> class TFuture<void>
    {
    public:
        void GetValue()
        {
            Sync();
        }
        void Sync();
    };
    void StubYield();
    template<class T> T TFuture<T>::GetValue()
    {
        StubYield();
        return V;
    }
    template<class T> void TFuture<T>::Sync()
    {
        StubYield();
    }
    inline void TFuture<void>::Sync()
    {
        StubYield();
    }

    struct TLocalDeviceArgs
    {
        std::string Id, Title;
        bool IsVirtual = false, DoLoadPrevious = false;
        TLocalDeviceArgs& SetId(const std::string& v)
        {
            Id = v;
            return *this;
        }
        TLocalDeviceArgs& SetTitle(const std::string& v, const std::string& = "en")
        {
            Title = v;
            return *this;
        }
        TLocalDeviceArgs& SetIsVirtual(bool v)
        {
            IsVirtual = v;
            return *this;
        }
        TLocalDeviceArgs& SetDoLoadPrevious(bool v)
        {
            DoLoadPrevious = v;
            return *this;
        }
    };
    struct TControlArgs
    {
        std::string Id, Type, Units;
        int Order = 0;
        bool Readonly = false, Hidden = false, Durable = false;
        TAny UserData;
        double Max = 0, Min = 0, Precision = 0;
        bool HasMax = false, HasMin = false;
        TTitles Titles;
        std::map<std::string, TTitles> EnumTitles;
        TControlArgs& SetId(const std::string& v)
        {
            Id = v;
            return *this;
        }
        TControlArgs& SetOrder(int v)
        {
            Order = v;
            return *this;
        }
        TControlArgs& SetType(const std::string& v)
        {
            Type = v;
            return *this;
        }
        TControlArgs& SetReadonly(bool v)
        {
            Readonly = v;
            return *this;
        }
        template<class T> TControlArgs& SetUserData(const T& v)
        {
            UserData = TAny(v);
            return *this;
        }
        TControlArgs& SetUnits(const std::string& v)
        {
            Units = v;
            return *this;
        }
        TControlArgs& SetHidden(bool v)
        {
            Hidden = v;
            return *this;
        }
        TControlArgs& SetMax(double v)
        {
            Max = v;
            HasMax = true;
            return *this;
        }
        TControlArgs& SetMin(double v)
        {
            Min = v;
            HasMin = true;
            return *this;
        }
        TControlArgs& SetPrecision(double v)
        {
            Precision = v;
            return *this;
        }
        TControlArgs& SetTitle(const std::string& v, const std::string& lang = "en")
        {
            Titles[lang] = v;
            return *this;
        }
        TControlArgs& SetEnumValueTitles(const std::string& v, const TTitles& t)
        {
            EnumTitles[v] = t;
            return *this;
        }
        TControlArgs& SetDurable(bool v = true)
        {
            Durable = v;
            return *this;
        }
    };

    class TDriverTx;
    using PDriverTx = std::shared_ptr<TDriverTx>;
    class TDevice
    {
    public:
        virtual ~TDevice() = default;
        std::string Id;
        const std::string& GetId() const
        {
            return Id;
        }
    };
    using PDevice = std::shared_ptr<TDevice>;
    class TControl;
    using PControl = std::shared_ptr<TControl>;
    class TControl
    {
    public:
        TControlArgs Args;
        std::weak_ptr<TDevice> Device;
        std::string Value, Err;
        bool HasValue = false;
        const std::string& GetId() const
        {
            return Args.Id;
        }
        PDevice GetDevice() const
        {
            return Device.lock();
        }
        const TAny& GetUserData() const
        {
            return Args.UserData;
        }
        TFuture<void> UpdateRawValueAndError(const PDriverTx&, const std::string& value, const std::string& error);
        TFuture<void> SetError(const PDriverTx&, const std::string& error);
    };
    class TLocalDevice: public TDevice, public std::enable_shared_from_this<TLocalDevice>
    {
    public:
        std::string Err;
        std::map<std::string, PControl> Controls;
        TFuture<PControl> CreateControl(const PDriverTx&, const TControlArgs& a);
        TFuture<void> RemoveUnusedControls(const PDriverTx&);
        TFuture<void> SetError(const PDriverTx&, const std::string& error);
    };
    using PLocalDevice = std::shared_ptr<TLocalDevice>;
    struct TControlOnValueEvent
    {
        PControl Control;
        std::string RawValue;
    };
    class TDeviceDriver: public std::enable_shared_from_this<TDeviceDriver>
    {
    public:
        ~TDeviceDriver();
        PDriverTx BeginTx();
        template<class E> void On(std::function<void(const E&)> f)
        {
            std::lock_guard<std::mutex> l(Mutex);
            Handler = f;
        }
        template<class E> void On(void (*f)(const E&))
        {
            On<E>(std::function<void(const E&)>(f));
        }
        void StartLoop();
        void StopLoop();
        void WaitForReady()
        {}
        void Close()
        {}

        std::mutex Mutex;
        std::map<std::string, PLocalDevice> Devices;

    private:
        friend struct TStub;
        void Loop();
        std::function<void(const TControlOnValueEvent&)> Handler;
        std::condition_variable Cv;
        struct TOn
        {
            std::string Dev, Ctl, Val;
        };
        std::deque<TOn> Queue;
        bool Running = false;
        std::thread Thread;
    };
    using PDeviceDriver = std::shared_ptr<TDeviceDriver>;
    class TDriverTx
    {
    public:
        PDeviceDriver Driver;
        TFuture<PLocalDevice> CreateDevice(const TLocalDeviceArgs& a);
        PDevice GetDevice(const std::string& id);
        TFuture<void> RemoveDeviceById(const std::string& id);
    };
    class TDriverBackend
    {};
    using PDriverBackend = std::shared_ptr<TDriverBackend>;
    PDriverBackend NewDriverBackend(PMqttClient);
    struct TDriverArgs
    {
        TDriverArgs& SetId(const std::string&)
        {
            return *this;
        }
        TDriverArgs& SetBackend(PDriverBackend)
        {
            return *this;
        }
        TDriverArgs& SetUseStorage(bool)
        {
            return *this;
        }
        TDriverArgs& SetReownUnknownDevices(bool)
        {
            return *this;
        }
        TDriverArgs& SetStoragePath(const std::string&)
        {
            return *this;
        }
    };
    PDeviceDriver NewDriver(const TDriverArgs&);

    // ---------- signals ----------
    namespace SignalHandling
    {
        void Handle(std::initializer_list<int>);
        void OnSignals(std::initializer_list<int>, std::function<void()>);
        void SetOnTimeout(std::chrono::milliseconds, std::function<void()>);
        void Start();
        void Wait();
        void Stop();
    }

    // ---------- hooks for the harness ----------
    struct TStubHooks
    {
        std::function<void(const std::string& topic, const std::string& payload, bool retained)> Publish;
        // what: 'c' control created, 'v' value+error, 'e' control error, 'd' device error, 'D' device created, 'X' device removed
        std::function<void(char what, const std::string& dev, const std::string& ctl, const std::string& value, const std::string& err)> Control;
        std::function<void(int callId, bool ok, const Json::Value& result, int code, const std::string& msg)> RpcReply;
        std::function<void(const std::string& prefix, const std::string& msg)> Log;
        std::function<void()> Yield;
        std::function<void(char phase)> Signal; // 'W' waiting, 'h' handler start, 'd' done, 'T' stop timeout fired
    };
    extern TStubHooks StubHooks;
    struct TStub
    {
        // Publishes to /devices/<dev>/controls/<ctl>/on; false when nobody is subscribed
        static bool ClientOn(const std::string& dev, const std::string& ctl, const std::string& val);
        // Sends an RPC; false when no running server has the method
        static bool ClientRpc(const std::string& drv, const std::string& method, const Json::Value& params, int callId);
        // SIGTERM
        static void Terminate();
        static bool IsReadonly(const std::string& dev, const std::string& ctl);
    };
}
