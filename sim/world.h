// Everything outside the daemon: serial lines, gateways, Modbus slaves, disk and HTTP faults, and the record of what happened.
#pragma once
#include "io.h"
#include <array>
#include <map>
#include <set>
#include <wblib/json/json.h>

namespace world
{
    using sim::ns_t;
    using Bytes = std::vector<uint8_t>;

    struct Line
    {
        int baud = 9600;
        char parity = 'N';
        int data = 8;
        int stop = 2;
        bool operator==(const Line& o) const // what a receiver needs to agree on
        {
            return baud == o.baud && parity == o.parity && data == o.data;
        }
        ns_t Char() const
        {
            return (ns_t)(1 + data + stop + (parity != 'N')) * 1000000000LL / baud;
        }
        std::string Str() const;
    };

    enum Space
    {
        COIL = 0,
        DISCRETE = 1,
        HOLDING = 2,
        INPUT = 3
    };

    // One request the daemon put on a wire.
    struct Frame
    {
        int id = 0, port = 0;
        ns_t t0 = 0, t1 = 0;
        ns_t gap = 0;  // silence before it, on a serial line
        Line line;     // settings it was sent with
        Bytes b;       // RTU form (without CRC for Modbus TCP)
        bool crcOk = false;
        int unit = -1, fn = -1, addr = 0, count = 0; // parsed
        Bytes data;    // written data
        int slave = -1; // index of the slave that took it
        uint32_t sn = 0; // Fast Modbus, addressed by serial number
        std::string fate; // "", or what was done to it (fault name, "collision", "overlap", "offline", "settings", "nobody")
        bool applied = false;  // the device changed its state because of it
        bool replied = false;  // the complete unmodified response went out in time
        int exc = 0;           // exception code of the response
        ns_t rsp0 = 0, rsp1 = 0;
        Bytes rsp;
        bool rawFromOp = false;
    };

    struct MemChange
    {
        ns_t t;
        int port, slave, space, addr;
        int old, val; // -1: register absent
        int frame;    // causing frame, -1 if the device did it by itself
        int group;    // same group = atomic
    };

    struct Pub
    {
        ns_t t;
        char what; // see StubHooks.Control
        std::string dev, ctl, val, err;
    };
    struct Reply
    {
        ns_t t;
        int id;
        bool ok;
        Json::Value res;
        int code;
        std::string msg;
        int disk = -1; // index of a disk snapshot
    };
    struct OpRec
    {
        int idx; // index in the plan
        ns_t t;
        bool accepted;
        int callId;
    };
    struct Topic
    {
        ns_t t;
        std::string topic, payload;
        bool retained;
    };
    struct PortEv
    {
        ns_t t;
        int port;
        char what; // 'o' open, 'c' close, 's' settings, 'E' open refused, 'e' I/O error
        Line line;
    };
    struct SlaveEv
    {
        ns_t t;
        int port, slave;
        char what; // 'u' up, 'd' down, 'b' rebooted
    };
    extern int Phase; // of a plan that restarts the daemon
    struct FsEv
    {
        ns_t t;
        char op;
        std::string path;
        int err;
    };
    struct EvSent // Fast Modbus event put into an answer
    {
        ns_t t;
        int port, slave, type, id;
        uint64_t val;
        int frame;
        bool reboot;
    };

    struct BootEv // of a device's boot loader: "boot", "info", "badinfo", "badblock", "newboot", "done:VERSION"
    {
        ns_t t;
        int port, slave;
        std::string what;
    };
    struct Confirm // an event packet was confirmed by the request `frame`; it had been sent in `sent`
    {
        ns_t t;
        int port, slave, frame;
        std::vector<int> sent;
    };

    struct History
    {
        std::vector<Frame> frames;
        std::vector<MemChange> mem;
        std::vector<Pub> pubs;
        std::vector<Reply> replies;
        std::vector<OpRec> ops;
        std::vector<Topic> topics;
        std::vector<PortEv> ports;
        std::vector<SlaveEv> slaves;
        std::vector<FsEv> fs;
        std::vector<EvSent> events;
        std::vector<Confirm> confirms;
        std::vector<BootEv> boots;
        std::map<std::string, uint64_t> faults; // fired, by kind
        std::map<std::string, uint64_t> probes;
        std::vector<std::string> log;
        std::vector<std::string> alarms; // "key|message": seen by the world itself
        ns_t tActiveEnd = 0, tQuiesced = 0, tTerm = 0, tEnd = 0;
    };
    extern History H;
    void Alarm(const std::string& key, const std::string& msg);
    void Probe(const std::string& name);

    struct FwImage;
    struct Slave
    {
        int port = 0, idx = 0;
        int id = 1;
        Line line;
        std::array<std::map<int, uint16_t>, 4> mem;
        std::array<std::map<int, uint16_t>, 4> powerOn; // values restored by a reboot
        std::set<std::pair<int, int>> ro;               // (space, addr) not writable: exception 2
        std::map<std::pair<int, int>, int> excRead;     // forced exception codes
        std::map<std::pair<int, int>, int> excWrite;
        int maxRead = 125, maxWrite = 123;
        bool up = true;
        bool mute = false;
        ns_t bootUntil = 0;
        ns_t delayMin = 1 * sim::MS, delayMax = 4 * sim::MS;
        uint64_t nReq = 0;
        // Wiren Board features
        bool wb = false, contRead = false, fast = false, oldFw = false;
        uint32_t sn = 0;
        bool scanned = false;
        bool keepSettingsInBoot = false;
        // Fast Modbus events
        struct Enabled
        {
            int prio;
        };
        std::map<std::pair<int, int>, Enabled> evEnabled; // (type, addr)
        bool rebootEventOn = true, rebootPending = false;
        std::set<std::pair<int, int>> evSupported; // (space, addr)
        std::vector<std::pair<int, int>> evQueue;  // (type, addr), in order
        int evFlag = 0;
        Bytes evUnconfirmed; // records waiting for a confirmation
        bool evWaiting = false;
        std::vector<std::pair<int, int>> evInFlight;
        std::set<std::pair<int, int>> evWide; // (space, addr) of 32 bit values
        std::vector<int> evFrames;            // answers that carried the packet waiting for a confirmation
        // bootloader
        bool inBoot = false;
        Json::Value boot; // description from the plan
        bool blErased = false;
        int blNext = 0;
        int blInfoAt = 0;
        Bytes blInfo, blData;
        int blTarget = -1; // image being flashed
        bool blDone = false;
        Bytes blLast; // the last block of a complete image
        bool settingsDefaultInBoot = false;
        int blSteps = 0; // entries of the log of this boot loader
        int Get(int space, int addr) const
        {
            auto i = mem[space].find(addr);
            return i == mem[space].end() ? -1 : i->second;
        }
    };

    struct Port
    {
        int idx = 0;
        std::string kind; // "serial", "tcp" (RTU over TCP), "mtcp"
        std::string path; // device file, or ip:port
        Line line;        // serial side of a gateway
        ns_t latency = 0;
        std::vector<std::unique_ptr<Slave>> slaves;
    };
    extern std::vector<std::unique_ptr<Port>> Ports;

    void Load(const Json::Value& plan);            // build the world
    Json::Value SaveState();                       // slaves' state, for a restarted daemon
    void LoadState(const Json::Value& state);
    void SetMem(Slave& s, int space, int addr, const std::vector<int>& vals, int frame);
    void PowerOff(Slave& s);
    void PowerOn(Slave& s);
    void Reboot(Slave& s, ns_t bootTime);
    void FaultsOff();  // no fault starts after this
    bool FaultsAreOff();
    bool HadFault(const std::string& kind);
    uint16_t Crc(const uint8_t* p, size_t n);
    std::string Hex(const Bytes& b);
    uint64_t Hash(uint64_t a, uint64_t b, uint64_t c = 0);
    const Json::Value& Plan();
}
