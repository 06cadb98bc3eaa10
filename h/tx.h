// Helpers for harnesses that use transports.
#ifndef VP_TX_H
#define VP_TX_H

#include "vp.h"

#include <algorithm>
#include <deque>
#include <dirent.h>
#include <sys/stat.h>
#include <zmq.h>
#include <fairmq/Channel.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/TransportFactory.h>
#include <fairmq/shmem/Common.h>
#include <fairmq/shmem/Monitor.h>
#include <fairmq/shmem/Socket.h>
#include <fairmq/shmem/TransportFactory.h>
#include <fairmq/zeromq/Socket.h>
#include <fairmq/zeromq/TransportFactory.h>
#include <fairlogger/Logger.h>

namespace tx
{
using namespace fair::mq;

inline std::string uniq(const std::string& p)
{
    static std::atomic<uint64_t> n{0};
    return vp::fmt("%s%d_%llu_%llx", p.c_str(), getpid(), static_cast<unsigned long long>(n++), static_cast<unsigned long long>(vp::S().seed));
}
inline std::string newSession()
{
    std::string s = uniq("vps");
    vp::noteShm(shmem::makeShmIdStr(s));
    return s;
}
// ipc endpoints live in the scratch directory of this run
inline std::string scratch()
{
    static std::string d = [] { std::string x = vp::S().out + ".d"; mkdir(x.c_str(), 0755); return x; }();
    return d;
}
inline std::string address(const std::string& kind)
{
    if (kind == "tcp") { return "tcp://127.0.0.1:*"; }
    if (kind == "ipc") { return "ipc://@" + uniq("vp"); }   // abstract socket: short name, nothing left behind
    return "inproc://" + uniq("vp");
}

struct Opt
{
    std::string session = "";
    size_t segSize = 32ull << 20;
    uint16_t segId = 0;
    std::string alloc = "rbtree_best_fit";
    size_t meta = 0;
    int attempts = 1, interval = 2;
    bool noCleanup = false;
};

struct Node
{
    ProgOptions cfg;
    std::shared_ptr<TransportFactory> f;
    std::string type;
    Opt o;
    Node(const std::string& t, Opt opt) : type(t), o(std::move(opt))
    {
        if (o.session.empty()) { o.session = newSession(); }
        cfg.SetProperty<std::string>("session", o.session);
        cfg.SetProperty<size_t>("shm-segment-size", o.segSize);
        cfg.SetProperty<uint16_t>("shm-segment-id", o.segId);
        cfg.SetProperty<std::string>("shm-allocation", o.alloc);
        cfg.SetProperty<size_t>("shm-metadata-msg-size", o.meta);
        cfg.SetProperty<int>("bad-alloc-max-attempts", o.attempts);
        cfg.SetProperty<int>("bad-alloc-attempt-interval", o.interval);
        cfg.SetProperty<bool>("shm-no-cleanup", o.noCleanup);
        f = TransportFactory::CreateTransportFactory(t, uniq("n"), &cfg);
    }
    shmem::ShmId shmId() const { return shmem::ShmId{shmem::makeShmIdStr(o.session)}; }
    unsigned long freeMem() const { return shmem::Monitor::GetFreeMemory(shmId(), o.segId); }
};

inline void* zsock(Socket& s)
{
    if (auto z = dynamic_cast<zmq::Socket*>(&s)) { return z->GetSocket(); }
    if (auto z = dynamic_cast<shmem::Socket*>(&s)) { return z->GetSocket(); }
    return nullptr;
}
inline std::string lastEndpoint(Socket& s)
{
    char b[512];
    size_t n = sizeof b;
    b[0] = 0;
    zmq_getsockopt(zsock(s), ZMQ_LAST_ENDPOINT, b, &n);
    return b;
}

inline std::vector<std::string> shmObjects(const std::string& shmId)
{
    std::vector<std::string> r;
    DIR* d = opendir("/dev/shm");
    if (!d) { return r; }
    std::string p = "fmq_" + shmId;
    while (auto e = readdir(d)) { std::string n = e->d_name; if (n.rfind(p, 0) == 0) { r.push_back(n); } }
    closedir(d);
    std::sort(r.begin(), r.end());
    return r;
}

inline void fill(void* p, size_t n, uint64_t tag)
{
    auto b = static_cast<unsigned char*>(p);
    uint64_t x = tag * 0x9E3779B97F4A7C15ull + 1;
    for (size_t i = 0; i < n; ++i) { if ((i & 7) == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; } b[i] = static_cast<unsigned char>(x >> ((i & 7) * 8)); }
}
inline bool same(const void* p, size_t n, uint64_t tag)
{
    auto b = static_cast<const unsigned char*>(p);
    uint64_t x = tag * 0x9E3779B97F4A7C15ull + 1;
    for (size_t i = 0; i < n; ++i) { if ((i & 7) == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; } if (b[i] != static_cast<unsigned char>(x >> ((i & 7) * 8))) { return false; } }
    return true;
}

}   // namespace tx
#endif
