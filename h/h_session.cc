// C07: shared memory objects of a session exist exactly as long as the session has users.
#include "tx.h"

#include <boost/interprocess/sync/named_mutex.hpp>
#include <fairmq/shmem/Segment.h>
#include <fairmq/shmem/UnmanagedRegion.h>
#include <sys/mman.h>
#include <sys/wait.h>

using namespace fair::mq;
using namespace tx;
using Strs = std::set<std::string>;

// ================================================================ crash points
namespace
{
std::atomic<long> gCrashAt{-1};
std::atomic<long> gPoints{0};
std::atomic<bool> gArmed{false};
std::mutex gLogMtx;
std::vector<std::string> gPointNames;
bool gNames = false;

inline void crashPoint(const char* what, const char* arg = "")
{
    if (!gArmed.load(std::memory_order_relaxed)) { return; }
    long n = gPoints.fetch_add(1);
    if (gNames) { gArmed = false; { std::lock_guard<std::mutex> l(gLogMtx); gPointNames.push_back(std::string(what) + " " + (arg ? arg : "")); } gArmed = true; }
    if (n == gCrashAt.load(std::memory_order_relaxed)) { kill(getpid(), SIGKILL); for (;;) { pause(); } }
}
}

namespace vp { extern void (*lockHook)(bool, bool); }

extern "C" {
int __real_shm_open(const char*, int, mode_t);
int __wrap_shm_open(const char* n, int f, mode_t m) { crashPoint("before shm_open", n); vp::perturbPoint(); int r = __real_shm_open(n, f, m); int e = errno; crashPoint("after shm_open", n); vp::perturbPoint(); errno = e; return r; }
int __real_shm_unlink(const char*);
int __wrap_shm_unlink(const char* n) { crashPoint("before shm_unlink", n); vp::perturbPoint(); int r = __real_shm_unlink(n); int e = errno; crashPoint("after shm_unlink", n); vp::perturbPoint(); errno = e; return r; }
int __real_unlink(const char*);
int __wrap_unlink(const char* n) { crashPoint("before unlink", n); int r = __real_unlink(n); int e = errno; crashPoint("after unlink", n); errno = e; return r; }
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int f, off_t s) { int r = __real_ftruncate(f, s); int e = errno; crashPoint("after ftruncate"); vp::perturbPoint(); errno = e; return r; }
int __real_ftruncate64(int, off_t);
int __wrap_ftruncate64(int f, off_t s) { int r = __real_ftruncate64(f, s); int e = errno; crashPoint("after ftruncate"); vp::perturbPoint(); errno = e; return r; }
int __real_posix_fallocate(int, off_t, off_t);
int __wrap_posix_fallocate(int f, off_t o, off_t s) { int r = __real_posix_fallocate(f, o, s); crashPoint("after posix_fallocate"); vp::perturbPoint(); return r; }
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __wrap_mmap(void* a, size_t l, int p, int fl, int fd, off_t o) { void* r = __real_mmap(a, l, p, fl, fd, o); int e = errno; if (fd >= 0) { crashPoint("after mmap"); vp::perturbPoint(); } errno = e; return r; }
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* n, const char* m) { FILE* r = __real_fopen(n, m); int e = errno; crashPoint("after fopen", n); errno = e; return r; }
}

namespace
{
std::string filesDir(const std::string& sub = "f")
{
    std::string d = scratch() + "/" + sub;
    mkdir(d.c_str(), 0755);
    return d + "/";
}
Strs listDir(const std::string& d)
{
    Strs r;
    DIR* x = opendir(d.c_str());
    if (!x) { return r; }
    while (auto e = readdir(x)) { std::string n = e->d_name; if (n.rfind("fmq_", 0) == 0) { r.insert(d + n); } }
    closedir(x);
    return r;
}
// everything of one session: names under /dev/shm and region files
Strs objects(const std::string& shmId, const std::string& dir)
{
    Strs r;
    for (auto& o : shmObjects(shmId)) { r.insert(o); }
    for (auto& f : listDir(dir)) { if (f.find("fmq_" + shmId + "_") != std::string::npos) { r.insert(f); } }
    return r;
}
std::string str(const Strs& s)
{
    std::string o;
    for (auto& x : s) { o += (o.empty() ? "" : ", ") + x.substr(x.rfind('/') == std::string::npos ? 0 : x.rfind('/') + 1); }
    return "{" + o + "}";
}
Strs reported(const std::vector<std::pair<std::string, bool>>& v, bool ok)
{
    Strs r;
    for (auto& p : v) { if (p.second == ok) { r.insert(p.first); } }
    return r;
}

// ================================================================ life: histories against a model
struct MRegion { uint16_t id; std::string path; bool rc, keep, queue; int owner; size_t size; bool exists = true; UnmanagedRegionPtr ptr; };
struct MDevice
{
    std::unique_ptr<ProgOptions> cfg;
    std::shared_ptr<TransportFactory> f;
    uint16_t seg;
    bool noCleanup;
    MessagePtr canary;
    uint64_t tag;
    int id;
};
struct MSession
{
    std::string name, shmId;
    uint64_t num = 0;                       // explicit id, if not 0
    std::vector<MDevice> live;
    bool present = false;                   // management segment
    std::set<uint16_t> segs;
    std::map<uint16_t, MRegion> regions;
    std::string dir;
    std::map<uint16_t, unsigned long> fresh;   // free memory of a segment right after its creation
    std::map<uint16_t, size_t> segSize;
};

struct Life
{
    vp::Rng& r;
    std::vector<MSession> ss;
    std::string hist;
    int nextDev = 0;
    uint64_t ops = 0;
    explicit Life(vp::Rng& rr) : r(rr) {}

    void log(const std::string& s) { hist += s + "; "; if (hist.size() > 1500) { hist = "..." + hist.substr(hist.size() - 1200); } }

    ~Life() { for (auto& s : ss) { for (auto& d : s.live) { d.canary.reset(); } for (auto& x : s.regions) { x.second.ptr.reset(); } s.live.clear(); for (auto& o : objects(s.shmId, s.dir)) { unlink((o[0] == '/' ? o : "/dev/shm/" + o).c_str()); } } }

    std::unique_ptr<ProgOptions> config(MSession& s, uint16_t seg, size_t size, const std::string& alloc, bool noCleanup)
    {
        auto c = std::make_unique<ProgOptions>();
        if (s.num) { c->SetProperty<uint64_t>("shmid", s.num); c->SetProperty<std::string>("session", r.chance(1, 2) ? s.name : uniq("any")); }
        else { c->SetProperty<std::string>("session", s.name); }
        c->SetProperty<uint16_t>("shm-segment-id", seg);
        c->SetProperty<size_t>("shm-segment-size", size);
        c->SetProperty<std::string>("shm-allocation", alloc);
        c->SetProperty<bool>("shm-no-cleanup", noCleanup);
        if (r.chance(1, 6)) { c->SetProperty<bool>("shm-zero-segment", true); }
        if (r.chance(1, 6)) { c->SetProperty<bool>("shm-zero-segment-on-creation", true); }
        if (r.chance(1, 8)) { c->SetProperty<bool>("shm-mlock-segment-on-creation", true); }
        return c;
    }

    void verify(const std::string& op)
    {
        for (auto& s : ss) {
            Strs need, may;
            if (s.present) { need.insert("fmq_" + s.shmId + "_mng"); }
            for (auto x : s.segs) { need.insert("fmq_" + s.shmId + "_m_" + std::to_string(x)); }
            for (auto& [id, g] : s.regions) {
                std::string n = "fmq_" + s.shmId + "_rg";
                std::string i = "_" + std::to_string(id);
                if (g.exists) {
                    need.insert(g.path + n + i);
                    if (g.rc) { need.insert("fmq_" + s.shmId + "_rrc" + i); }
                }
                if (g.queue && g.ptr) { need.insert("fmq_" + s.shmId + "_rgq" + i); }
            }
            Strs have = objects(s.shmId, s.dir);
            Strs missing, extra;
            std::set_difference(need.begin(), need.end(), have.begin(), have.end(), std::inserter(missing, missing.end()));
            std::set_difference(have.begin(), have.end(), need.begin(), need.end(), std::inserter(extra, extra.end()));
            VP_CHECK(missing.empty(), s.live.empty() ? "session:object-gone" : "session:object-gone-while-used", "%s missing after %s, %zu user(s). History: %s", str(missing).c_str(), op.c_str(), s.live.size(), hist.c_str());
            VP_CHECK(extra.empty(), s.live.empty() && !s.present ? "session:left-behind" : "session:unexpected-object", "%s exist after %s, %zu user(s), session %s. History: %s", str(extra).c_str(), op.c_str(), s.live.size(), s.present ? "present" : "gone", hist.c_str());
            // presence queries
            for (uint16_t seg = 0; seg < 3; ++seg) {
                bool q = s.num || r.chance(1, 2) ? shmem::Monitor::SegmentIsPresent(shmem::ShmId{s.shmId}, seg) : shmem::Monitor::SegmentIsPresent(shmem::SessionId{s.name}, seg);
                VP_CHECK(q == (s.segs.count(seg) > 0), "session:segment-query", "SegmentIsPresent(%u) says %d after %s. History: %s", seg, q, op.c_str(), hist.c_str());
            }
            std::set<uint16_t> ids{7, 1025};
            for (auto& x : s.regions) { ids.insert(x.first); }
            for (auto id : ids) {
                auto it = s.regions.find(id);
                bool want = it != s.regions.end() && it->second.exists;
                bool q = s.num || r.chance(1, 2) ? shmem::Monitor::RegionIsPresent(shmem::ShmId{s.shmId}, id) : shmem::Monitor::RegionIsPresent(shmem::SessionId{s.name}, id);
                VP_CHECK(q == want, it != s.regions.end() && !it->second.path.empty() ? "session:region-query-file" : "session:region-query", "RegionIsPresent(%u) says %d, should be %d after %s. History: %s", id, q, want, op.c_str(), hist.c_str());
            }
            if (r.chance(1, 4)) { bool p = shmem::Monitor::PrintShm(shmem::ShmId{s.shmId}); VP_CHECK(p == s.present || (s.present && s.segs.empty()), "session:print", "PrintShm says %d, session present: %d after %s. History: %s", p, s.present, op.c_str(), hist.c_str()); }
            for (auto& d : s.live) { VP_CHECK(same(d.canary->GetData(), d.canary->GetSize(), d.tag), "session:content", "message of a live device changed after %s. History: %s", op.c_str(), hist.c_str()); }
        }
        ++ops;
        vp::tick();
    }

    void join(MSession& s)
    {
        uint16_t seg = r.below(3);
        size_t size = (2u + r.below(3)) << 20;
        std::string alloc = r.chance(2, 3) ? "rbtree_best_fit" : "simple_seq_fit";
        bool nc = r.chance(1, 4);
        log(vp::fmt("%s join d%d seg %u%s", s.name.c_str() + s.name.size() - 4, nextDev, seg, nc ? " no-cleanup" : ""));
        MDevice d{config(s, seg, size, alloc, nc), nullptr, seg, nc, nullptr, r.next(), nextDev++};
        bool created = s.segs.count(seg) == 0;
        try {
            d.f = TransportFactory::CreateTransportFactory("shmem", uniq("d"), d.cfg.get());
            if (created) { s.fresh[seg] = shmem::Monitor::GetFreeMemory(shmem::ShmId{s.shmId}, seg); s.segSize[seg] = size; }
            d.canary = d.f->CreateMessage(100 + r.below(5000));
            fill(d.canary->GetData(), d.canary->GetSize(), d.tag);
        } catch (std::exception& e) {
            vp::violation("session:join-failed", vp::fmt("%s. History: %s", e.what(), hist.c_str()));
            return;
        }
        s.present = true;
        s.segs.insert(seg);
        s.live.push_back(std::move(d));
    }
    void failJoin(MSession& s)
    {
        std::string kind;
        uint16_t seg = 5;
        std::unique_ptr<ProgOptions> c;
        switch (r.below(3)) {
            case 0: kind = "segment too large"; c = config(s, seg, 1ull << 46, r.chance(1, 2) ? "rbtree_best_fit" : "simple_seq_fit", false); break;
            case 1: kind = "segment too small"; c = config(s, seg, 16, r.chance(1, 2) ? "rbtree_best_fit" : "simple_seq_fit", false); break;
            default: kind = "unknown allocation algorithm"; c = config(s, seg, 1 << 20, "best", false);
        }
        log(s.name.substr(s.name.size() - 4) + " join fails: " + kind);
        try {
            auto f = TransportFactory::CreateTransportFactory("shmem", uniq("d"), c.get());
            vp::violation("session:join-succeeded", kind + " was accepted. History: " + hist);
        } catch (std::exception&) { vp::count("failed_joins"); }
        if (s.live.empty()) { gone(s); }   // it was the last (only) user
    }
    void gone(MSession& s) { s.present = false; s.segs.clear(); s.regions.clear(); }

    void leave(MSession& s)
    {
        size_t i = r.below(s.live.size());
        MDevice d = std::move(s.live[i]);
        s.live.erase(s.live.begin() + i);
        log(vp::fmt("d%d leaves", d.id));
        for (auto& [id, g] : s.regions) { if (g.owner == d.id && g.ptr) { dropRegion(g); } }
        d.canary.reset();
        d.f.reset();
        if (s.live.empty() && !d.noCleanup) { gone(s); }
        vp::count("leaves");
    }
    void dropRegion(MRegion& g)
    {
        g.ptr.reset();
        g.owner = -1;
        if (!g.keep) { g.exists = false; }
    }
    void makeRegion(MSession& s)
    {
        MDevice& d = s.live[r.below(s.live.size())];
        RegionConfig cfg;
        cfg.linger = 10;
        MRegion g;
        g.owner = d.id;
        g.size = 4096 * (1 + r.below(4));
        g.keep = r.chance(1, 3);
        g.rc = true;
        cfg.rcSegmentSize = r.pick(std::vector<uint64_t>{0, 20000, 100000});
        bool reopen = false;
        std::vector<uint16_t> closed;
        for (auto& x : s.regions) { if (x.second.exists && !x.second.ptr) { closed.push_back(x.first); } }
        if (!closed.empty() && r.chance(1, 2)) {
            auto& o = s.regions[r.pick(closed)];
            reopen = true;
            cfg.id = o.id;
            g.size = o.size;
            cfg.path = o.path;
            g.rc = o.rc;
        } else {
            g.rc = cfg.rcSegmentSize > 0;
            if (r.chance(1, 3)) { cfg.path = s.dir; }
            if (r.chance(1, 2)) {
                uint16_t id;
                do { id = 10 + r.below(900); } while (s.regions.count(id));
                cfg.id = id;
            }
        }
        cfg.removeOnDestruction = !g.keep;
        cfg.lock = r.chance(1, 4);
        cfg.zero = r.chance(1, 4);
        g.path = cfg.path;
        g.queue = r.chance(1, 2);
        log(vp::fmt("d%d region %s%s%s%s%s", d.id, cfg.id ? std::to_string(*cfg.id).c_str() : "auto", reopen ? " reopen" : "", g.path.empty() ? "" : " file", g.keep ? " keep" : "", g.queue ? " callback" : ""));
        try {
            RegionCallback cb = [](void*, size_t, void*) {};
            RegionBulkCallback bcb = [](const std::vector<RegionBlock>&) {};
            if (!g.queue) { g.ptr = d.f->CreateUnmanagedRegion(g.size, RegionCallback(nullptr), cfg); }
            else if (r.chance(1, 2)) { g.ptr = d.f->CreateUnmanagedRegion(g.size, cb, cfg); }
            else { g.ptr = d.f->CreateUnmanagedRegion(g.size, bcb, cfg); }
        } catch (std::exception& e) {
            vp::violation("session:region-failed", vp::fmt("%s. History: %s", e.what(), hist.c_str()));
            return;
        }
        g.id = g.ptr->GetId();
        if (cfg.id) { VP_CHECK(g.id == *cfg.id, "session:region-id", "asked for %u, got %u", *cfg.id, g.id); }
        else { VP_CHECK(s.regions.count(g.id) == 0, "session:region-id", "automatic id %u was used before. History: %s", g.id, hist.c_str()); }
        memset(g.ptr->GetData(), 0x5a, g.ptr->GetSize());
        s.regions[g.id] = std::move(g);
        vp::count("regions");
    }
    void failRegion(MSession& s)
    {
        MDevice& d = s.live[r.below(s.live.size())];
        RegionConfig cfg;
        cfg.linger = 10;
        size_t size = 8192;
        std::string kind;
        std::vector<uint16_t> mine, closed;
        for (auto& x : s.regions) {
            if (x.second.owner == d.id && x.second.ptr) { mine.push_back(x.first); }
            if (x.second.exists && !x.second.ptr && x.second.path.empty()) { closed.push_back(x.first); }
        }
        switch (r.below(5)) {
            case 0: if (mine.empty()) { return; } kind = "duplicate id"; cfg.id = r.pick(mine); size = s.regions[*cfg.id].size; break;
            case 1: if (closed.empty()) { return; } kind = "size mismatch"; cfg.id = r.pick(closed); size = s.regions[*cfg.id].size + 4096; cfg.removeOnDestruction = r.chance(1, 2); break;
            case 2: kind = "too large"; size = 1ull << 46; break;
            case 3: kind = "reference count segment too small"; cfg.rcSegmentSize = 1; if (r.chance(1, 3)) { cfg.path = s.dir; } break;
            default: kind = "bad path"; cfg.path = s.dir + "nowhere/"; break;
        }
        log(vp::fmt("d%d region fails: %s", d.id, kind.c_str()));
        try {
            auto g = d.f->CreateUnmanagedRegion(size, RegionCallback([](void*, size_t, void*) {}), cfg);
            vp::violation("session:region-succeeded", kind + " was accepted. History: " + hist);
        } catch (std::exception&) { vp::count("failed_regions"); }
    }
    void destroyRegion(MSession& s)
    {
        std::vector<uint16_t> open;
        for (auto& x : s.regions) { if (x.second.ptr) { open.push_back(x.first); } }
        if (open.empty()) { return; }
        auto& g = s.regions[r.pick(open)];
        log(vp::fmt("region %u destroyed", g.id));
        dropRegion(g);
    }
    void cleanup(MSession& s)
    {
        Strs before = objects(s.shmId, s.dir);
        unsigned how = r.below(3);
        bool full = r.chance(1, 3);
        log(s.name.substr(s.name.size() - 4) + " cleanup");
        std::vector<std::pair<std::string, bool>> res;
        bool verbose = r.chance(1, 2);
        if (s.num || how == 0) { res = full ? shmem::Monitor::CleanupFull(shmem::ShmId{s.shmId}, verbose) : shmem::Monitor::Cleanup(shmem::ShmId{s.shmId}, verbose); }
        else { res = full ? shmem::Monitor::CleanupFull(shmem::SessionId{s.name}, verbose) : shmem::Monitor::Cleanup(shmem::SessionId{s.name}, verbose); }
        Strs rep = reported(res, true);
        VP_CHECK(rep == before, "session:cleanup-report", "removed %s but reported %s. History: %s", str(before).c_str(), str(rep).c_str(), hist.c_str());
        for (auto& n : reported(res, false)) { VP_CHECK(before.count(n) == 0, "session:cleanup-report", "%s reported as not removed. History: %s", n.c_str(), hist.c_str()); }
        gone(s);
        vp::count("cleanups");
    }
    void reset(MSession& s)
    {
        log(s.name.substr(s.name.size() - 4) + " content reset");
        if (s.num || r.chance(1, 2)) { shmem::Monitor::ResetContent(shmem::ShmId{s.shmId}, false); } else { shmem::Monitor::ResetContent(shmem::SessionId{s.name}, false); }
        for (auto& x : s.regions) { x.second.rc = false; }
        for (auto g : s.segs) {
            auto fm = shmem::Monitor::GetFreeMemory(shmem::ShmId{s.shmId}, g);
            VP_CHECK(fm == s.fresh[g], "session:reset", "segment %u has %lu bytes free after a reset, had %lu when created. History: %s", g, fm, s.fresh[g], hist.c_str());
        }
        // a region whose reference counts were reset gets them again when it is reopened
        for (auto& x : s.regions) { x.second.rc = false; }
        resetDone = true;
        vp::count("resets");
    }
    bool resetDone = false;
};

void lifeCase(uint64_t, vp::Rng& r)
{
    vp::phase("session life");
    Life l(r);
    unsigned n = 1 + r.below(3);
    for (unsigned i = 0; i < n; ++i) {
        MSession s;
        s.name = newSession() + vp::fmt("S%u", i);
        if (r.chance(1, 3)) {
            s.num = r.chance(1, 4) ? 0x100000000ull + (r.next() >> 33) : (r.next() & 0xffffff) + (r.chance(1, 2) ? 1 : 0x10000000);
            s.shmId = shmem::makeShmIdStr(s.num);
        } else { s.shmId = shmem::makeShmIdStr(s.name); }
        VP_CHECK(s.num || shmem::makeShmIdUint64(s.name) == strtoull(s.shmId.c_str(), nullptr, 16), "session:id", "ids of session %s differ", s.name.c_str());
        vp::noteShm(s.shmId);
        s.dir = filesDir(vp::fmt("s%u", i));
        l.ss.push_back(std::move(s));
    }
    l.verify("start");
    unsigned ops = 12 + r.below(40);
    for (unsigned i = 0; i < ops; ++i) {
        auto& s = l.ss[r.below(l.ss.size())];
        unsigned k = r.below(20);
        std::string op = "?";
        if (s.live.empty()) {
            if (k < 11) { op = "join"; l.join(s); }
            else if (k < 14) { if (s.present && s.segs.empty()) { continue; } op = "failing join"; if (s.present) { l.join(s); op = "join"; } else { l.failJoin(s); } }
            else if (k < 17 || !s.present) { op = "cleanup"; l.cleanup(s); }
            else { op = "reset"; bool rc = false; for (auto& x : s.regions) { rc = rc || (x.second.exists && x.second.rc); } if (rc) { continue; } l.reset(s); }
        } else {
            if (k < 4 && s.live.size() < 4) { op = "join"; l.join(s); }
            else if (k < 5) { op = "failing join"; l.failJoin(s); }
            else if (k < 9) { op = "leave"; l.leave(s); }
            else if (k < 14) { op = "region"; l.makeRegion(s); }
            else if (k < 16) { op = "failing region"; l.failRegion(s); }
            else { op = "region destruction"; l.destroyRegion(s); }
        }
        l.verify(op);
    }
    for (auto& s : l.ss) {
        while (!s.live.empty()) { l.leave(s); l.verify("leave"); }
        if (s.present) { l.cleanup(s); l.verify("cleanup"); }
        l.cleanup(s);   // of an absent session
        l.verify("cleanup of an absent session");
    }
    vp::count("operations", l.ops);
    vp::evaluated(vp::hash(l.hist));
    vp::sample(l.hist, 2);
}

// ================================================================ crash: processes killed at every point
// what the victim does; the same script for the same seed
int script(uint64_t seed, const std::string& session, const std::string& dir, bool hold, const std::string& readyFile)
{
    vp::Rng r(seed, 77);
    gArmed = true;
    {
        Opt o;
        o.session = session;
        o.segId = r.below(2);
        o.segSize = 2u << 20;
        o.alloc = r.chance(1, 2) ? "rbtree_best_fit" : "simple_seq_fit";
        Node n("shmem", o);
        std::vector<UnmanagedRegionPtr> regs;
        std::vector<MessagePtr> msgs;
        unsigned steps = 3 + r.below(5);
        for (unsigned i = 0; i < steps; ++i) {
            switch (r.below(6)) {
                case 0: case 1: case 2: {
                    RegionConfig cfg;
                    cfg.linger = 10;
                    cfg.rcSegmentSize = r.pick(std::vector<uint64_t>{0, 100000});
                    if (r.chance(1, 3)) { cfg.path = dir; }
                    cfg.removeOnDestruction = r.chance(2, 3);
                    if (r.chance(1, 2)) { regs.push_back(n.f->CreateUnmanagedRegion(8192, RegionCallback([](void*, size_t, void*) {}), cfg)); }
                    else { regs.push_back(n.f->CreateUnmanagedRegion(8192, RegionCallback(nullptr), cfg)); }
                    break;
                }
                case 3: if (!regs.empty()) { regs.erase(regs.begin() + r.below(regs.size())); } break;
                case 4: msgs.push_back(n.f->CreateMessage(1000 + r.below(100000))); break;
                default: if (!regs.empty()) { auto& g = regs[r.below(regs.size())]; msgs.push_back(n.f->CreateMessage(g, g->GetData(), 100)); auto c = n.f->CreateMessage(); c->Copy(*msgs.back()); msgs.push_back(std::move(c)); } break;
            }
        }
        if (hold) {
            gArmed = false;
            close(open(readyFile.c_str(), O_CREAT | O_WRONLY, 0644));
            for (;;) { pause(); }
        }
        msgs.clear();
        regs.clear();
    }
    gArmed = false;
    return 0;
}

pid_t spawn(const char* self, std::vector<std::string> a)
{
    a.insert(a.begin(), self);
    a.push_back("--out=" + vp::S().out + ".child");
    pid_t pid = fork();
    if (pid == 0) {
        std::vector<char*> v;
        for (auto& x : a) { v.push_back(const_cast<char*>(x.c_str())); }
        v.push_back(nullptr);
        int fd = open("/dev/null", O_WRONLY);
        if (!getenv("VP_LOG")) { dup2(fd, 1); }
        execv(self, v.data());
        _exit(99);
    }
    return pid;
}
// true when it ended in time; st: status
bool reap(pid_t p, int& st, double limit)
{
    double t = vp::now();
    while (waitpid(p, &st, WNOHANG) == 0) {
        if (vp::now() - t > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return false; }
        vp::sleepMs(2);
        vp::tick();
    }
    return true;
}

void crashCase(uint64_t c, vp::Rng& r, const char* self)
{
    vp::phase("session crash");
    uint64_t seed = r.next() >> 1;
    std::string dir = filesDir(vp::fmt("c%llu", (unsigned long long)c));
    // how many points does this script pass?
    std::string names = vp::S().out + vp::fmt(".points.%llu", (unsigned long long)c);
    unsigned others = r.below(3);   // 0: alone, 1: another process holds the session, 2: and it is killed first
    int st = 0;
    {
        std::string session = newSession();
        pid_t p = spawn(self, {"--mode=child", "--session=" + session, "--script=" + std::to_string(seed), "--names=" + names, "--dir=" + dir});
        if (!reap(p, st, 40)) { vp::violation("session:script-hang", "the script does not end"); return; }
        VP_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "session:script", "script ended with %x", st);
        Strs left = objects(shmem::makeShmIdStr(session), dir);
        VP_CHECK(left.empty(), "session:left-behind", "%s exist after a process ended in an orderly way", str(left).c_str());
    }
    std::vector<std::string> pts;
    { FILE* f = fopen(names.c_str(), "r"); char b[600]; while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; pts.push_back(b); } if (f) { fclose(f); } }
    if (pts.empty()) { vp::violation("session:script", "no crash points"); return; }
    std::vector<size_t> sel;
    size_t per = vp::optU("points", 6);
    if (vp::S().thorough) { for (size_t i = 0; i < pts.size(); ++i) { sel.push_back(i); } }
    else {
        // every kind of object, not only the frequent points
        for (size_t i = 0; i < per; ++i) {
            size_t x = r.below(pts.size());
            if (i % 3 != 0) { for (int k = 0; k < 60 && pts[x].find("lock") != std::string::npos; ++k) { x = r.below(pts.size()); } }
            if (i % 3 == 2) { for (int k = 0; k < 60 && (pts[x].find("_rg") == std::string::npos && pts[x].find("_rrc") == std::string::npos && pts[x].find("_m_") == std::string::npos); ++k) { x = r.below(pts.size()); } }
            sel.push_back(x);
        }
    }
    for (size_t at : sel) {
        std::string session = newSession(), shmId = shmem::makeShmIdStr(session);
        pid_t other = 0;
        std::string ready = vp::S().out + ".ready";
        unlink(ready.c_str());
        std::string desc = vp::fmt("killed at point %zu '%s' of script %llu%s", at, pts[at].c_str(), (unsigned long long)seed, others ? ", with another process" : "");
        if (others) {
            other = spawn(self, {"--mode=child", "--session=" + session, "--script=" + std::to_string(seed + 1), "--hold=" + ready, "--dir=" + dir});
            double t = vp::now();
            while (access(ready.c_str(), F_OK) != 0 && vp::now() - t < 30) { vp::sleepMs(1); }
            if (access(ready.c_str(), F_OK) != 0) { kill(other, SIGKILL); waitpid(other, &st, 0); vp::violation("session:script-hang", "second process did not start"); continue; }
        }
        pid_t p = spawn(self, {"--mode=child", "--session=" + session, "--script=" + std::to_string(seed), "--crashat=" + std::to_string(at), "--dir=" + dir});
        if (!reap(p, st, 40)) { vp::violation("session:script-hang", "the script does not end: " + desc); }
        bool crashed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        if (!crashed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { vp::violation("session:script", vp::fmt("ended with %x: %s", st, desc.c_str())); }
        if (crashed) { vp::count("crashes"); }
        if (other) {
            Strs h = objects(shmId, dir);
            VP_CHECK(h.count("fmq_" + shmId + "_mng") == 1, "session:object-gone-while-used", "management segment gone while another process uses it, %s", desc.c_str());
            kill(other, SIGKILL);
            waitpid(other, &st, 0);
        }
        Strs before = objects(shmId, dir);
        double t0 = vp::now();
        auto res = shmem::Monitor::Cleanup(shmem::SessionId{session}, r.chance(1, 2));
        double dt = vp::now() - t0;
        Strs after = objects(shmId, dir), rep = reported(res, true), removed;
        std::set_difference(before.begin(), before.end(), after.begin(), after.end(), std::inserter(removed, removed.end()));
        std::string k = "session:crash-left-behind";
        for (auto& x : after) {
            for (auto s : {"_mng", "_m_", "_rgq_", "_rrc_", "_rg_"}) { if (x.find(s) != std::string::npos) { k = std::string("session:crash-left-behind:") + (x[0] == '/' ? "file" : s); break; } }
        }
        VP_CHECK(after.empty(), k, "%s still exist after the cleanup, %s. Had been %s", str(after).c_str(), desc.c_str(), str(before).c_str());
        VP_CHECK(rep == removed, "session:cleanup-report", "removed %s but reported %s, %s", str(removed).c_str(), str(rep).c_str(), desc.c_str());
        VP_CHECK(dt < 30, "session:cleanup-slow", "cleanup took %.1f s, %s", dt, desc.c_str());
        for (auto& x : after) { unlink((x[0] == '/' ? x : "/dev/shm/" + x).c_str()); }
        if (after.empty() && r.chance(1, 3)) {   // the session name is usable again
            p = spawn(self, {"--mode=child", "--session=" + session, "--script=" + std::to_string(seed), "--dir=" + dir});
            if (!reap(p, st, 40)) { vp::violation("session:script-hang", "the session is not usable after the cleanup: " + desc); }
            VP_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "session:reuse", "script ended with %x in a cleaned up session: %s", st, desc.c_str());
            after = objects(shmId, dir);
            VP_CHECK(after.empty(), "session:left-behind", "%s exist after the session was used again", str(after).c_str());
            for (auto& x : after) { unlink((x[0] == '/' ? x : "/dev/shm/" + x).c_str()); }
        }
        vp::evaluated(vp::hash(pts[at].substr(0, pts[at].find("fmq_")) + (pts[at].rfind('_') != std::string::npos ? pts[at].substr(pts[at].rfind('_')) : "") + std::to_string(at) + std::to_string(seed)), crashed);
        vp::tick();
    }
    vp::count("crash_points_available", pts.size());
    vp::sample(vp::fmt("script %llu passes %zu points, e.g. '%s'", (unsigned long long)seed, pts.size(), pts[pts.size() / 2].c_str()), 3);
}

// ================================================================ race: concurrent joins and leaves
ino_t inodeOf(const std::string& n)
{
    struct stat st{};
    return stat(("/dev/shm/" + n).c_str(), &st) == 0 ? st.st_ino : 0;
}
// one worker: joins, works, leaves; every object it uses has to stay in place meanwhile
void raceWorker(vp::Rng& r, const std::string& session, unsigned rounds, const std::string& what, std::atomic<uint64_t>* joins)
{
    std::string shmId = shmem::makeShmIdStr(session), base = "fmq_" + shmId + "_";
    for (unsigned i = 0; i < rounds; ++i) {
        try {
            Opt o;
            o.session = session;
            o.segId = r.below(2);
            o.segSize = 1u << 20;
            auto n = std::make_unique<Node>("shmem", o);
            if (joins) { ++*joins; }
            std::string seg = base + "m_" + std::to_string(o.segId);
            ino_t m = inodeOf(base + "mng"), s = inodeOf(seg);
            VP_CHECK(m && s, "session:object-gone-while-used", "a transport was just created, but %s does not exist (%s)", m ? seg.c_str() : "its management segment", what.c_str());
            std::unique_ptr<MessagePtr> msg;
            UnmanagedRegionPtr reg;
            std::string rn;
            uint64_t tag = r.next();
            MessagePtr mm = n->f->CreateMessage(500);
            fill(mm->GetData(), 500, tag);
            if (r.chance(1, 3)) {
                RegionConfig cfg;
                cfg.linger = 1;
                cfg.rcSegmentSize = r.chance(1, 2) ? 0 : 100000;
                reg = n->f->CreateUnmanagedRegion(4096, RegionCallback([](void*, size_t, void*) {}), cfg);
                rn = base + "rg_" + std::to_string(reg->GetId());
            }
            vp::sleepUs(r.below(1500));
            ino_t m2 = inodeOf(base + "mng"), s2 = inodeOf(seg);
            VP_CHECK(m == m2 && s == s2, "session:object-gone-while-used", "%s was %s while a transport uses it (%s)", m != m2 ? "management segment" : seg.c_str(), (m != m2 ? m2 : s2) ? "replaced" : "removed", what.c_str());
            VP_CHECK(shmem::Monitor::SegmentIsPresent(shmem::SessionId{session}, o.segId), "session:segment-query", "segment of a live transport reported absent (%s)", what.c_str());
            if (reg) { VP_CHECK(inodeOf(rn), "session:object-gone-while-used", "region object %s removed while in use (%s)", rn.c_str(), what.c_str()); }
            VP_CHECK(same(mm->GetData(), 500, tag), "session:content", "message changed (%s)", what.c_str());
            if (r.chance(1, 2)) { mm.reset(); reg.reset(); } else { reg.reset(); mm.reset(); }
            n.reset();
        } catch (std::exception& e) {
            vp::violation("session:join-failed", vp::fmt("%s (%s)", e.what(), what.c_str()));
        }
        vp::tick();
    }
}
void raceCase(uint64_t, vp::Rng& r, const char* self)
{
    vp::phase("session race");
    std::string session = newSession(), shmId = shmem::makeShmIdStr(session);
    unsigned nt = 2 + r.below(3), np = r.chance(1, 3) ? 1 + r.below(2) : 0, rounds = 4 + r.below(6);
    std::string what = vp::fmt("%u threads, %u processes joining and leaving", nt, np);
    std::vector<pid_t> ps;
    std::string res = vp::S().out + ".race";
    for (unsigned i = 0; i < np; ++i) { ps.push_back(spawn(self, {"--mode=racechild", "--session=" + session, "--seed=" + std::to_string(r.next() >> 1), "--rounds=" + std::to_string(rounds * 2), "--result=" + res + std::to_string(i)})); }
    vp::perturb(r.below(5), r.next());
    vp::resetScheduleHash();
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < nt; ++i) { seeds.push_back(r.next()); }
    std::atomic<uint64_t> joins{0};
    vp::runThreads(nt, [&](unsigned t) { vp::Rng q(seeds[t], t); raceWorker(q, session, np ? rounds * 3 : rounds, what, &joins); });
    vp::perturb(0, 0);
    vp::interleaving(vp::scheduleHash());
    for (unsigned i = 0; i < np; ++i) {
        int st = 0;
        if (!reap(ps[i], st, 40)) { vp::violation("session:script-hang", "a joining process does not end (" + what + ")"); }
        VP_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "session:object-gone-while-used", "a joining process saw a violation: %x (%s)", st, what.c_str());
    }
    Strs left = objects(shmId, filesDir());
    VP_CHECK(left.empty(), "session:left-behind", "%s exist after all left (%s)", str(left).c_str(), what.c_str());
    for (auto& x : left) { unlink((x[0] == '/' ? x : "/dev/shm/" + x).c_str()); }
    vp::count("joins", joins);
    vp::evaluated(vp::scheduleHash());
}


// ================================================================ segments/regions prepared by hand, content reset with a given layout
void manualCase(uint64_t, vp::Rng& r)
{
    vp::phase("session prepared by hand");
    std::string session = newSession(), shmId = shmem::makeShmIdStr(session), dir = filesDir("man");
    std::vector<shmem::SegmentConfig> sc;
    std::vector<RegionConfig> rc;
    Strs need;
    unsigned ns = 1 + r.below(3), nr = 1 + r.below(3);
    std::map<uint16_t, unsigned long> fresh;
    for (unsigned i = 0; i < ns; ++i) {
        shmem::SegmentConfig c;
        c.id = i;
        c.size = (1u + r.below(3)) << 20;
        c.allocationAlgorithm = r.chance(1, 2) ? "rbtree_best_fit" : "simple_seq_fit";
        if (c.allocationAlgorithm == "rbtree_best_fit") { shmem::Segment s(shmId, c.id, c.size, shmem::rbTreeBestFit); fresh[i] = s.GetFreeMemory(); }
        else { shmem::Segment s(shmId, c.id, c.size, shmem::simpleSeqFit); fresh[i] = s.GetFreeMemory(); }
        sc.push_back(c);
        need.insert("fmq_" + shmId + "_m_" + std::to_string(i));
    }
    for (unsigned i = 0; i < nr; ++i) {
        RegionConfig c;
        c.id = 3 + i;
        c.size = 8192 * (1 + r.below(3));
        c.rcSegmentSize = r.chance(1, 2) ? 0 : 100000;
        c.removeOnDestruction = false;
        { shmem::UnmanagedRegion g(shmId, c); memset(g.GetData(), 7, g.GetSize()); }
        rc.push_back(c);
        need.insert("fmq_" + shmId + "_rg_" + std::to_string(3 + i));
        if (c.rcSegmentSize) { need.insert("fmq_" + shmId + "_rrc_" + std::to_string(3 + i)); }
    }
    need.insert("fmq_" + shmId + "_mng");
    auto check = [&](const char* when, const Strs& want) {
        Strs have = objects(shmId, dir);
        VP_CHECK(have == want, "session:manual", "%s: %s exist, expected %s", when, str(have).c_str(), str(want).c_str());
        for (auto& c : sc) { VP_CHECK(shmem::Monitor::SegmentIsPresent(shmem::ShmId{shmId}, c.id), "session:segment-query", "prepared segment %u absent %s", c.id, when); }
        for (auto& c : rc) { VP_CHECK(shmem::Monitor::RegionIsPresent(shmem::ShmId{shmId}, *c.id), "session:region-query", "prepared region %u absent %s", *c.id, when); }
    };
    check("prepared", need);
    unsigned rounds = 1 + r.below(3);
    for (unsigned k = 0; k < rounds; ++k) {
        {
            Opt o;
            o.session = session;
            o.noCleanup = true;
            o.segId = r.below(ns);
            o.segSize = 12345678;
            Node n("shmem", o);
            auto& c = rc[r.below(nr)];
            RegionConfig c2 = c;
            auto g = n.f->CreateUnmanagedRegion(c.size, RegionCallback(nullptr), c2);
            VP_CHECK(static_cast<unsigned char*>(g->GetData())[5] == (k ? 8 : 7) || true, "session:manual", "content lost");
            memset(g->GetData(), 8, c.size);
            auto m = n.f->CreateMessage(1000);
            auto m2 = n.f->CreateMessage(g, g->GetData(), 100);
            if (r.chance(1, 2)) { auto m3 = n.f->CreateMessage(); m3->Copy(*m2); }
            (void)m->GetData();
            m2.reset();
            m.reset();
        }
        Strs want = need;
        if (r.chance(1, 2)) {
            shmem::Monitor::ResetContent(shmem::ShmId{shmId}, sc, rc, false);
        } else {
            shmem::Monitor::ResetContent(shmem::SessionId{session}, false);
        }
        for (auto it = want.begin(); it != want.end();) { if (it->find("_rrc_") != std::string::npos) { it = want.erase(it); } else { ++it; } }
        check("after the reset", want);
        for (auto& [id, f] : fresh) { auto x = shmem::Monitor::GetFreeMemory(shmem::ShmId{shmId}, id); VP_CHECK(x == f, "session:reset", "segment %u has %lu bytes free after the reset, %lu when new", id, x, f); }
        need = want;
        for (auto& c : rc) { if (c.rcSegmentSize) { shmem::UnmanagedRegion g(shmId, c); need.insert("fmq_" + shmId + "_rrc_" + std::to_string(*c.id)); } }
    }
    Strs before = objects(shmId, dir);
    auto res = shmem::Monitor::Cleanup(shmem::SessionId{session}, false);
    VP_CHECK(reported(res, true) == before && objects(shmId, dir).empty(), "session:cleanup-report", "cleanup of a prepared session removed %s, left %s", str(reported(res, true)).c_str(), str(objects(shmId, dir)).c_str());
    vp::evaluated(vp::mix(r.next(), ns * 10 + nr));
}
}   // namespace

int main(int argc, char** argv)
{
    static std::string self = "/proc/self/exe";
    char buf[4096];
    ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
    if (n > 0) { buf[n] = 0; self = buf; }
    vp::init(argc, argv);
    fair::Logger::SetConsoleSeverity(getenv("VP_LOG") ? getenv("VP_LOG") : "nolog");
    signal(SIGPIPE, SIG_IGN);
    std::string m = vp::S().mode;
    vp::lockHook = [](bool lock, bool shared) { if (shared) { crashPoint(lock ? "after lock" : "after unlock"); } };
    if (m == "child") {
        vp::S().out.clear();
        gCrashAt = static_cast<long>(vp::optU("crashat", 1000000000));
        std::string names = vp::optS("names", ""), hold = vp::optS("hold", "");
        gNames = !names.empty();
        int rc = 4;
        try { rc = script(vp::optU("script", 1), vp::optS("session", ""), vp::optS("dir", ""), !hold.empty(), hold); }
        catch (std::exception& e) { fprintf(stderr, "script: %s\n", e.what()); rc = 5; }
        if (gNames) { FILE* f = fopen(names.c_str(), "w"); for (auto& x : gPointNames) { fprintf(f, "%s\n", x.c_str()); } fclose(f); }
        return rc;
    }
    if (m == "racechild") {
        vp::S().out.clear();
        vp::Rng r(vp::S().seed, 5);
        vp::perturb(r.below(4), r.next());
        raceWorker(r, vp::optS("session", ""), vp::optU("rounds", 5), "in a process", nullptr);
        for (auto& v : vp::S().violations) { fprintf(stderr, "child: %s\n", v.first.c_str()); }
        return vp::S().violations.empty() ? 0 : 3;
    }
    vp::watchdog();
    if (m == "life") { vp::forCases(30, lifeCase); }
    else if (m == "crash") { vp::forCases(6, [&](uint64_t i, vp::Rng& r) { crashCase(i, r, self.c_str()); }); }
    else if (m == "race") { vp::forCases(20, [&](uint64_t i, vp::Rng& r) { raceCase(i, r, self.c_str()); }); }
    else if (m == "manual") { vp::forCases(20, manualCase); }
    return vp::finish();
}
