// C05: every region buffer is acknowledged exactly once, after its last use.
// C06: region subscribers see each region come and go exactly once.
#include "tx.h"

#include <filesystem>
#include <sys/wait.h>

using namespace tx;

namespace
{

// where region files go: always a path that does not fit a short string
std::string filesDir()
{
    std::string d = scratch() + "/directory-of-the-region-files/";
    std::filesystem::create_directories(d);
    return d;
}


// ================================================================ acknowledgements
struct Rec
{
    uint64_t idx = 0;
    void* hint = nullptr;
    char* ptr = nullptr;
    size_t size = 0, blk = 0;
    bool resized = false;
    std::atomic<bool> shared{false};   // was copied at some time
    std::atomic<int> holders{0}, acks{0};
    struct Pool* pool = nullptr;
};

struct Case;
struct Pool
{
    Case* c = nullptr;
    unsigned node = 0;
    bool bulk = false, early = false;   // early: the transport takes a copy and acknowledges at once
    size_t blkSize = 0, nblk = 0;
    UnmanagedRegionPtr region;
    char* base = nullptr;
    size_t regionSize = 0;
    std::mutex mtx;
    std::vector<size_t> free;
    std::vector<Rec*> used;     // outstanding record per block
    std::atomic<uint64_t> created{0}, acked{0};
    std::atomic<bool> gone{false};
    uint64_t slow = 0;
    TransportFactory* f = nullptr;
    RegionConfig cfg;
    void ack(void* p, size_t s, void* h, const char* how);
};

struct Case
{
    std::mutex mtx;
    std::deque<Rec> recs;
    std::string desc;
    bool zmq = false;
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<std::unique_ptr<Pool>> pools;
    std::atomic<int64_t> inFlight{0};
    Rec* newRec() { std::lock_guard<std::mutex> l(mtx); recs.emplace_back(); recs.back().idx = recs.size() - 1; return &recs.back(); }
    Rec* rec(uint64_t i) { std::lock_guard<std::mutex> l(mtx); return i < recs.size() ? &recs[i] : nullptr; }
};

void Pool::ack(void* p, size_t s, void* h, const char* how)
{
    vp::tick();
    if (gone.load()) { vp::violation("region:late-ack", "an acknowledgement came after the destruction of the region (" + c->desc + ")"); return; }
    auto b = static_cast<char*>(p);
    if (!base) { return; }
    if (b < base || b > base + regionSize) { vp::violation("region:ack-ptr", vp::fmt("%s acknowledged a pointer outside the region (%s)", how, c->desc.c_str())); return; }
    size_t blk = std::min<size_t>((b - base) / blkSize, nblk - 1);
    Rec* r;
    {
        std::lock_guard<std::mutex> l(mtx);
        r = used[blk];
    }
    if (!r) { vp::violation("region:ack-unknown", vp::fmt("%s acknowledged block %zu which is not in use (a second time?) (%s)", how, blk, c->desc.c_str())); return; }
    VP_CHECK(r->ptr == b, "region:ack-ptr", "acknowledged %td, message was at %td (%s)", b - base, r->ptr - base, c->desc.c_str());
    VP_CHECK(r->hint == h, "region:ack-hint", "hint %p acknowledged as %p (%s)", r->hint, h, c->desc.c_str());
    VP_CHECK(r->resized ? s <= r->size : s == r->size, "region:ack-size", "size %zu acknowledged as %zu (%s)", r->size, s, c->desc.c_str());
    int n = r->acks.fetch_add(1);
    VP_CHECK(n == 0, "region:ack-twice", "message %llu acknowledged %d times (%s)", (unsigned long long)r->idx, n + 1, c->desc.c_str());
    if (!early) {
        int live = r->holders.load();
        VP_CHECK(live == 0, "region:ack-early", "message %llu acknowledged while %d holders exist (%s)", (unsigned long long)r->idx, live, c->desc.c_str());
        // nobody may use it any more, so the owner may
        memset(r->ptr, 0x5a, r->size);
    }
    acked.fetch_add(1);
    std::lock_guard<std::mutex> l(mtx);
    used[blk] = nullptr;
    free.push_back(blk);
}

struct H
{
    MessagePtr m;
    Rec* r = nullptr;
    size_t sz = 0;
};

struct Worker
{
    Case* c = nullptr;
    unsigned id = 0, node = 0;
    vp::Rng r{1};
    TransportFactory* f = nullptr;
    std::unique_ptr<Socket> in;
    std::vector<std::unique_ptr<Socket>> out;
    std::vector<H> hs;
    size_t ops = 0;
    size_t created = 0, copies = 0, recvd = 0, refused = 0;

    void verify(const H& h, const char* when)
    {
        if (!h.r) { return; }
        VP_CHECK(h.m->GetSize() == h.sz, "region:size", "size is %zu instead of %zu %s (%s)", h.m->GetSize(), h.sz, when, c->desc.c_str());
        if (!h.sz) { return; }
        void* p = h.m->GetData();
        if (!p) { vp::violation("region:data", vp::fmt("no data %s (%s)", when, c->desc.c_str())); return; }
        VP_CHECK(same(p, h.sz, h.r->idx), "region:content", "message %llu changed %s (%s)", (unsigned long long)h.r->idx, when, c->desc.c_str());
        if (!c->zmq && node == h.r->pool->node) {
            VP_CHECK(p == h.r->ptr, "region:address", "message %llu is not at its buffer in its own device %s (%s)", (unsigned long long)h.r->idx, when, c->desc.c_str());
        }
    }
    void drop(H& h)   // tell the monitor before the last use ends
    {
        if (h.r) { verify(h, "before destruction"); h.r->holders.fetch_sub(1); h.r = nullptr; }
    }
    void destroy(size_t i, bool plain = false)
    {
        H& h = hs[i];
        drop(h);
        switch (plain ? 0 : r.below(5)) {
            case 1: h.m->Rebuild(); break;
            case 2: h.m->Rebuild(1 + r.below(200)); memset(h.m->GetData(), 1, h.m->GetSize()); break;
            case 3: h.m->SetUsedSize(0); break;
            default: break;
        }
        hs[i] = std::move(hs.back());
        hs.pop_back();
    }
    bool create()
    {
        std::vector<Pool*> own;
        for (auto& p : c->pools) { if (p->node == node) { own.push_back(p.get()); } }
        if (own.empty()) { return false; }
        Pool* p = r.pick(own);
        size_t blk;
        {
            std::lock_guard<std::mutex> l(p->mtx);
            if (p->free.empty()) { return false; }
            blk = p->free.back();
            p->free.pop_back();
        }
        Rec* rec = c->newRec();
        size_t off = r.chance(1, 3) ? r.below(p->blkSize / 2) : 0;
        rec->blk = blk;
        rec->pool = p;
        rec->ptr = p->base + blk * p->blkSize + off;
        rec->size = r.chance(1, 12) ? 0 : r.chance(1, 6) ? p->blkSize - off : 1 + r.below(p->blkSize - off);
        rec->hint = r.chance(1, 8) ? nullptr : reinterpret_cast<void*>(r.next());
        fill(rec->ptr, rec->size, rec->idx);
        rec->holders = 1;
        {
            std::lock_guard<std::mutex> l(p->mtx);
            p->used[blk] = rec;
        }
        p->created.fetch_add(1);
        H h;
        h.r = rec;
        h.sz = rec->size;
        h.m = f->CreateMessage(p->region, rec->ptr, rec->size, rec->hint);
        ++created;
        verify(h, "after creation");
        hs.push_back(std::move(h));
        return true;
    }
    void copy()
    {
        if (hs.empty()) { return; }
        size_t i = r.below(hs.size());
        if (!hs[i].r) { return; }
        H n;
        bool onto = hs.size() > 1 && r.chance(1, 4);
        size_t j = 0;
        if (onto) {
            do { j = r.below(hs.size()); } while (j == i);
            drop(hs[j]);
            n = std::move(hs[j]);
        } else {
            n.m = r.chance(1, 3) ? f->CreateMessage(1 + r.below(100)) : f->CreateMessage();
        }
        hs[i].r->holders.fetch_add(1);
        try {
            n.m->Copy(*hs[i].m);
            hs[i].r->shared = true;
            n.r = hs[i].r;
            n.sz = hs[i].sz;
            verify(n, "in the copy");
            ++copies;
        } catch (std::exception& e) {   // no room for the reference count: refused
            if (!dynamic_cast<RefCountBadAlloc*>(&e) && !dynamic_cast<MessageBadAlloc*>(&e)) { throw; }
            hs[i].r->holders.fetch_sub(1);
            ++refused;
            verify(hs[i], "after a refused copy");
        }
        if (onto) { hs[j] = std::move(n); }
        else { hs.push_back(std::move(n)); }
    }
    void send()
    {
        size_t n = std::min<size_t>(hs.size(), 1 + r.below(3));
        if (!n) { return; }
        Parts p;
        std::vector<H> taken;
        auto hdr = f->CreateMessage(sizeof(uint64_t) * 2 * n);
        auto w = static_cast<uint64_t*>(hdr->GetData());
        for (size_t i = 0; i < n; ++i) {
            size_t k = r.below(hs.size());
            H h = std::move(hs[k]);
            hs[k] = std::move(hs.back());
            hs.pop_back();
            w[2 * i] = h.r ? h.r->idx : ~0ull;
            w[2 * i + 1] = h.sz;
            taken.push_back(std::move(h));
        }
        p.AddPart(std::move(hdr));
        for (auto& h : taken) { p.AddPart(std::move(h.m)); }
        c->inFlight.fetch_add(1);
        auto rc = out[r.below(out.size())]->Send(p, 20);
        if (rc < 0) {
            c->inFlight.fetch_sub(1);
            for (size_t i = 0; i < n; ++i) { taken[i].m = std::move(p.At(i + 1)); hs.push_back(std::move(taken[i])); }
        }
    }
    bool receive(int to)
    {
        Parts p;
        auto rc = in->Receive(p, to);
        if (rc < 0) { return false; }
        size_t first = 0;
        auto w = static_cast<uint64_t*>(p[first].GetData());
        size_t n = p[first].GetSize() / 16;
        if (!w || n == 0 || n > 3 || first + 1 + n != p.Size()) {
            vp::violation("region:parts", vp::fmt("received %zu parts for %zu messages (%s)", p.Size(), n, c->desc.c_str()));
            return true;
        }
        for (size_t i = 0; i < n; ++i) {
            H h;
            h.r = w[2 * i] == ~0ull ? nullptr : c->rec(w[2 * i]);
            h.sz = w[2 * i + 1];
            h.m = std::move(p.At(first + 1 + i));
            verify(h, "on arrival");
            hs.push_back(std::move(h));
        }
        recvd += n;
        c->inFlight.fetch_sub(1);
        return true;
    }
    void shrink()
    {
        if (hs.empty()) { return; }
        H& h = hs[r.below(hs.size())];
        if (!h.r || h.sz < 2 || h.r->holders.load() != 1) { return; }
        size_t s = 1 + r.below(h.sz - 1);
        h.r->resized = true;
        VP_CHECK(h.m->SetUsedSize(s), "region:shrink", "SetUsedSize(%zu) of %zu refused (%s)", s, h.sz, c->desc.c_str());
        h.sz = s;
        verify(h, "after shrinking");
    }
    void run()
    {
        for (size_t i = 0; i < ops; ++i) {
            vp::tick();
            unsigned k = r.below(100);
            if (k < 30) { if (hs.size() < 60) { create(); } else { destroy(r.below(hs.size())); } }
            else if (k < 50) { copy(); }
            else if (k < 65) { if (!out.empty()) { send(); } }
            else if (k < 80) { if (in) { receive(0); } }
            else if (k < 84) { shrink(); }
            else if (k < 87) { size_t n = r.pick(std::vector<size_t>{20, 120, 255, 256, 257, 300}); for (size_t j = 0; j < n && create(); ++j) {} while (hs.size() > 60) { destroy(hs.size() - 1, true); } }
            else if (!hs.empty()) { destroy(r.below(hs.size())); }
            if (i % 16 == 0) { for (auto& h : hs) { verify(h, "while held"); } }
        }
    }
    void drain()
    {
        double t = vp::now();
        while (c->inFlight.load() > 0 && vp::now() - t < 30) { if (in) { receive(5); } if (hs.size() > 100) { destroy(0, true); } }
    }
};

void ackCase(uint64_t, vp::Rng& r)
{
    auto c = std::make_unique<Case>();
    c->zmq = r.chance(1, 6);
    bool two = !c->zmq && r.chance(1, 2);
    std::string session = newSession();
    unsigned nn = two ? 2 : 1;
    std::string alloc = r.chance(1, 3) ? "simple_seq_fit" : "rbtree_best_fit";
    bool ownSeg = two && r.chance(1, 3);
    for (unsigned i = 0; i < nn; ++i) {
        Opt o;
        o.session = session;
        o.attempts = 2000;
        o.interval = 1;
        o.segId = static_cast<uint16_t>(ownSeg ? i : 0);
        o.alloc = alloc;
        c->nodes.push_back(std::make_unique<Node>(c->zmq ? "zeromq" : "shmem", o));
    }
    unsigned np = 1 + r.below(2);
    unsigned nw = 1 + r.below(two ? 3 : 3);
    if (two && nw < 2) { nw = 2; }
    unsigned ending = r.below(10);   // 0-4 destroy at once, 5-7 wait for the acknowledgements, 8-9 messages outlive the region
    unsigned mode = ending < 5 ? 0 : ending < 8 ? 1 : 2;
    bool atOnceTwo = two && mode == 0 && r.chance(1, 3);
    if (two && mode == 0 && !atOnceTwo) { mode = 1; }
    c->desc = vp::fmt("%s %u device(s) %u region(s) %u worker(s) ending %u", c->zmq ? "zeromq" : "shmem", nn, np, nw, mode);
    std::string files = filesDir();
    for (unsigned i = 0; i < np; ++i) {
        auto p = std::make_unique<Pool>();
        p->c = c.get();
        p->node = two ? r.below(2) : 0;
        if (i == 0) { p->node = 0; }
        p->bulk = r.chance(1, 2);
        p->early = c->zmq;
        p->blkSize = r.pick(std::vector<size_t>{64, 200, 4096, 20000});
        p->nblk = p->blkSize > 5000 ? 60 : 700;
        p->f = c->nodes[p->node]->f.get();
        p->slow = r.chance(1, 4) ? 1 + r.below(200) : 0;
        p->used.assign(p->nblk, nullptr);
        for (size_t b = 0; b < p->nblk; ++b) { p->free.push_back(b); }
        r.shuffle(p->free);
        p->regionSize = p->blkSize * p->nblk;
        p->cfg.linger = atOnceTwo ? 2500 : r.pick(std::vector<uint32_t>{1, 5, 20, 100});
        p->cfg.rcSegmentSize = r.pick(std::vector<uint64_t>{0, 4096, 1u << 20, 100000000});
        p->cfg.zero = r.chance(1, 3);
        p->cfg.userFlags = static_cast<int64_t>(r.below(1000));
        if (r.chance(1, 3)) { p->cfg.id = static_cast<uint16_t>(1 + r.below(900) * 2 + i); }
        if (!c->zmq && r.chance(1, 5) && !getenv("VP_NOFILE")) { p->cfg.path = files; }
        Pool* pp = p.get();
        c->desc += vp::fmt(" [%s blk %zu rc %llu linger %u%s%s]", p->bulk ? "bulk" : "single", p->blkSize, (unsigned long long)p->cfg.rcSegmentSize, p->cfg.linger, p->cfg.path.empty() ? "" : " file", p->slow ? " slow" : "");
        RegionBulkCallback bcb = [pp](const std::vector<RegionBlock>& bs) {
            if (pp->slow) { vp::sleepUs(static_cast<long>(pp->slow)); }
            VP_CHECK(!bs.empty(), "region:empty-bulk", "empty bulk acknowledgement");
            for (auto& b : bs) { pp->ack(b.ptr, b.size, b.hint, "bulk callback"); }
            vp::count("bulk_calls");
        };
        RegionCallback scb = [pp](void* d, size_t s, void* h) {
            if (pp->slow) { vp::sleepUs(static_cast<long>(pp->slow) / 8); }
            pp->ack(d, s, h, "callback");
        };
        if (p->bulk) { p->region = p->f->CreateUnmanagedRegion(p->regionSize, bcb, p->cfg); }
        else { p->region = p->f->CreateUnmanagedRegion(p->regionSize, scb, p->cfg); }
        p->base = static_cast<char*>(p->region->GetData());
        VP_CHECK(p->region->GetSize() == p->regionSize, "region:region-size", "region of %zu bytes has %zu", p->regionSize, p->region->GetSize());
        if (!c->zmq) { VP_CHECK(p->region->GetLinger() == p->cfg.linger, "region:linger", "linger %u became %u", p->cfg.linger, p->region->GetLinger()); }
        c->pools.push_back(std::move(p));
    }
    vp::phase("region ack: " + c->desc);
    std::vector<std::unique_ptr<Worker>> ws;
    for (unsigned i = 0; i < nw; ++i) {
        auto w = std::make_unique<Worker>();
        w->c = c.get();
        w->id = i;
        w->node = i % nn;
        w->r = vp::Rng(r.next());
        w->f = c->nodes[w->node]->f.get();
        w->ops = 40 + r.below(200);
        ws.push_back(std::move(w));
    }
    std::vector<std::string> eps;
    for (auto& w : ws) {
        w->in = w->f->CreateSocket("pull", uniq("in"));
        std::string a = address("ipc");
        if (!w->in->Bind(a)) { vp::violation("region:bind", a); return; }
        eps.push_back(lastEndpoint(*w->in));
    }
    for (auto& w : ws) {
        for (auto& e : eps) {
            w->out.push_back(w->f->CreateSocket("push", uniq("out")));
            w->out.back()->SetLinger(0);
            w->out.back()->Connect(e);
        }
    }
    vp::resetScheduleHash();
    vp::perturb(nw > 1 || r.chance(1, 2) ? r.below(4) : 0, r.next());
    vp::runThreads(nw, [&](unsigned i) { ws[i]->run(); });
    vp::runThreads(nw, [&](unsigned i) { ws[i]->drain(); });
    VP_CHECK(c->inFlight.load() == 0, "region:in-flight", "%lld transfers never arrived (%s)", (long long)c->inFlight.load(), c->desc.c_str());
    // every message goes away, in parallel
    std::atomic<uint64_t> kept{0};
    vp::runThreads(nw, [&](unsigned i) {
        auto& w = *ws[i];
        size_t keep = mode == 2 ? 1 + w.r.below(6) : 0;
        size_t i2 = 0;   // messages that never shared their buffer may outlive the region
        while (w.hs.size() > i2) {
            if (keep && w.hs[i2].r && !w.hs[i2].r->shared) { --keep; ++i2; continue; }
            w.destroy(i2, w.r.chance(1, 2));
        }
        keep = w.hs.size();
        for (auto& h : w.hs) { w.verify(h, "kept"); }
        kept += keep;
    });
    for (auto& w : ws) { w->in.reset(); w->out.clear(); }
    uint64_t sched = vp::scheduleHash();
    auto outstanding = [&] {
        std::set<Rec*> held;
        for (auto& w : ws) { for (auto& h : w->hs) { if (h.r) { held.insert(h.r); } } }
        uint64_t n = 0;
        for (auto& p : c->pools) { n += p->created.load() - p->acked.load(); }
        return c->zmq ? n : n - held.size();
    };
    if (mode != 0) {
        double t = vp::now();
        while (outstanding() > 0 && vp::now() - t < 20) { vp::sleepMs(2); }
        VP_CHECK(outstanding() == 0, "region:ack-missing", "%llu acknowledgements missing 20 s after the last use (%s)", (unsigned long long)outstanding(), c->desc.c_str());
    }
    uint64_t n = 0;
    for (auto& p : c->pools) {
        p->region.reset();
        p->gone = true;
        n += p->created.load();
    }
    if (mode == 0) {
        VP_CHECK(outstanding() == 0, "region:ack-lost", "%llu of %llu acknowledgements due were never delivered by the time the region was destroyed (%s)", (unsigned long long)outstanding(), (unsigned long long)n, c->desc.c_str());
    }
    if (kept) {
        vp::count("messages_outliving_their_region", kept.load());
        for (auto& w : ws) { for (auto& h : w->hs) { h.r = nullptr; } w->hs.clear(); }
    }
    vp::perturb(0, 1);
    uint64_t cop = 0, rec = 0, ref = 0;
    for (auto& w : ws) { cop += w->copies; rec += w->recvd; ref += w->refused; }
    ws.clear();
    c->nodes.clear();
    vp::count("region_messages", n);
    vp::count("copies", cop);
    vp::count("transferred", rec);
    vp::count("refused_copies", ref);
    for (auto& p : c->pools) { vp::count("acks", p->acked.load()); }
    vp::evaluated(vp::mix(vp::hash(c->desc), vp::mix(sched, n)), n > 0);
    vp::interleaving(sched);
    vp::sample(c->desc + vp::fmt(": %llu messages, %llu copies, %llu transferred", (unsigned long long)n, (unsigned long long)cop, (unsigned long long)rec), 5);
}

// more acknowledgements than the queue between sender and receiver can hold
void floodCase(uint64_t, vp::Rng& r)
{
    vp::phase("region ack flood");
    Opt o;
    Node n("shmem", o);
    bool bulk = r.chance(1, 2);
    std::atomic<bool> gate{false};
    std::atomic<uint64_t> acks{0};
    std::atomic<uint64_t> sum{0};
    RegionConfig cfg;
    cfg.linger = 50;
    constexpr size_t B = 32;
    const uint64_t N = 1024 * 256 + 30000 + r.below(20000);
    auto take = [&](uint64_t k, void* h) {
        double t = vp::now();
        while (!gate && vp::now() - t < 30) { vp::sleepMs(1); }
        acks += k;
        sum += reinterpret_cast<uint64_t>(h);
    };
    UnmanagedRegionPtr reg;
    if (bulk) { reg = n.f->CreateUnmanagedRegion(B * 1000, [&](const std::vector<RegionBlock>& b) { take(b.size(), nullptr); for (auto& x : b) { sum += reinterpret_cast<uint64_t>(x.hint); } }, cfg); }
    else { reg = n.f->CreateUnmanagedRegion(B * 1000, [&](void*, size_t, void* h) { take(1, h); }, cfg); }
    char* base = static_cast<char*>(reg->GetData());
    uint64_t expect = 0;
    for (uint64_t i = 0; i < N; ++i) {
        auto m = n.f->CreateMessage(reg, base + B * (i % 1000), B, reinterpret_cast<void*>(i + 1));
        expect += i + 1;
        if (i % 4096 == 0) { vp::tick(); }
    }
    vp::sleepMs(static_cast<long>(r.below(700)));
    std::thread opener([&] { vp::sleepMs(30); gate = true; });
    reg.reset();
    opener.join();
    VP_CHECK(acks == N && sum == expect, "region:ack-lost", "%llu of %llu acknowledgements due were delivered before the region was gone (more than the ack queue holds, %s)", (unsigned long long)acks.load(), (unsigned long long)N, bulk ? "bulk" : "single");
    vp::count("acks", acks.load());
    vp::evaluated(vp::mix(N, bulk));
    vp::sample(vp::fmt("flood of %llu acknowledgements, %s", (unsigned long long)N, bulk ? "bulk" : "single"), 1);
}

// the callback itself uses the transport
void reentrantCase(uint64_t, vp::Rng& r)
{
    vp::phase("region callback uses the transport");
    Opt o;
    Node n("shmem", o);
    RegionConfig cfg;
    cfg.linger = 20;
    UnmanagedRegionPtr a, b;
    std::atomic<uint64_t> ackA{0}, ackB{0};
    char* bb = nullptr;
    unsigned what = r.below(3);
    b = n.f->CreateUnmanagedRegion(10000, [&](void*, size_t, void*) { ++ackB; }, cfg);
    bb = static_cast<char*>(b->GetData());
    a = n.f->CreateUnmanagedRegion(10000, [&](void*, size_t, void*) {
        ++ackA;
        vp::tick();
        if (what == 0) { auto m = n.f->CreateMessage(100); auto k = n.f->CreateMessage(); k->Copy(*m); }
        else if (what == 1) { auto m = n.f->CreateMessage(b, bb + 10, 10, nullptr); auto k = n.f->CreateMessage(); k->Copy(*m); }
        else { n.f->GetRegionInfo(); }
    }, cfg);
    char* ab = static_cast<char*>(a->GetData());
    uint64_t N = 20 + r.below(600);
    for (uint64_t i = 0; i < N; ++i) { auto m = n.f->CreateMessage(a, ab + i, 8, nullptr); }
    a.reset();
    VP_CHECK(ackA == N, "region:ack-lost", "%llu of %llu acknowledgements delivered (callback uses the transport, %u)", (unsigned long long)ackA.load(), (unsigned long long)N, what);
    b.reset();
    if (what == 1) { VP_CHECK(ackB == ackA, "region:ack-lost", "%llu of %llu acknowledgements of messages created in a callback", (unsigned long long)ackB.load(), (unsigned long long)ackA.load()); }
    vp::evaluated(vp::mix(N, what));
    vp::count("acks", ackA + ackB);
}

// ---------------------------------------------------------------- two transports of one session in one thread
// The owner may destroy its region while the other transport still reads (its own mapping of) it.
void crossCase(uint64_t, vp::Rng& r)
{
    vp::phase("transports of one session in one thread");
    Opt o;
    o.session = newSession();
    unsigned nn = 2 + r.below(2);
    std::vector<std::unique_ptr<Node>> ns;
    for (unsigned i = 0; i < nn; ++i) { o.segId = i; ns.push_back(std::make_unique<Node>("shmem", o)); }
    struct Reg { UnmanagedRegionPtr g; char* base; unsigned owner; uint64_t pat; };
    struct Held { MessagePtr m; uint64_t pat; size_t off, size; unsigned node; bool read; };
    std::vector<Reg> regs;
    std::vector<Held> held;
    std::vector<std::vector<std::unique_ptr<Socket>>> to(nn), from(nn);
    std::map<std::pair<unsigned, unsigned>, std::string> eps;
    for (unsigned i = 0; i < nn; ++i) {
        to[i].resize(nn);
        from[i].resize(nn);
        for (unsigned j = 0; j < nn; ++j) {
            if (i == j) { continue; }
            std::string ep = "ipc://" + scratch() + "/" + uniq("x");
            eps[{i, j}] = ep;
            to[i][j] = ns[i]->f->CreateSocket("push", uniq("xo"));
            to[i][j]->Bind(ep);
        }
    }
    for (unsigned i = 0; i < nn; ++i) {
        for (unsigned j = 0; j < nn; ++j) {
            if (i == j) { continue; }
            from[j][i] = ns[j]->f->CreateSocket("pull", uniq("xi"));
            from[j][i]->Connect(eps[{i, j}]);
        }
    }
    const size_t size = 20000;
    std::string hist;
    uint64_t checks = 0, orphans = 0;
    std::set<uint64_t> destroyed;
    auto check = [&](Held& h) {
        if (destroyed.count(h.pat) && !h.read) { return; }   // too late to open the region
        auto p = static_cast<unsigned char*>(h.m->GetData());
        if (!p) { VP_CHECK(!h.read, "region:cross-data", "data of a message that was read before is gone. History: %s", hist.c_str()); return; }
        h.read = true;
        VP_CHECK(h.m->GetSize() == h.size, "region:cross-data", "%zu bytes instead of %zu", h.m->GetSize(), h.size);
        for (size_t i = 0; i < h.size; ++i) {
            auto x = static_cast<unsigned char>(vp::mix(h.pat, h.off + i));
            if (p[i] != x) { vp::violation("region:cross-data", vp::fmt("byte %zu of a region message of transport %u is %02x, expected %02x. History: %s", i, h.node, p[i], x, hist.c_str())); return; }
        }
        ++checks;
    };
    unsigned steps = 30 + r.below(80);
    for (unsigned s = 0; s < steps; ++s) {
        switch (r.below(8)) {
            case 0: if (regs.size() < 4) {
                unsigned k = r.below(nn);
                RegionConfig cfg;
                cfg.linger = 1;
                cfg.rcSegmentSize = r.chance(1, 2) ? 0 : 100000;
                Reg g{ns[k]->f->CreateUnmanagedRegion(size, [](void*, size_t, void*) {}, cfg), nullptr, k, r.next()};
                g.base = static_cast<char*>(g.g->GetData());
                for (size_t i = 0; i < size; ++i) { g.base[i] = static_cast<char>(vp::mix(g.pat, i)); }
                hist += vp::fmt("%u creates %u; ", k, g.g->GetId());
                regs.push_back(std::move(g));
            } break;
            case 1: case 2: if (!regs.empty() && held.size() < 40) {
                auto& g = regs[r.below(regs.size())];
                size_t off = r.below(size - 1), n = 1 + r.below(std::min<size_t>(size - off, 600));
                held.push_back({ns[g.owner]->f->CreateMessage(g.g, g.base + off, n, nullptr), g.pat, off, n, g.owner, true});
                hist += vp::fmt("%u message of %u; ", g.owner, g.g->GetId());
            } break;
            case 3: if (!held.empty() && held.size() < 40) {
                auto& h = held[r.below(held.size())];
                if (destroyed.count(h.pat) && !h.read) { break; }
                auto c = ns[h.node]->f->CreateMessage();
                c->Copy(*h.m);
                held.push_back({std::move(c), h.pat, h.off, h.size, h.node, h.read});
            } break;
            case 4: case 5: if (!held.empty()) {   // on to another transport
                auto& h = held[r.below(held.size())];
                unsigned k = (h.node + 1 + r.below(nn - 1)) % nn;
                if (to[h.node][k]->Send(h.m, 5000) < 0) { vp::violation("region:cross-send", "cannot send"); return; }
                h.m = ns[k]->f->CreateMessage();
                if (from[k][h.node]->Receive(h.m, 20000) < 0) { vp::violation("region:cross-receive", "nothing received"); return; }
                hist += vp::fmt("%u to %u; ", h.node, k);
                h.node = k;
                h.read = false;
                if (r.chance(3, 4)) { check(h); }
            } break;
            case 6: if (!held.empty()) { size_t k = r.below(held.size()); std::swap(held[k], held.back()); held.pop_back(); } break;
            case 7: if (!regs.empty() && r.chance(1, 2)) {
                size_t k = r.below(regs.size());
                auto& g = regs[k];
                for (size_t i = held.size(); i-- > 0;) {   // the owner's own messages go first
                    if (held[i].node == g.owner && held[i].pat == g.pat) { std::swap(held[i], held.back()); held.pop_back(); }
                }
                for (auto& h : held) { orphans += h.pat == g.pat && h.read; }
                hist += vp::fmt("%u destroys %u; ", g.owner, g.g->GetId());
                destroyed.insert(g.pat);
                std::swap(regs[k], regs.back());
                regs.pop_back();
                for (auto& h : held) { if (h.read) { check(h); } }
            } break;
        }
        if (!held.empty() && r.chance(1, 3)) { auto& h = held[r.below(held.size())]; check(h); }
        vp::tick();
    }
    held.clear();
    regs.clear();
    vp::count("cross_checks", checks);
    vp::count("cross_read_after_destruction", orphans);
    vp::evaluated(vp::hash(hist), checks > 0);
}

// ---------------------------------------------------------------- acknowledgements across processes
int child()
{
    // receives messages of the creator's regions, copies, keeps and destroys them
    vp::Rng r(vp::S().seed);
    Opt o;
    o.session = vp::optS("session", "");
    o.segId = static_cast<uint16_t>(vp::optU("seg", 0));
    auto n = std::make_unique<Node>("shmem", o);
    auto in = n->f->CreateSocket("pull", uniq("cin"));
    in->Connect(vp::optS("ep", ""));
    auto echo = n->f->CreateSocket("push", uniq("cout"));
    echo->Connect(vp::optS("back", ""));
    std::vector<MessagePtr> held;
    int bad = 0;
    while (true) {
        auto m = n->f->CreateMessage();
        if (r.chance(1, 5) && !held.empty()) { m = std::move(held.back()); held.pop_back(); }
        auto rc = in->Receive(m, 100);
        if (rc >= 0) {
            if (m->GetSize() < 9) { break; }   // end marker
            uint64_t tag = *static_cast<uint64_t*>(m->GetData());
            if (!same(static_cast<char*>(m->GetData()) + 8, m->GetSize() - 8, tag)) { ++bad; }
            for (unsigned i = r.below(4); i > 0; --i) { auto k = n->f->CreateMessage(); k->Copy(*m); held.push_back(std::move(k)); }
            if (r.chance(1, 3)) { if (echo->Send(m, 2000) < 0) { ++bad; } } else { held.push_back(std::move(m)); }
        }
        while (held.size() > 30 || (!held.empty() && r.chance(1, 3))) {
            size_t k = r.below(held.size());
            if (held[k]->GetSize() >= 9) {
                uint64_t tag = *static_cast<uint64_t*>(held[k]->GetData());
                if (!same(static_cast<char*>(held[k]->GetData()) + 8, held[k]->GetSize() - 8, tag)) { ++bad; }
            }
            std::swap(held[k], held.back());
            held.pop_back();
        }
    }
    held.clear();
    in.reset();
    echo.reset();
    n.reset();
    return bad ? 3 : 0;
}

void procCase(uint64_t, vp::Rng& r, const char* self)
{
    Opt o;
    Node n("shmem", o);
    unsigned kids = 1 + r.below(2);
    std::string desc = vp::fmt("%u other process(es)", kids);
    vp::phase("region ack processes");
    constexpr size_t B = 512, NB = 200;
    RegionConfig cfg;
    cfg.linger = 50;
    cfg.rcSegmentSize = r.pick(std::vector<uint64_t>{0, 1u << 20, 100000000});
    if (r.chance(1, 3)) { cfg.path = filesDir(); desc += " file"; }
    std::mutex mtx;
    std::vector<size_t> freeb;
    std::vector<uint64_t> tagOf(NB, 0);
    for (size_t i = 0; i < NB; ++i) { freeb.push_back(i); }
    std::atomic<uint64_t> acks{0};
    char* base = nullptr;
    auto ack = [&](void* p, size_t s, void* h) {
        vp::tick();
        size_t b = (static_cast<char*>(p) - base) / B;
        std::lock_guard<std::mutex> l(mtx);
        if (b >= NB || !tagOf[b] || reinterpret_cast<uint64_t>(h) != tagOf[b]) { vp::violation("region:ack-unknown", vp::fmt("block %zu hint %p acknowledged, in use by %llx (%s)", b, h, b < NB ? (unsigned long long)tagOf[b] : 0ull, desc.c_str())); return; }
        VP_CHECK(same(static_cast<char*>(p) + 8, s - 8, tagOf[b]), "region:content", "block changed before its acknowledgement (%s)", desc.c_str());
        memset(p, 0xee, s);   // whoever still uses it notices
        tagOf[b] = 0;
        freeb.push_back(b);
        ++acks;
    };
    auto reg = n.f->CreateUnmanagedRegion(B * NB, [&](void* p, size_t s, void* h) { ack(p, s, h); }, cfg);
    base = static_cast<char*>(reg->GetData());
    std::vector<std::unique_ptr<Socket>> outs;
    std::vector<pid_t> pids;
    auto back = n.f->CreateSocket("pull", uniq("back"));
    if (!back->Bind(address("ipc"))) { return; }
    for (unsigned k = 0; k < kids; ++k) {
        outs.push_back(n.f->CreateSocket("push", uniq("out")));
        if (!outs.back()->Bind(address("ipc"))) { return; }
        std::vector<std::string> a{self, "--mode=child", "--out=" + vp::S().out + ".child", "--ep=" + lastEndpoint(*outs.back()), "--back=" + lastEndpoint(*back), "--session=" + n.o.session, "--seg=" + std::to_string(r.below(2)), "--seed=" + std::to_string(r.next() >> 1), "--stall=60"};
        pid_t pid = fork();
        if (pid == 0) {
            std::vector<char*> v;
            for (auto& x : a) { v.push_back(const_cast<char*>(x.c_str())); }
            v.push_back(nullptr);
            execv(self, v.data());
            _exit(99);
        }
        pids.push_back(pid);
    }
    uint64_t sent = 0, echoed = 0, want = 150 + r.below(400);
    std::vector<MessagePtr> kept;
    auto pump = [&](int to) {
        auto m = n.f->CreateMessage();
        if (back->Receive(m, to) < 0) { return; }
        ++echoed;
        uint64_t tag = m->GetSize() > 8 ? *static_cast<uint64_t*>(m->GetData()) : 0;
        VP_CHECK(m->GetSize() > 8 && same(static_cast<char*>(m->GetData()) + 8, m->GetSize() - 8, tag), "region:content", "message came back changed (%s)", desc.c_str());
        if (r.chance(1, 2)) { kept.push_back(std::move(m)); }
        if (kept.size() > 10) { kept.erase(kept.begin()); }
    };
    double t0 = vp::now();
    while (sent < want && vp::now() - t0 < 60) {
        pump(0);
        size_t b;
        {
            std::lock_guard<std::mutex> l(mtx);
            if (freeb.empty()) { b = NB; } else { b = freeb.back(); freeb.pop_back(); }
        }
        if (b == NB) { pump(2); kept.clear(); continue; }
        t0 = vp::now();
        uint64_t tag = (r.next() | 1) >> 1 | 1;
        size_t s = 16 + r.below(B - 16);
        char* p = base + b * B;
        memcpy(p, &tag, 8);
        fill(p + 8, s - 8, tag);
        { std::lock_guard<std::mutex> l(mtx); tagOf[b] = tag; }
        auto m = n.f->CreateMessage(reg, p, s, reinterpret_cast<void*>(tag));
        if (r.chance(1, 3)) {
            auto k = n.f->CreateMessage();
            k->Copy(*m);
            if (r.chance(1, 2)) { std::swap(k, m); }
            if (kids > 1 && r.chance(1, 2)) { outs[1]->Send(k, 3000); }
            else { kept.push_back(std::move(k)); }
        }
        outs[r.below(kids)]->Send(m, 3000);
        ++sent;
        vp::tick();
    }
    for (auto& x : outs) { auto m = n.f->CreateMessage(4); x->Send(m, 3000); }
    for (auto p : pids) {
        int st = 0;
        double t = vp::now();
        while (waitpid(p, &st, WNOHANG) == 0) {
            pump(2);
            kept.clear();
            if (vp::now() - t > 40) { kill(p, SIGKILL); vp::violation("region:process-hang", "a receiving process does not end (" + desc + ")"); waitpid(p, &st, 0); break; }
        }
        VP_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "region:process", "receiving process ended with %x: 300 = it saw changed content (%s)", st, desc.c_str());
    }
    for (int i = 0; i < 50; ++i) { pump(0); }
    kept.clear();
    t0 = vp::now();
    while (acks < sent && vp::now() - t0 < 20) { pump(1); kept.clear(); }
    VP_CHECK(acks == sent, "region:ack-missing", "%llu of %llu acknowledgements (%s)", (unsigned long long)acks.load(), (unsigned long long)sent, desc.c_str());
    reg.reset();
    vp::count("acks", acks.load());
    vp::count("cross_process_messages", sent);
    vp::evaluated(vp::mix(sent, vp::mix(echoed, kids)));
    vp::sample(vp::fmt("%s: %llu messages, %llu came back", desc.c_str(), (unsigned long long)sent, (unsigned long long)echoed), 2);
}

// ================================================================ region events
struct Sub   // what the subscriptions of one device have reported
{
    std::mutex mtx;
    struct E { RegionInfo i; uint64_t gen; };
    std::vector<E> log;
    std::atomic<uint64_t> gen{0}, lo{0};       // current subscription, 0 = none
    std::atomic<int> inside{0};
    std::atomic<bool> always{true};     // subscribed without a gap since the case began
    size_t countOf(uint64_t id, bool managed, RegionEvent e)
    {
        std::lock_guard<std::mutex> l(mtx);
        size_t n = 0;
        for (auto& x : log) { if (x.i.id == id && x.i.managed == managed && x.i.event == e) { ++n; } }
        return n;
    }
};

struct RegObs { uint64_t id; unsigned node; size_t size; int64_t flags; void* ptr; uint64_t sig; bool patient; };

void eventCase(uint64_t, vp::Rng& r)
{
    bool zmq = r.chance(1, 4);
    unsigned nn = zmq ? 1 : 1 + r.below(3);
    unsigned creators = 1 + r.below(3);
    std::string session = newSession();
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<std::unique_ptr<Sub>> subs;
    std::mutex omtx;
    std::vector<RegObs> obs;
    std::set<uint64_t> live, ever;
    std::string desc = vp::fmt("%s %u device(s) %u creators", zmq ? "zeromq" : "shmem", nn, creators);
    vp::phase("region events " + desc);
    bool ownSegs = r.chance(1, 2);
    std::set<uint16_t> segs;
    for (unsigned i = 0; i < nn; ++i) {
        Opt o;
        o.session = session;
        o.segId = static_cast<uint16_t>(ownSegs ? i * 3 : 0);
        o.segSize = (2u << 20) + i * 65536;
        segs.insert(o.segId);
        nodes.push_back(std::make_unique<Node>(zmq ? "zeromq" : "shmem", o));
        subs.push_back(std::make_unique<Sub>());
    }
    auto subscribe = [&](unsigned i) {
        auto s = subs[i].get();
        uint64_t g = s->gen.load() + 1;
        s->gen = g;
        bool nosy = r.chance(1, 2);
        auto fac = nodes[i]->f.get();
        // replacing a subscription ends the old one when SubscribeToRegionEvents returns, not before
        nodes[i]->f->SubscribeToRegionEvents([s, g, nosy, fac, &desc](RegionInfo info) {
            s->inside.fetch_add(1);
            if (nosy) { fac->GetRegionInfo(); }
            if (g < s->lo.load() || g > s->gen.load()) { vp::violation("events:after-unsubscribe", "a callback ran although its subscription was over (" + desc + ")"); }
            { std::lock_guard<std::mutex> l(s->mtx); s->log.push_back({info, g}); }
            vp::perturbPoint();
            s->inside.fetch_sub(1);
            vp::tick();
        });
        s->lo = g;
        VP_CHECK(nodes[i]->f->SubscribedToRegionEvents(), "events:subscribed", "not subscribed after subscribing");
    };
    auto unsubscribe = [&](unsigned i) {
        nodes[i]->f->UnsubscribeFromRegionEvents();
        VP_CHECK(subs[i]->inside.load() == 0, "events:after-unsubscribe", "a callback runs although unsubscribing has returned (%s)", desc.c_str());
        subs[i]->lo = subs[i]->gen.load() + 1;
        VP_CHECK(!nodes[i]->f->SubscribedToRegionEvents(), "events:subscribed", "subscribed after unsubscribing");
    };
    std::vector<bool> toggles(nn);
    for (unsigned i = 0; i < nn; ++i) { toggles[i] = r.chance(1, 3); if (toggles[i]) { subs[i]->always = false; } }
    unsigned first = r.below(2);
    if (first) { for (unsigned i = 0; i < nn; ++i) { subscribe(i); } }
    else { for (unsigned i = 0; i < nn; ++i) { subs[i]->always = toggles[i] ? false : true; } }
    vp::resetScheduleHash();
    vp::perturb(r.below(4), r.next());
    std::atomic<bool> stop{false};
    std::atomic<unsigned> running{creators};
    uint64_t cseed = r.next();
    std::atomic<uint16_t> nextId{1};
    auto creator = [&](unsigned k) {
        vp::Rng q(cseed, k);
        unsigned node = k % nn;
        auto& n = *nodes[node];
        size_t cnt = 1 + q.below(3);
        for (size_t j = 0; j < cnt; ++j) {
            RegObs o{};
            o.node = node;
            o.size = 4096 * (1 + q.below(8)) ;
            o.flags = static_cast<int64_t>(q.next() >> 2);
            o.patient = q.chance(2, 3);
            RegionConfig cfg;
            cfg.linger = 1;
            cfg.userFlags = o.flags;
            cfg.rcSegmentSize = q.pick(std::vector<uint64_t>{0, 65536});
            if (!zmq && q.chance(1, 3)) { cfg.id = nextId.fetch_add(1); }
            if (!zmq && q.chance(1, 6)) { cfg.path = filesDir(); }
            bool cb = q.chance(2, 3);
            auto reg = cb ? n.f->CreateUnmanagedRegion(o.size, [](void*, size_t, void*) {}, cfg) : n.f->CreateUnmanagedRegion(o.size, RegionCallback(nullptr), cfg);
            o.id = reg->GetId();
            o.ptr = reg->GetData();
            VP_CHECK(reg->GetSize() == o.size, "events:size", "region of %zu bytes reports %zu", o.size, reg->GetSize());
            if (cfg.id) { VP_CHECK(o.id == *cfg.id, "events:id", "region asked for id %u got %llu", *cfg.id, (unsigned long long)o.id); }
            o.sig = q.next();
            memcpy(o.ptr, &o.sig, 8);
            {
                std::lock_guard<std::mutex> l(omtx);
                VP_CHECK(live.insert(o.id).second, "events:id-reused", "id %llu given to two live regions (%s)", (unsigned long long)o.id, desc.c_str());
                if (!zmq) { VP_CHECK(ever.insert(o.id).second, "events:id-reused", "id %llu used twice in a session (%s)", (unsigned long long)o.id, desc.c_str()); }
                obs.push_back(o);
            }
            vp::tick();
            auto inList = [&](Node& x, bool want) {
                for (auto& i : x.f->GetRegionInfo()) {
                    if (!i.managed && i.id == o.id && i.event == RegionEvent::created) {
                        if (want) {
                            VP_CHECK(i.size == o.size && i.flags == o.flags, "events:list-info", "region %llu of %zu bytes flags %lld listed with %zu, %lld (%s)", (unsigned long long)o.id, o.size, (long long)o.flags, i.size, (long long)i.flags, desc.c_str());
                            VP_CHECK(i.ptr && *static_cast<uint64_t*>(i.ptr) == o.sig, "events:list-content", "region %llu is not reachable through the list (%s)", (unsigned long long)o.id, desc.c_str());
                        }
                        return true;
                    }
                }
                return false;
            };
            if (q.chance(1, 2)) {
                auto& x = *nodes[q.below(nn)];
                VP_CHECK(inList(x, true), "events:list-missing", "live region %llu%s is not in the list of regions (%s)", (unsigned long long)o.id, cfg.path.empty() ? "" : " with file", desc.c_str());
            }
            if (o.patient) {
                for (unsigned s = 0; s < nn; ++s) {
                    if (!subs[s]->always || !first) { continue; }
                    double t = vp::now();
                    while (subs[s]->countOf(o.id, false, RegionEvent::created) == 0 && vp::now() - t < 20) { vp::sleepMs(2); vp::tick(); }
                    VP_CHECK(subs[s]->countOf(o.id, false, RegionEvent::created) == 1, "events:created-missing", "subscriber of device %u was told %zu times that region %llu%s exists (%s)", s, subs[s]->countOf(o.id, false, RegionEvent::created), (unsigned long long)o.id, cfg.path.empty() ? "" : " with file", desc.c_str());
                }
            } else { vp::sleepUs(static_cast<long>(q.below(3) ? q.below(3000) : q.below(80000))); }
            { std::lock_guard<std::mutex> l(omtx); live.erase(o.id); }
            reg.reset();
            if (q.chance(1, 2)) { VP_CHECK(!inList(n, false) || zmq, "events:list-stale", "region %llu is listed after it was destroyed (%s)", (unsigned long long)o.id, desc.c_str()); }
            if (o.patient) {
                for (unsigned s = 0; s < nn; ++s) {
                    if (!subs[s]->always || !first) { continue; }
                    double t = vp::now();
                    while (subs[s]->countOf(o.id, false, RegionEvent::destroyed) == 0 && vp::now() - t < 20) { vp::sleepMs(2); vp::tick(); }
                    VP_CHECK(subs[s]->countOf(o.id, false, RegionEvent::destroyed) >= 1, "events:destroyed-missing", "subscriber of device %u was not told that region %llu%s is gone (%s)", s, (unsigned long long)o.id, cfg.path.empty() ? "" : " with file", desc.c_str());
                }
            }
        }
        running.fetch_sub(1);
    };
    uint64_t tseed = r.next();
    vp::runThreads(creators + 1, [&](unsigned t) {
        if (t < creators) { creator(t); return; }
        vp::Rng q(tseed);
        if (!first) { vp::sleepMs(static_cast<long>(q.below(20))); for (unsigned i = 0; i < nn; ++i) { subscribe(i); } }
        while (running.load() > 0) {
            unsigned i = q.below(nn);
            if (toggles[i]) {
                if (nodes[i]->f->SubscribedToRegionEvents()) { if (q.chance(3, 4)) { unsubscribe(i); } else { subscribe(i); } }
                else { subscribe(i); }
            }
            vp::sleepUs(static_cast<long>(q.below(30000)));
            vp::tick();
        }
    });
    // quiescence: everything that is to be told has been told
    for (unsigned i = 0; i < nn; ++i) { if (!nodes[i]->f->SubscribedToRegionEvents()) { subscribe(i); } }
    for (unsigned s = 0; s < nn; ++s) {
        // a last region, seen by all, flushes whatever was due before
        RegionConfig cfg;
        cfg.linger = 1;
        cfg.rcSegmentSize = 0;
        auto reg = nodes[s]->f->CreateUnmanagedRegion(4096, RegionCallback(nullptr), cfg);
        uint64_t id = reg->GetId();
        for (unsigned k = 0; k < nn; ++k) {
            double t = vp::now();
            while (subs[k]->countOf(id, false, RegionEvent::created) == 0 && vp::now() - t < 20) { vp::sleepMs(2); }
            VP_CHECK(subs[k]->countOf(id, false, RegionEvent::created) == 1, "events:created-missing", "subscriber of device %u was not told that region %llu exists (%s)", k, (unsigned long long)id, desc.c_str());
        }
        reg.reset();
        for (unsigned k = 0; k < nn; ++k) {
            double t = vp::now();
            while (subs[k]->countOf(id, false, RegionEvent::destroyed) == 0 && vp::now() - t < 20) { vp::sleepMs(2); }
            VP_CHECK(subs[k]->countOf(id, false, RegionEvent::destroyed) == 1, "events:destroyed-missing", "subscriber of device %u was not told that region %llu is gone (%s)", k, (unsigned long long)id, desc.c_str());
        }
    }
    for (unsigned i = 0; i < nn; ++i) { unsubscribe(i); }
    vp::perturb(0, 1);
    uint64_t sched = vp::scheduleHash();
    uint64_t told = 0;
    for (unsigned s = 0; s < nn; ++s) {
        auto& S = *subs[s];
        std::lock_guard<std::mutex> l(S.mtx);
        std::map<std::pair<uint64_t, bool>, std::vector<RegionInfo>> per;
        for (auto& e : S.log) { per[{e.i.id, e.i.managed}].push_back(e.i); ++told; }
        for (auto& x : obs) {
            auto it = per.find({x.id, false});
            if (it == per.end()) {
                VP_CHECK(!(x.patient && S.always && first), "events:created-missing", "region %llu was never reported (%s)", (unsigned long long)x.id, desc.c_str());
                continue;
            }
            auto& v = it->second;
            bool ok = v.size() == 2 && v[0].event == RegionEvent::created && v[1].event == RegionEvent::destroyed;
            VP_CHECK(ok, "events:sequence", "region %llu: %zu events, first %d last %d (%s)", (unsigned long long)x.id, v.size(), static_cast<int>(v[0].event), static_cast<int>(v.back().event), desc.c_str());
            VP_CHECK(v[0].size == x.size && v[0].flags == x.flags, "events:info", "region %llu of %zu bytes flags %lld reported as %zu, %lld (%s)", (unsigned long long)x.id, x.size, (long long)x.flags, v[0].size, (long long)v[0].flags, desc.c_str());
            if (x.node == s) { VP_CHECK(v[0].ptr == x.ptr, "events:ptr", "region %llu reported at another address than its owner's (%s)", (unsigned long long)x.id, desc.c_str()); }
        }
        if (zmq) {
            VP_CHECK((per[{0, true}].size() == 1 && per[{0, true}][0].event == RegionEvent::local_only), "events:managed", "the local-only region was reported %zu times (%s)", (per[{0, true}].size()), desc.c_str());
        } else {
            for (auto g : segs) {
                auto& v = per[{g, true}];
                VP_CHECK(v.size() == 1 && v[0].event == RegionEvent::created && v[0].ptr && v[0].size >= (2u << 20), "events:managed", "managed segment %u was reported %zu times (%s)", g, v.size(), desc.c_str());
            }
        }
    }
    nodes.clear();
    vp::count("regions", obs.size());
    vp::count("events", told);
    vp::evaluated(vp::mix(vp::hash(desc), vp::mix(sched, cseed)), told > 0);
    vp::interleaving(sched);
    vp::sample(desc + vp::fmt(": %zu regions, %llu events", obs.size(), (unsigned long long)told), 4);
}

// many regions created at the same time by several threads
void idsCase(uint64_t, vp::Rng& r)
{
    bool zmq = r.chance(1, 2);
    unsigned nn = zmq ? 1 : 1 + r.below(2);
    std::string session = newSession();
    std::vector<std::unique_ptr<Node>> nodes;
    for (unsigned i = 0; i < nn; ++i) { Opt o; o.session = session; nodes.push_back(std::make_unique<Node>(zmq ? "zeromq" : "shmem", o)); }
    unsigned nt = 2 + r.below(4);
    std::string desc = vp::fmt("%s %u threads", zmq ? "zeromq" : "shmem", nt);
    vp::phase("region ids " + desc);
    vp::perturb(3, r.next());
    vp::resetScheduleHash();
    std::vector<std::vector<UnmanagedRegionPtr>> regs(nt);
    vp::runThreads(nt, [&](unsigned t) {
        for (int i = 0; i < 4; ++i) {
            RegionConfig cfg;
            cfg.linger = 1;
            cfg.rcSegmentSize = 0;
            regs[t].push_back(nodes[t % nn]->f->CreateUnmanagedRegion(4096, RegionCallback(nullptr), cfg));
            vp::tick();
        }
    });
    std::map<uint64_t, int> ids;
    for (auto& v : regs) { for (auto& x : v) { ++ids[x->GetId()]; } }
    for (auto& [id, n] : ids) { VP_CHECK(n == 1, "events:id-reused", "id %llu given to %d live regions created at the same time (%s)", (unsigned long long)id, n, desc.c_str()); }
    for (auto& n : nodes) {
        std::map<uint64_t, int> l;
        for (auto& i : n->f->GetRegionInfo()) { if (!i.managed && i.event == RegionEvent::created) { ++l[i.id]; } }
        VP_CHECK(l == ids, "events:list", "the list has %zu regions, %zu exist (%s)", l.size(), ids.size(), desc.c_str());
    }
    vp::runThreads(nt, [&](unsigned t) { regs[t].clear(); });
    for (auto& n : nodes) {
        for (auto& i : n->f->GetRegionInfo()) { VP_CHECK(i.managed || i.event != RegionEvent::created, "events:list-stale", "region %llu is listed though all were destroyed (%s)", (unsigned long long)i.id, desc.c_str()); }
    }
    vp::perturb(0, 1);
    vp::count("regions", ids.size());
    vp::evaluated(vp::mix(vp::hash(desc), vp::scheduleHash()));
    vp::interleaving(vp::scheduleHash());
}

}   // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    fair::Logger::SetConsoleSeverity(getenv("VP_LOG") ? getenv("VP_LOG") : "nolog");
    auto& m = vp::S().mode;
    char self[4096];
    ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
    self[k > 0 ? k : 0] = 0;
    if (m == "child") { return child(); }
    vp::watchdog();
    if (m == "ack") { vp::forCases(60, ackCase); }
    else if (m == "flood") { vp::forCases(1, floodCase); }
    else if (m == "reentrant") { vp::forCases(10, reentrantCase); }
    else if (m == "cross") { vp::forCases(30, crossCase); }
    else if (m == "proc") { vp::forCases(5, [&](uint64_t i, vp::Rng& r) { procCase(i, r, self); }); }
    else if (m == "events") { vp::forCases(20, eventCase); }
    else if (m == "ids") { vp::forCases(20, idsCase); }
    else { return 2; }
    return vp::finish();
}
