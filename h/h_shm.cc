// C04: shared memory is neither leaked, double-freed nor handed out twice.
#include "tx.h"

#include <sys/wait.h>

using namespace tx;

namespace
{

struct Case;
struct Rec   // one buffer
{
    uint64_t id = 0;
    size_t size = 0;             // as requested
    unsigned seg = 0;
    uint64_t off = 0;            // where it lies in its segment
    bool listed = false;
    std::atomic<int> holders{0};
};
struct H { MessagePtr m; Rec* r = nullptr; size_t sz = 0; };

struct Case
{
    std::string desc;
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<char*> base;     // of the own segment, per node
    std::mutex mtx;
    std::map<unsigned, std::map<uint64_t, Rec*>> live;   // buffers in use, per segment, by offset
    std::deque<std::unique_ptr<Rec>> recs;
    std::atomic<long long> inFlight{0};
    Rec* fresh() { std::lock_guard<std::mutex> l(mtx); recs.push_back(std::make_unique<Rec>()); recs.back()->id = recs.size(); return recs.back().get(); }
    Rec* byId(uint64_t id) { std::lock_guard<std::mutex> l(mtx); return id && id <= recs.size() ? recs[id - 1].get() : nullptr; }
    void list(Rec* r, unsigned seg, uint64_t off, size_t size, const char* when)
    {
        std::lock_guard<std::mutex> l(mtx);
        r->seg = seg;
        r->off = off;
        r->size = size;
        if (size == 0) { return; }
        auto& m = live[seg];
        auto it = m.lower_bound(off);
        if (it != m.end() && it->first < off + size) { vp::violation("shm:overlap", vp::fmt("buffer of %zu bytes at offset %llu %s overlaps a live one of %zu bytes at %llu (%s)", size, (unsigned long long)off, when, it->second->size, (unsigned long long)it->first, desc.c_str())); }
        if (it != m.begin()) { --it; if (it->first + it->second->size > off) { vp::violation("shm:overlap", vp::fmt("buffer of %zu bytes at offset %llu %s overlaps a live one of %zu bytes at %llu (%s)", size, (unsigned long long)off, when, it->second->size, (unsigned long long)it->first, desc.c_str())); } }
        m[off] = r;
        r->listed = true;
    }
    void unlist(Rec* r)
    {
        std::lock_guard<std::mutex> l(mtx);
        if (!r->listed) { return; }
        auto& m = live[r->seg];
        auto it = m.find(r->off);
        if (it != m.end() && it->second == r) { m.erase(it); }
        r->listed = false;
    }
};

struct Worker
{
    Case* c = nullptr;
    unsigned id = 0, node = 0;
    vp::Rng r{1};
    TransportFactory* f = nullptr;
    std::unique_ptr<Socket> in;
    std::vector<std::unique_ptr<Socket>> out;
    std::unique_ptr<Socket> deadEnd;   // nobody ever receives from this one
    uint64_t refused = 0;
    std::vector<H> hs;
    size_t ops = 0, maxSize = 4096;
    uint64_t created = 0, copies = 0, recvd = 0, failed = 0, rebuilt = 0, shrunk = 0, discarded = 0;

    uint64_t offset(Message& m) { return static_cast<char*>(m.GetData()) - c->base[node]; }
    unsigned seg() { return c->nodes[node]->o.segId; }
    void verify(H& h, const char* when)
    {
        VP_CHECK(h.m->GetSize() == h.sz, "shm:size", "message of %zu bytes reports %zu %s (%s)", h.sz, h.m->GetSize(), when, c->desc.c_str());
        if (h.sz && !same(h.m->GetData(), h.sz, h.r->id)) { vp::violation("shm:content", vp::fmt("a live buffer of %zu bytes changed, seen %s (%s)", h.sz, when, c->desc.c_str())); }
    }
    size_t size()
    {
        switch (r.below(8)) {
            case 0: return 0;
            case 1: return 1 + r.below(16);
            case 2: case 3: return 1 + r.below(200);
            case 4: case 5: return 1 + r.below(5000);
            case 6: return 1 + r.below(maxSize);
            default: return maxSize / 2 + r.below(maxSize);
        }
    }
    void adopt(H& h)
    {
        fill(h.m->GetData(), h.sz, h.r->id);
    }
    bool create()
    {
        size_t s = size();
        H h;
        h.r = c->fresh();
        h.sz = s;
        try {
            size_t al = size_t(1) << r.below(13);
            switch (r.below(s ? 4 : 3)) {
                case 0: h.m = f->CreateMessage(s); break;
                case 1: h.m = f->CreateMessage(s, Alignment{al}); break;
                case 2: h.m = f->CreateMessage(); h.m->Rebuild(s, Alignment{al}); break;
                default: {
                    auto p = new char[s];
                    fill(p, s, h.r->id);
                    // a buffer is taken over unless creating the message fails
                    try { h.m = f->CreateMessage(p, s, [](void* d, void*) { delete[] static_cast<char*>(d); }, nullptr); }
                    catch (MessageBadAlloc&) { delete[] p; throw; }
                }
            }
        } catch (MessageBadAlloc&) { ++failed; return false; }
        VP_CHECK(h.m->GetSize() == s, "shm:size", "message of %zu bytes created with %zu (%s)", s, h.m->GetSize(), c->desc.c_str());
        if (s) { c->list(h.r, seg(), offset(*h.m), s, "just created"); }
        adopt(h);
        h.r->holders = 1;
        hs.push_back(std::move(h));
        ++created;
        return true;
    }
    void release(H& h)   // to be called before the message loses its buffer
    {
        if (h.r->holders.fetch_sub(1) == 1) { c->unlist(h.r); }
    }
    void destroy(size_t i)
    {
        verify(hs[i], "before it was destroyed");
        release(hs[i]);
        hs[i].m.reset();
        if (i + 1 != hs.size()) { hs[i] = std::move(hs.back()); }
        hs.pop_back();
    }
    void copy()
    {
        if (hs.empty()) { return; }
        size_t i = r.below(hs.size());
        H n;
        n.r = hs[i].r;
        n.sz = hs[i].sz;
        bool onto = hs.size() > 1 && r.chance(1, 3);
        size_t j = onto ? r.below(hs.size()) : i;
        if (onto && j != i) {
            verify(hs[j], "before a copy onto it");
            n.r->holders.fetch_add(1);
            release(hs[j]);
            hs[j].m->Copy(*hs[i].m);
            hs[j].r = n.r;
            hs[j].sz = n.sz;
            verify(hs[j], "after a copy onto it");
        } else {
            n.r->holders.fetch_add(1);
            n.m = f->CreateMessage();
            n.m->Copy(*hs[i].m);
            verify(n, "after copying");
            hs.push_back(std::move(n));
        }
        ++copies;
    }
    void rebuild()
    {
        if (hs.empty()) { return; }
        H& h = hs[r.below(hs.size())];
        size_t s = size();
        verify(h, "before it was rebuilt");
        release(h);
        Rec* n = c->fresh();
        n->holders = 1;
        try {
            unsigned k = r.below(4);
            if (k == 0) { h.m->Rebuild(); s = 0; }
            else if (k == 1 && s) { auto p = new char[s]; try { h.m->Rebuild(p, s, [](void* d, void*) { delete[] static_cast<char*>(d); }, nullptr); } catch (MessageBadAlloc&) { delete[] p; throw; } }
            else if (k == 2) { h.m->Rebuild(s, Alignment{size_t(1) << r.below(13)}); }
            else { h.m->Rebuild(s); }
        } catch (MessageBadAlloc&) {
            // the message is without a buffer now
            ++failed;
            h.m.reset();
            h.m = f->CreateMessage();
            s = 0;
        }
        h.r = n;
        h.sz = s;
        if (s) { c->list(n, seg(), offset(*h.m), s, "after rebuilding"); }
        adopt(h);
        ++rebuilt;
    }
    void shrink()
    {
        if (hs.empty()) { return; }
        H& h = hs[r.below(hs.size())];
        if (h.sz < 2) { return; }
        size_t s = r.chance(1, 8) ? 0 : 1 + r.below(h.sz - 1);
        bool single = h.r->holders.load() == 1;
        bool mine = single && h.r->seg == seg();
        if (single) { c->unlist(h.r); }   // elsewhere it may move: no longer tracked by address
        if (s == 0) { release(h); }
        bool ok = h.m->SetUsedSize(s);
        VP_CHECK(ok, "shm:shrink", "SetUsedSize(%zu) of %zu refused (%s)", s, h.sz, c->desc.c_str());
        if (s == 0) { h.r = c->fresh(); h.r->holders = 1; h.sz = 0; }
        else {
            h.sz = s;
            if (mine) { c->list(h.r, seg(), offset(*h.m), s, "after shrinking"); }
        }
        verify(h, "after shrinking");
        ++shrunk;
    }
    void send()
    {
        if (hs.empty() || out.empty()) { return; }
        if (deadEnd && r.chance(1, 5) && !hs.empty()) {
            // cannot be sent: they stay ours
            size_t n = std::min<size_t>(hs.size(), 1 + r.below(4));
            int to = r.chance(1, 4) ? 3 : 0;
            if (n == 1 && r.chance(1, 2)) {
                VP_CHECK(deadEnd->Send(hs.back().m, to) < 0, "shm:no-peer", "a message was sent without a peer (%s)", c->desc.c_str());
            } else {
                Parts p;
                for (size_t i = 0; i < n; ++i) { p.AddPart(std::move(hs[hs.size() - n + i].m)); }
                VP_CHECK(deadEnd->Send(p, to) < 0, "shm:no-peer", "a message was sent without a peer (%s)", c->desc.c_str());
                for (size_t i = 0; i < n; ++i) { hs[hs.size() - n + i].m = std::move(p.At(i)); }
            }
            for (size_t i = 0; i < n; ++i) { verify(hs[hs.size() - n + i], "after it could not be sent"); }
            ++refused;
            return;
        }
        auto& o = *out[r.below(out.size())];
        if (r.chance(1, 3)) {
            // single part, described by its own content
            size_t i = r.below(hs.size());
            if (hs[i].sz < 24) { return; }
            H h = std::move(hs[i]);
            hs[i] = std::move(hs.back());
            hs.pop_back();
            uint64_t w[3] = {0x51e9a4ull, h.r->id, h.sz};
            Parts p;
            auto hdr = f->CreateMessage();
            try { hdr->Rebuild(sizeof w); } catch (MessageBadAlloc&) { ++failed; hs.push_back(std::move(h)); return; }
            memcpy(hdr->GetData(), w, sizeof w);
            p.AddPart(std::move(hdr));
            c->inFlight.fetch_add(1);
            p.AddPart(std::move(h.m));
            if (o.Send(p, 10) < 0) { c->inFlight.fetch_sub(1); h.m = std::move(p.At(1)); verify(h, "after a failed send"); hs.push_back(std::move(h)); }
            return;
        }
        size_t n = std::min<size_t>(hs.size(), 1 + r.below(5));
        Parts p;
        MessagePtr hdr;
        try { hdr = f->CreateMessage(8 + 16 * n); } catch (MessageBadAlloc&) { ++failed; return; }
        auto w = static_cast<uint64_t*>(hdr->GetData());
        w[0] = n;
        std::vector<H> taken;
        for (size_t i = 0; i < n; ++i) {
            size_t k = r.below(hs.size());
            H h = std::move(hs[k]);
            hs[k] = std::move(hs.back());
            hs.pop_back();
            w[1 + 2 * i] = h.r->id;
            w[2 + 2 * i] = h.sz;
            taken.push_back(std::move(h));
        }
        p.AddPart(std::move(hdr));
        for (auto& h : taken) { p.AddPart(std::move(h.m)); }
        c->inFlight.fetch_add(1);
        if (o.Send(p, 10) < 0) {
            c->inFlight.fetch_sub(1);
            for (size_t i = 0; i < n; ++i) { taken[i].m = std::move(p.At(i + 1)); verify(taken[i], "after a failed send"); hs.push_back(std::move(taken[i])); }
        }
    }
    bool receive(int to)
    {
        Parts p;
        if (r.chance(1, 4)) {
            // into a container that already holds something
            try { p.AddPart(f->CreateMessage(100)); } catch (MessageBadAlloc&) { ++failed; }
            p.Clear();
        }
        if (in->Receive(p, to) < 0) { return false; }
        auto w = static_cast<uint64_t*>(p[0].GetData());
        bool single = p[0].GetSize() == 24 && w[0] == 0x51e9a4ull;
        size_t n = single ? 1 : w ? w[0] : 0;
        if (!w || n < 1 || n > 5 || p.Size() != n + 1) {
            vp::violation("shm:parts", vp::fmt("received %zu parts for %zu messages (%s)", p.Size(), n, c->desc.c_str()));
            c->inFlight.fetch_sub(1);
            return true;
        }
        if (r.chance(1, 10)) {
            // discard unseen
            for (size_t i = 0; i < n; ++i) { H h; h.r = c->byId(w[1 + 2 * i]); release(h); }
            discarded += n;
        } else {
            for (size_t i = 0; i < n; ++i) {
                H h;
                h.r = c->byId(w[1 + 2 * i]);
                h.sz = w[2 + 2 * i];
                h.m = std::move(p.At(1 + i));
                if (!h.r) { vp::violation("shm:content", "a transfer header changed (" + c->desc + ")"); continue; }
                verify(h, "on arrival");
                hs.push_back(std::move(h));
            }
        }
        recvd += n;
        c->inFlight.fetch_sub(1);
        return true;
    }
    void run()
    {
        for (size_t i = 0; i < ops; ++i) {
            vp::tick();
            unsigned k = r.below(100);
            if (k < 28) { if (hs.size() < 80) { create(); } else { destroy(r.below(hs.size())); } }
            else if (k < 42) { copy(); }
            else if (k < 56) { send(); }
            else if (k < 70) { if (in) { receive(0); } }
            else if (k < 75) { shrink(); }
            else if (k < 80) { rebuild(); }
            else if (k < 82) { for (size_t j = r.below(60); j > 0 && hs.size() < 200; --j) { create(); } }
            else if (k < 83) { while (hs.size() > 5) { destroy(r.below(hs.size())); } }
            else if (!hs.empty()) { destroy(r.below(hs.size())); }
            if (i % 32 == 0) { for (auto& h : hs) { verify(h, "while held"); } }
        }
    }
    void drain()
    {
        double t = vp::now();
        while (c->inFlight.load() > 0 && vp::now() - t < 30) { if (in) { receive(5); } while (hs.size() > 50) { destroy(0); } vp::tick(); }
    }
};

void threadsCase(uint64_t, vp::Rng& r)
{
    auto c = std::make_unique<Case>();
    unsigned nn = 1 + r.below(3);
    unsigned nw = 1 + r.below(5);
    if (nw < nn) { nw = nn; }
    std::string session = newSession();
    bool ownSeg = r.chance(1, 2);
    std::set<unsigned> segs;
    bool tight = r.chance(1, 3);
    size_t meta = r.pick(std::vector<size_t>{0, 0, 64, 2048});
    for (unsigned i = 0; i < nn; ++i) {
        Opt o;
        o.session = session;
        o.segSize = tight ? 300000 + r.below(700000) : 8u << 20;
        o.segId = static_cast<uint16_t>(ownSeg ? i * 7 : 0);
        o.alloc = ownSeg ? (r.chance(1, 3) ? "simple_seq_fit" : "rbtree_best_fit") : (session.size() % 2 ? "simple_seq_fit" : "rbtree_best_fit");
        o.meta = meta;
        o.attempts = 1 + r.below(3);
        o.interval = 1;
        segs.insert(o.segId);
        c->nodes.push_back(std::make_unique<Node>("shmem", o));
        char* b = nullptr;
        for (auto& x : c->nodes[i]->f->GetRegionInfo()) { if (x.managed && x.id == o.segId) { b = static_cast<char*>(x.ptr); } }
        if (!b) { vp::violation("shm:segment", "own segment is not listed"); return; }
        c->base.push_back(b);
    }
    c->desc = vp::fmt("%u device(s), %s, %u threads, %s %s, meta %zu", nn, ownSeg ? "own segments" : "one segment", nw, c->nodes[0]->o.alloc.c_str(), tight ? "tight" : "roomy", meta);
    vp::phase("shm: " + c->desc);
    std::map<unsigned, unsigned long> before;
    auto id = c->nodes[0]->shmId();
    for (auto s : segs) { before[s] = shmem::Monitor::GetFreeMemory(id, static_cast<uint16_t>(s)); }
    std::vector<std::unique_ptr<Worker>> ws;
    for (unsigned i = 0; i < nw; ++i) {
        auto w = std::make_unique<Worker>();
        w->c = c.get();
        w->id = i;
        w->node = i % nn;
        w->r = vp::Rng(r.next());
        w->f = c->nodes[w->node]->f.get();
        w->ops = vp::optU("ops", 150) + r.below(500);
        w->maxSize = tight ? 60000 : r.chance(1, 4) ? 1200000 : 20000;
        ws.push_back(std::move(w));
    }
    std::vector<std::string> eps;
    for (auto& w : ws) {
        w->in = w->f->CreateSocket("pull", uniq("in"));
        std::string a = address(nn == 1 && r.chance(1, 2) ? "inproc" : "ipc");
        if (!w->in->Bind(a)) { vp::violation("shm:bind", a); return; }
        eps.push_back(lastEndpoint(*w->in));
        w->deadEnd = w->f->CreateSocket("push", uniq("dead"));
        if (!w->deadEnd->Bind(address("ipc"))) { vp::violation("shm:bind", "dead end"); return; }
    }
    for (auto& w : ws) {
        for (auto& e : eps) {
            w->out.push_back(w->f->CreateSocket("push", uniq("out")));
            w->out.back()->SetLinger(0);
            if (r.chance(1, 3)) { w->out.back()->SetSndBufSize(1 + r.below(5)); }
            w->out.back()->Connect(e);
        }
    }
    vp::resetScheduleHash();
    vp::perturb(nw > 1 ? r.below(4) : 0, r.next());
    vp::runThreads(nw, [&](unsigned i) { ws[i]->run(); });
    vp::runThreads(nw, [&](unsigned i) { ws[i]->drain(); });
    VP_CHECK(c->inFlight.load() == 0, "shm:in-flight", "%lld transfers never arrived (%s)", (long long)c->inFlight.load(), c->desc.c_str());
    vp::runThreads(nw, [&](unsigned i) { while (!ws[i]->hs.empty()) { ws[i]->destroy(ws[i]->r.below(ws[i]->hs.size())); } });
    uint64_t sched = vp::scheduleHash();
    vp::perturb(0, 1);
    for (auto& w : ws) { w->in.reset(); w->out.clear(); w->deadEnd.reset(); }
    bool arrived = c->inFlight.load() == 0;
    for (auto s : segs) {
        auto now = shmem::Monitor::GetFreeMemory(id, static_cast<uint16_t>(s));
        if (arrived) { VP_CHECK(now == before[s], "shm:conservation", "segment %u had %lu bytes free before and %lu after all messages were gone (%s)", s, before[s], now, c->desc.c_str()); }
    }
    VP_CHECK(c->live.empty() || std::all_of(c->live.begin(), c->live.end(), [](auto& x) { return x.second.empty(); }), "shm:monitor", "monitor error: live buffers remain");
    // the space is really there again, in one piece
    for (auto& n : c->nodes) {
        try {
            auto m = n->f->CreateMessage(before[n->o.segId] - 4096);
            memset(m->GetData(), 1, m->GetSize());
        } catch (MessageBadAlloc&) { vp::violation("shm:fragmented", vp::fmt("an empty segment cannot hold %lu bytes (%s)", before[n->o.segId] - 4096, c->desc.c_str())); }
    }
    uint64_t cr = 0, cp = 0, rc = 0, fl = 0, rb = 0, sh = 0, di = 0;
    for (auto& w : ws) { cr += w->created; cp += w->copies; rc += w->recvd; fl += w->failed; rb += w->rebuilt; sh += w->shrunk; di += w->discarded; vp::count("sends_refused", w->refused); }
    ws.clear();
    c->nodes.clear();
    vp::count("buffers", cr + rb);
    vp::count("copies", cp);
    vp::count("transferred", rc);
    vp::count("failed_allocations", fl);
    vp::count("shrunk", sh);
    vp::count("discarded_unseen", di);
    vp::evaluated(vp::mix(vp::hash(c->desc), vp::mix(sched, cr)), cr > 0);
    vp::interleaving(sched);
    vp::sample(c->desc + vp::fmt(": %llu buffers, %llu copies, %llu transferred, %llu failed allocations", (unsigned long long)(cr + rb), (unsigned long long)cp, (unsigned long long)rc, (unsigned long long)fl), 5);
}

// ---------------------------------------------------------------- allocation failure policy
void fullCase(uint64_t i, vp::Rng& r)
{
    Opt o;
    o.segSize = 200000 + r.below(200000);
    o.alloc = r.chance(1, 2) ? "simple_seq_fit" : "rbtree_best_fit";
    o.attempts = r.pick(std::vector<int>{1, 2, 3, 6, -1, -1});
    o.interval = r.pick(std::vector<int>{1, 5, 20});
    // intervals long enough to tell the number of attempts
    double slack = 5;
    if (i % 5 == 1) { o.attempts = 1; o.interval = 8000; slack = 4; }
    if (i % 20 == 3) { o.attempts = 2; o.interval = 1500; slack = 1.3; }
    Node n("shmem", o);
    std::string desc = vp::fmt("%s attempts %d interval %d ms", o.alloc.c_str(), o.attempts, o.interval);
    vp::phase("shm full: " + desc);
    unsigned long before = n.freeMem();
    vp::perturb(r.below(3), r.next());
    // larger than the segment: refused at once, whatever the policy
    {
        bool thrown = false;
        double t = vp::now();
        try { auto m = n.f->CreateMessage(o.segSize + 1 + r.below(100000)); } catch (MessageBadAlloc&) { thrown = true; }
        VP_CHECK(thrown, "shm:oversize", "a message larger than the segment was created (%s)", desc.c_str());
        VP_CHECK(vp::now() - t < 2, "shm:oversize", "refusing an oversized message took %.2f s (%s)", vp::now() - t, desc.c_str());
    }
    VP_CHECK(n.freeMem() == before, "shm:conservation", "a refused message took memory (%s)", desc.c_str());
    std::vector<MessagePtr> ms;
    std::vector<uint64_t> tags;
    size_t blk = 1000 + r.below(20000);
    uint64_t tag = 1;
    auto put = [&](MessagePtr m) { fill(m->GetData(), m->GetSize(), ++tag); ms.push_back(std::move(m)); tags.push_back(tag); };
    // fill up as far as one can without waiting
    while (true) {
        unsigned long fr = n.freeMem();
        if (fr < blk + 600) { break; }
        put(n.f->CreateMessage(blk));
        if (ms.size() > 1000) { break; }
    }
    // needs more than is free
    size_t want = n.freeMem() + 1000 + r.below(3000);
    unsigned how = r.below(3);
    auto grab = [&]() -> MessagePtr {
        if (how == 0) { return n.f->CreateMessage(want); }
        if (how == 1) { return n.f->CreateMessage(want, Alignment{256}); }
        auto m = n.f->CreateMessage();
        m->Rebuild(want);
        return m;
    };
    if (o.attempts > 0) {
        double t = vp::now();
        bool thrown = false;
        try { auto m = grab(); } catch (MessageBadAlloc&) { thrown = true; }
        double el = vp::now() - t;
        VP_CHECK(thrown, "shm:full", "%zu bytes were allocated with %lu free (%s)", want, n.freeMem(), desc.c_str());
        double min = (o.attempts - 1) * o.interval / 1000.0;
        VP_CHECK(el >= min * 0.95 - 0.001, "shm:attempts", "gave up after %.4f s, %d attempts every %d ms take at least %.4f s (%s)", el, o.attempts, o.interval, min, desc.c_str());
        VP_CHECK(el < min + slack, "shm:attempts", "gave up after %.4f s, expected about %.4f (%s)", el, min, desc.c_str());
        vp::count("refused_after_attempts");
    } else {
        // waits until there is room, or until it is interrupted
        bool interrupt = r.chance(1, 2);
        std::atomic<int> st{0};
        MessagePtr got;
        std::thread t([&] {
            try { got = grab(); st = 1; } catch (MessageBadAlloc&) { st = 2; }
        });
        vp::sleepMs(static_cast<long>(r.below(60)));
        VP_CHECK(st == 0, "shm:wait", "an allocation without a limit of attempts ended by itself: %d (%s)", st.load(), desc.c_str());
        if (interrupt) { n.f->Interrupt(); }
        else { size_t k = ms.size() / 2; (void)k; ms.clear(); }
        double t0 = vp::now();
        while (st == 0 && vp::now() - t0 < 10) { vp::sleepMs(1); }
        VP_CHECK(st == (interrupt ? 2 : 1), "shm:wait", "an allocation waiting for room ended with %d after %s (%s)", st.load(), interrupt ? "an interrupt" : "the room became free", desc.c_str());
        if (st == 0) { n.f->Interrupt(); ms.clear(); }
        t.join();
        n.f->Resume();
        if (interrupt) { vp::count("interrupted_waits"); } else { vp::count("satisfied_waits"); tags.clear(); }
        if (got) { VP_CHECK(got->GetSize() == want, "shm:size", "got %zu bytes, want %zu (%s)", got->GetSize(), want, desc.c_str()); memset(got->GetData(), 7, want); }
        got.reset();
    }
    // everything else is still usable
    for (size_t i = 0; i < ms.size(); ++i) { VP_CHECK(same(ms[i]->GetData(), ms[i]->GetSize(), tags[i]), "shm:content", "a message changed when an allocation failed (%s)", desc.c_str()); }
    auto a = n.f->CreateSocket("pair", uniq("a")), b = n.f->CreateSocket("pair", uniq("b"));
    std::string ep = address("inproc");
    if (a->Bind(ep) && b->Connect(ep) && !ms.empty()) {
        auto k = n.f->CreateMessage();
        k->Copy(*ms[0]);
        VP_CHECK(a->Send(k, 2000) >= 0, "shm:unusable", "cannot send after a failed allocation (%s)", desc.c_str());
        auto m = n.f->CreateMessage();
        VP_CHECK(b->Receive(m, 2000) >= 0, "shm:unusable", "cannot receive after a failed allocation (%s)", desc.c_str());
        VP_CHECK(m->GetSize() == ms[0]->GetSize() && same(m->GetData(), m->GetSize(), tags[0]), "shm:content", "wrong message after a failed allocation (%s)", desc.c_str());
    }
    if (ms.size() > 3) {
        // one freed block serves the next request
        size_t s = ms.back()->GetSize();
        ms.pop_back();
        try { auto m = n.f->CreateMessage(s); VP_CHECK(m->GetSize() == s, "shm:size", "wrong size"); }
        catch (MessageBadAlloc&) { vp::violation("shm:reuse", "a freed buffer's space is not available again (" + desc + ")"); }
    }
    ms.clear();
    a.reset();
    b.reset();
    VP_CHECK(n.freeMem() == before, "shm:conservation", "%lu bytes free before, %lu after (%s)", before, n.freeMem(), desc.c_str());
    vp::perturb(0, 1);
    vp::evaluated(vp::mix(vp::hash(desc), vp::mix(want, how)));
    vp::sample(desc, 4);
}

// ---------------------------------------------------------------- very many holders of one buffer
void manyCase(uint64_t i, vp::Rng& r)
{
    Opt o;
    Node n("shmem", o);
    unsigned long before = n.freeMem();
    unsigned kind = i % 3;   // managed buffer, region with ref-count segment, region without
    std::atomic<uint64_t> acks{0};
    UnmanagedRegionPtr reg;
    MessagePtr m;
    if (kind) {
        RegionConfig cfg;
        cfg.linger = 100;
        cfg.rcSegmentSize = kind == 1 ? 1u << 20 : 0;
        reg = n.f->CreateUnmanagedRegion(4096, [&](void*, size_t, void*) { ++acks; }, cfg);
        m = n.f->CreateMessage(reg, reg->GetData(), 1000, nullptr);
    } else { m = n.f->CreateMessage(1000); }
    fill(m->GetData(), 1000, 77);
    vp::phase(vp::fmt("shm many holders kind %u", kind));
    std::vector<MessagePtr> ks;
    uint64_t want = r.pick(std::vector<uint64_t>{65534, 65535, 65536, 65600, 70000}), refused = 0;
    for (uint64_t k = 0; k < want; ++k) {
        auto x = n.f->CreateMessage();
        try { x->Copy(*m); } catch (RefCountBadAlloc&) { ++refused; break; }
        VP_CHECK(x->GetSize() == 1000, "shm:size", "copy has %zu bytes", x->GetSize());
        ks.push_back(std::move(x));
        if (k % 1000 == 0) { vp::tick(); }
    }
    VP_CHECK(ks.size() >= 60000, "shm:many", "only %zu holders of one buffer", ks.size());
    // all but the last go away; the buffer must stay until then
    size_t keep = r.below(ks.size());
    std::swap(ks[keep], ks.front());
    m.reset();
    while (ks.size() > 1) {
        ks.pop_back();
        if (kind == 0 && (ks.size() % 4096 == 0 || ks.size() < 3)) {
            auto y = n.f->CreateMessage(1000);
            memset(y->GetData(), 0xaa, 1000);
            VP_CHECK(y->GetData() != ks[0]->GetData(), "shm:reused-alive", "a buffer with %zu holders of once %llu was handed out again", ks.size(), (unsigned long long)want + 1);
        }
        if (kind && ks.size() % 8192 == 0) { vp::sleepMs(1); VP_CHECK(acks == 0, "shm:acked-alive", "a region buffer was acknowledged with %zu holders left of once %llu", ks.size(), (unsigned long long)want + 1); }
        if (ks.size() % 1000 == 0) { vp::tick(); }
    }
    VP_CHECK(same(ks[0]->GetData(), 1000, 77), "shm:content", "a buffer changed while it had a holder (once %llu)", (unsigned long long)want + 1);
    VP_CHECK(acks == 0, "shm:acked-alive", "a region buffer was acknowledged with a holder left of once %llu", (unsigned long long)want + 1);
    ks.clear();
    if (kind) {
        double t = vp::now();
        while (acks == 0 && vp::now() - t < 10) { vp::sleepMs(2); }
        reg.reset();
        VP_CHECK(acks == 1, "shm:ack", "%llu acknowledgements of one region buffer with once %llu holders", (unsigned long long)acks.load(), (unsigned long long)want + 1);
    }
    VP_CHECK(n.freeMem() == before, "shm:conservation", "%lu bytes free before, %lu after a buffer with %llu holders", before, n.freeMem(), (unsigned long long)want + 1);
    vp::count("copies", want);
    vp::count("copies_refused", refused);
    vp::evaluated(vp::mix(kind, want));
    vp::sample(vp::fmt("kind %u: %llu holders wanted, %llu refused", kind, (unsigned long long)want + 1, (unsigned long long)refused), 3);
}

// ---------------------------------------------------------------- one buffer, its holders come and go on many threads at once
void stormCase(uint64_t i, vp::Rng& r)
{
    unsigned kind = i % 3;   // managed buffer, region with ref-count segment, region without
    unsigned nn = 1 + (i / 3) % 2;
    unsigned nt = 2 + r.below(5);
    std::string session = newSession();
    std::vector<std::unique_ptr<Node>> nodes;
    for (unsigned k = 0; k < nn; ++k) { Opt o; o.session = session; nodes.push_back(std::make_unique<Node>("shmem", o)); }
    TransportFactory& f = *nodes[0]->f;
    unsigned long before = nodes[0]->freeMem();
    const size_t rounds = vp::optU("rounds", 40);
    std::vector<std::atomic<unsigned>> acks(rounds);
    std::atomic<char*> base{nullptr};
    std::atomic<unsigned> stray{0};
    UnmanagedRegionPtr reg;
    if (kind) {
        RegionConfig cfg;
        cfg.linger = 100;
        cfg.rcSegmentSize = kind == 1 ? 1u << 20 : 0;
        reg = f.CreateUnmanagedRegion(rounds * 4096, [&](void* p, size_t, void*) {
            size_t at = static_cast<size_t>(static_cast<char*>(p) - base.load());
            if (at % 4096 || at / 4096 >= acks.size()) { ++stray; } else { ++acks[at / 4096]; }
        }, cfg);
        base = static_cast<char*>(reg->GetData());
        before = nodes[0]->freeMem();
    }
    std::unique_ptr<Socket> a, b;
    if (nn == 2) {
        a = f.CreateSocket("push", uniq("a"));
        b = nodes[1]->f->CreateSocket("pull", uniq("b"));
        std::string ep = address("ipc");
        if (!a->Bind(ep)) { vp::violation("shm:bind", ep); return; }
        b->Connect(lastEndpoint(*a));
    }
    std::string desc = vp::fmt("%s, %u device(s), %u threads", kind == 0 ? "managed buffer" : kind == 1 ? "region buffer, counts in their own segment" : "region buffer, counts in the managed segment", nn, nt);
    vp::phase("shm storm: " + desc);
    uint64_t copies = 0, bad = 0;
    vp::resetScheduleHash();
    for (size_t rd = 0; rd < rounds; ++rd) {
        size_t sz = 64 + r.below(2000);
        MessagePtr m = kind ? f.CreateMessage(reg, base.load() + rd * 4096, sz, nullptr) : f.CreateMessage(sz);
        fill(m->GetData(), sz, rd);
        std::vector<MessagePtr> own(nt);
        bool lost = false;
        for (unsigned t = 0; t < nt; ++t) {
            own[t] = f.CreateMessage();
            own[t]->Copy(*m);
            if (nn == 2 && t % 2 == 1) {   // this one is handed to the other device
                auto x = nodes[1]->f->CreateMessage();
                if (a->Send(own[t], 5000) < 0 || b->Receive(x, 5000) < 0) { lost = true; break; }
                own[t] = std::move(x);
            }
        }
        if (lost) { vp::violation("shm:in-flight", "a message did not arrive within 5 s (" + desc + ")"); return; }
        size_t burst = rd % 2 ? 400 + r.below(2000) : r.below(4);
        bool keepM = r.chance(1, 2);
        if (!keepM) { m.reset(); }
        std::vector<uint64_t> seeds(nt);
        for (auto& s : seeds) { s = r.next(); }
        std::atomic<unsigned> ready{0}, bads{0}, end{0};
        auto meet = [nt](std::atomic<unsigned>& c) { ++c; while (c.load(std::memory_order_acquire) < nt) { } };
        std::vector<uint16_t> refs(nt, 0);
        vp::runThreads(nt, [&](unsigned t) {
            vp::Rng q(seeds[t]);
            TransportFactory& tf = *nodes[(nn == 2 && t % 2 == 1) ? 1 : 0]->f;
            std::vector<MessagePtr> extra;
            auto k = tf.CreateMessage();
            meet(ready);
            for (size_t n = 0; n < burst; ++n) {
                k->Copy(*own[t]);
                if (k->GetSize() != sz) { ++bads; }
                if (q.chance(1, 16)) { if (!same(k->GetData(), sz, rd)) { ++bads; } }
                if (q.chance(1, 8) && extra.size() < 4) { extra.push_back(std::move(k)); k = tf.CreateMessage(); }
                else if (q.chance(1, 8) && !extra.empty()) { std::swap(extra.back(), own[t]); extra.pop_back(); k->Rebuild(); }
                else { k->Rebuild(); }
            }
            k.reset();
            extra.clear();
            meet(end);
            refs[t] = static_cast<shmem::Message&>(*own[t]).GetRefCount();
            if (!same(own[t]->GetData(), sz, rd)) { ++bads; }
        });
        copies += burst * nt;
        unsigned holders = nt + (keepM ? 1 : 0);
        for (auto c : refs) { VP_CHECK(c == holders, "shm:count", "a buffer with %u holders counts %u after they came and went (%s)", holders, c, desc.c_str()); if (c != holders) { vp::finish(); _exit(0); } }
        VP_CHECK(bads == 0, "shm:content", "%u wrong looks at a shared buffer (%s)", bads.load(), desc.c_str());
        bad += bads;
        if (kind) { VP_CHECK(acks[rd] == 0, "shm:acked-alive", "a region buffer was acknowledged while it had %u holders (%s)", holders, desc.c_str()); }
        // all holders leave at once: exactly one of them is the last
        bool mGoes = keepM && r.chance(1, 2);
        ready = 0;
        vp::runThreads(nt, [&](unsigned t) {
            meet(ready);
            own[t].reset();
            if (t == 0 && mGoes) { m.reset(); }
        });
        if (keepM && !mGoes) {
            VP_CHECK(same(m->GetData(), sz, rd), "shm:content", "a buffer changed while it had a holder (%s)", desc.c_str());
            if (kind) { VP_CHECK(acks[rd] == 0, "shm:acked-alive", "a region buffer was acknowledged while it had a holder (%s)", desc.c_str()); }
            m.reset();
        }
        if (kind == 0 || kind == 2) {
            unsigned long now = nodes[0]->freeMem();
            VP_CHECK(now == before, "shm:conservation", "%lu bytes free before, %lu after a buffer with %u holders was given back (%s)", before, now, holders, desc.c_str());
            if (now != before) { vp::finish(); _exit(0); }
        }
        vp::tick();
    }
    if (kind) {
        double t = vp::now();
        auto all = [&] { return std::all_of(acks.begin(), acks.end(), [](auto& x) { return x > 0; }); };
        while (!all() && vp::now() - t < 10) { vp::sleepMs(2); }
        vp::sleepMs(5);
        for (size_t rd = 0; rd < rounds; ++rd) { VP_CHECK(acks[rd] == 1, "shm:ack", "%u acknowledgements of a region buffer whose holders are gone (%s)", acks[rd].load(), desc.c_str()); }
        VP_CHECK(stray == 0, "shm:ack", "%u acknowledgements of something else (%s)", stray.load(), desc.c_str());
    }
    a.reset();
    b.reset();
    reg.reset();
    nodes.clear();
    vp::count("storm_copies", copies);
    vp::count("storm_releases", rounds * nt);
    vp::evaluated(vp::mix(vp::hash(desc), copies));
    vp::sample(desc + vp::fmt(": %zu rounds, %llu copies", rounds, (unsigned long long)copies), 6);
    (void)bad;
}

// ---------------------------------------------------------------- several processes
// every message is [tag, pattern...]; every process holds, copies, forwards, shrinks, creates
struct Peer
{
    Node& n;
    vp::Rng r;
    std::vector<MessagePtr> held;
    int bad = 0;
    bool ended = false;
    uint64_t made = 0, moved = 0, failed = 0;
    Peer(Node& nn, uint64_t s) : n(nn), r(s) {}
    bool good(Message& m)
    {
        if (m.GetSize() < 16) { return false; }
        uint64_t tag = *static_cast<uint64_t*>(m.GetData());
        return same(static_cast<char*>(m.GetData()) + 8, m.GetSize() - 8, tag);
    }
    void check(Message& m) { if (!good(m)) { ++bad; } }
    MessagePtr make()
    {
        size_t s = 16 + (r.chance(1, 4) ? r.below(30000) : r.below(600));
        MessagePtr m;
        try { m = n.f->CreateMessage(s, Alignment{size_t(1) << r.below(8)}); } catch (MessageBadAlloc&) { ++failed; return nullptr; }
        uint64_t tag = r.next() | 1;
        memcpy(m->GetData(), &tag, 8);
        fill(static_cast<char*>(m->GetData()) + 8, s - 8, tag);
        ++made;
        return m;
    }
    void step(Socket& in, Socket& out, bool create)
    {
        auto m = n.f->CreateMessage();
        if (!held.empty() && r.chance(1, 6)) { m = std::move(held.back()); held.pop_back(); check(*m); }
        if (in.Receive(m, 1) >= 0) {
            if (m->GetSize() < 16) { ended = true; return; }
            check(*m);
            ++moved;
            held.push_back(std::move(m));
        }
        if (create && r.chance(1, 2)) { if (auto x = make()) { held.push_back(std::move(x)); } }
        if (!held.empty() && r.chance(1, 2)) { auto k = n.f->CreateMessage(); k->Copy(*held[r.below(held.size())]); held.push_back(std::move(k)); }
        if (!held.empty() && r.chance(1, 8)) { auto& h = held[r.below(held.size())]; size_t s = h->GetSize(); if (s > 40) { if (!h->SetUsedSize(16 + r.below(s - 16))) { ++bad; } check(*h); } }
        if (!held.empty() && r.chance(1, 2)) {
            size_t i = r.below(held.size());
            std::swap(held[i], held.back());
            if (out.Send(held.back(), 0) >= 0) { held.pop_back(); }
        }
        while (held.size() > 25 || (!held.empty() && r.chance(1, 3))) {
            size_t i = r.below(held.size());
            check(*held[i]);
            std::swap(held[i], held.back());
            held.pop_back();
        }
    }
};

int child()
{
    Opt o;
    o.session = vp::optS("session", "");
    o.segId = static_cast<uint16_t>(vp::optU("seg", 0));
    o.segSize = 4u << 20;
    Node n("shmem", o);
    auto in = n.f->CreateSocket("pull", uniq("cin"));
    auto out = n.f->CreateSocket("push", uniq("cout"));
    in->Connect(vp::optS("ep", ""));
    out->Connect(vp::optS("back", ""));
    Peer p(n, vp::S().seed);
    unsigned long own = n.freeMem();
    if (o.segId != 0) {
        // tell the parent what the segment looked like
        auto m = n.f->NewSimpleMessage(vp::fmt("F%llu", (unsigned long long)own));
        if (m->GetSize() >= 16) { return 4; }
        while (out->Send(m, 100) < 0) {}
    }
    uint64_t steps = 0;
    while (true) {
        if (++steps % 64 == 0) { vp::tick(); }
        if (steps > 20000000) { return 5; }
        p.step(*in, *out, steps < 300);
        if (p.bad || p.ended) { break; }   // the end marker comes last on this socket
    }
    p.held.clear();
    // "all sent"
    { auto m = n.f->NewSimpleMessage(std::string("E")); while (out->Send(m, 100) < 0) {} }
    // stay until everything was taken over
    { auto m = n.f->CreateMessage(); in->Receive(m, 30000); }
    return p.bad ? 3 : 0;
}

void procCase(uint64_t, vp::Rng& r, const char* self)
{
    Opt o;
    o.segSize = 4u << 20;
    o.alloc = r.chance(1, 3) ? "simple_seq_fit" : "rbtree_best_fit";
    Node n("shmem", o);
    unsigned kids = 1 + r.below(3);
    std::string desc = vp::fmt("%u other process(es) %s", kids, o.alloc.c_str());
    vp::phase("shm processes: " + desc);
    std::map<unsigned, unsigned long> before;
    before[0] = n.freeMem();
    auto back = n.f->CreateSocket("pull", uniq("back"));
    if (!back->Bind(address("ipc"))) { return; }
    std::vector<std::unique_ptr<Socket>> outs;
    std::vector<pid_t> pids;
    std::vector<unsigned> segs;
    for (unsigned k = 0; k < kids; ++k) {
        outs.push_back(n.f->CreateSocket("push", uniq("out")));
        if (!outs.back()->Bind(address("ipc"))) { return; }
        unsigned seg = r.chance(1, 2) ? 0 : 1 + k;
        segs.push_back(seg);
        std::vector<std::string> a{self, "--mode=child", "--out=" + vp::S().out + ".child", "--ep=" + lastEndpoint(*outs.back()), "--back=" + lastEndpoint(*back), "--session=" + n.o.session, "--seg=" + std::to_string(seg), "--seed=" + std::to_string(r.next() >> 1), "--stall=60"};
        pid_t pid = fork();
        if (pid == 0) {
            std::vector<char*> v;
            for (auto& x : a) { v.push_back(const_cast<char*>(x.c_str())); }
            v.push_back(nullptr);
            execv(self, v.data());
            _exit(99);
        }
        pids.push_back(pid);
    }
    Peer p(n, r.next());
    unsigned hello = 0, ended = 0, needHello = 0;
    std::vector<unsigned long> ownFree;
    for (auto s : segs) { needHello += s != 0; }
    auto take = [&](int to) {
        auto m = n.f->CreateMessage();
        if (back->Receive(m, to) < 0) { return; }
        vp::tick();
        if (m->GetSize() < 16) {
            std::string s(static_cast<char*>(m->GetData()), m->GetSize());
            if (s[0] == 'F') { ++hello; ownFree.push_back(std::stoul(s.substr(1))); }
            else if (s[0] == 'E') { ++ended; }
            return;
        }
        p.check(*m);
        ++p.moved;
        p.held.push_back(std::move(m));
    };
    double t0 = vp::now();
    uint64_t target = 300 + r.below(1500), sent = 0;
    while (sent < target && vp::now() - t0 < 30 && !p.bad) {
        take(0);
        auto x = p.make();
        if (!x) { p.held.clear(); take(1); continue; }
        if (r.chance(1, 2)) { auto k = n.f->CreateMessage(); k->Copy(*x); p.held.push_back(std::move(k)); }
        if (!p.held.empty() && r.chance(1, 2)) { std::swap(x, p.held[r.below(p.held.size())]); }
        if (outs[r.below(kids)]->Send(x, 5) >= 0) { ++sent; }
        while (p.held.size() > 30) { size_t i = r.below(p.held.size()); p.check(*p.held[i]); std::swap(p.held[i], p.held.back()); p.held.pop_back(); }
    }
    for (auto& x : outs) { auto m = n.f->NewSimpleMessage(std::string("end")); VP_CHECK(x->Send(m, 10000) >= 0, "shm:process-hang", "a process does not take its end marker (%s)", desc.c_str()); }
    t0 = vp::now();
    auto alive = [&](pid_t q) { return kill(q, 0) == 0 && waitpid(q, nullptr, WNOHANG | WNOWAIT) == 0; };
    auto allAlive = [&] { for (auto q : pids) { siginfo_t si{}; if (waitid(P_PID, static_cast<id_t>(q), &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid == q) { return false; } } return true; };
    (void)alive;
    while (ended < kids && vp::now() - t0 < 40 && allAlive()) { take(5); p.held.clear(); }
    p.held.clear();
    VP_CHECK(ended == kids, "shm:process", "%u of %u processes reached their end (%s)", ended, kids, desc.c_str());
    if (ended == kids) {
        VP_CHECK(n.freeMem() == before[0], "shm:conservation", "segment 0 had %lu bytes free before and %lu after all messages in all processes were gone (%s)", before[0], n.freeMem(), desc.c_str());
        std::vector<unsigned long> nowFree;
        for (auto s : segs) { if (s) { nowFree.push_back(shmem::Monitor::GetFreeMemory(n.shmId(), static_cast<uint16_t>(s))); } }
        std::sort(nowFree.begin(), nowFree.end());
        std::sort(ownFree.begin(), ownFree.end());
        VP_CHECK(nowFree == ownFree, "shm:conservation", "the segments of other processes had %lu.. bytes free before and %lu.. after (%s)", ownFree.empty() ? 0ul : ownFree[0], nowFree.empty() ? 0ul : nowFree[0], desc.c_str());
    }
    for (auto& x : outs) { auto m = n.f->NewSimpleMessage(std::string("go")); x->Send(m, 1000); }
    for (auto q : pids) {
        int st = 0;
        double t = vp::now();
        while (waitpid(q, &st, WNOHANG) == 0) { take(2); if (vp::now() - t > 40) { kill(q, SIGKILL); vp::violation("shm:process-hang", "a process does not end (" + desc + ")"); waitpid(q, &st, 0); break; } }
        VP_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "shm:process", "another process ended with %x: 300 = it saw changed content (%s)", st, desc.c_str());
    }
    VP_CHECK(p.bad == 0, "shm:content", "a live buffer changed (%s)", desc.c_str());
    outs.clear();
    back.reset();
    vp::count("cross_process_messages", sent + p.moved);
    vp::evaluated(vp::mix(sent, vp::mix(p.moved, vp::hash(desc))));
    vp::sample(vp::fmt("%s: %llu sent, %llu received back", desc.c_str(), (unsigned long long)sent, (unsigned long long)p.moved), 2);
}

}   // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    auto& m = vp::S().mode;
    vp::watchdog();
    if (m == "child") { int rc = child(); vp::S().stopWatchdog = true; return rc; }
    if (m == "threads") { vp::forCases(20, threadsCase); }
    else if (m == "full") { vp::forCases(20, fullCase); }
    else if (m == "storm") { vp::forCases(12, stormCase); }
    else if (m == "many") { vp::forCases(6, manyCase); }
    else if (m == "proc") { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; std::string self = b; vp::forCases(4, [&](uint64_t i, vp::Rng& r) { procCase(i, r, self.c_str()); }); }
    else { return 2; }
    return vp::finish();
}
