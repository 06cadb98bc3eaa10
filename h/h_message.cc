// C03/C04: message objects against a byte-buffer model, single-threaded histories over both transports,
// with transfers (also between devices of one session), regions, containers and failing allocations.
#include "tx.h"

#include <fairmq/Parts.h>
#include <fairmq/shmem/Socket.h>
#include <fairmq/shmem/TransportFactory.h>
#include <fairmq/zeromq/TransportFactory.h>

using namespace fair::mq;

namespace
{
struct Token { void* data; void* hint; size_t size; int calls = 0; bool wrongArgs = false; bool expectNow = false; bool forbidden = false; bool mustNot = false; };
std::mutex gTokM;
std::map<void*, std::shared_ptr<Token>> gTok;   // by hint

void ffn(void* data, void* hint)
{
    std::lock_guard<std::mutex> l(gTokM);
    auto it = gTok.find(hint);
    if (it == gTok.end()) { vp::violation("msg:release-unknown", "release function called with a hint never handed over"); return; }
    auto& t = *it->second;
    ++t.calls;
    if (t.calls > 1) { vp::violation("msg:released-twice", vp::fmt("buffer of %zu bytes released %d times", t.size, t.calls)); return; }
    if (data != t.data) { vp::violation("msg:release-wrong-pointer", vp::fmt("release function got %p, buffer is %p", data, t.data)); }
    if (t.data) { memset(t.data, 0xDD, t.size); free(t.data); }
}

// a buffer shared by the messages that are copies of each other
struct Buf { std::vector<unsigned char> bytes; std::shared_ptr<Token> tok; int region = -1; size_t users = 0; };
struct Slot
{
    MessagePtr m;
    std::shared_ptr<Buf> b;      // null: empty
    size_t size = 0;
    size_t align = 0;            // guaranteed alignment of the data, 0 = none
    size_t recvAlign = 0;        // alignment requested for receiving
    int node = 0;
    bool sent = false;
};

struct Region
{
    UnmanagedRegionPtr r;
    size_t size = 0, used = 0;
    std::mutex m;
    std::map<uintptr_t, int> acks;              // hint -> times
    std::map<uintptr_t, std::pair<void*, size_t>> blocks;
    std::map<uintptr_t, bool> resized;
};

std::string gLog;
void note(const std::string& s) { if (gLog.size() < 20000) { gLog += s + "; "; } }

void check(const Slot& s, const char* when)
{
    if (!s.m) { return; }
    size_t n = s.m->GetSize();
    if (n != s.size) { vp::violation("msg:size", vp::fmt("%s: size %zu, expected %zu; history %s", when, n, s.size, gLog.substr(gLog.size() > 900 ? gLog.size() - 900 : 0).c_str())); return; }
    void* d = s.m->GetData();
    if (s.size == 0) { if (d != nullptr) { vp::violation("msg:data-of-empty", vp::fmt("%s: empty message has data pointer; history %s", when, gLog.substr(gLog.size() > 900 ? gLog.size() - 900 : 0).c_str())); } return; }
    if (!d) { vp::violation("msg:null-data", vp::fmt("%s: null data for %zu bytes; history %s", when, n, gLog.substr(gLog.size() > 900 ? gLog.size() - 900 : 0).c_str())); return; }
    if (s.align > 1 && reinterpret_cast<uintptr_t>(d) % s.align) { vp::violation("msg:alignment", vp::fmt("%s: data %p not aligned to %zu; history %s", when, d, s.align, gLog.substr(gLog.size() > 900 ? gLog.size() - 900 : 0).c_str())); }
    if (memcmp(d, s.b->bytes.data(), n) != 0) {
        size_t i = 0;
        while (static_cast<unsigned char*>(d)[i] == s.b->bytes[i]) { ++i; }
        vp::violation("msg:content", vp::fmt("%s: %zu bytes differ from byte %zu on (got %02x want %02x); history %s", when, n, i, static_cast<unsigned char*>(d)[i], s.b->bytes[i],
                                             gLog.substr(gLog.size() > 900 ? gLog.size() - 900 : 0).c_str()));
    }
}

size_t pickSize(vp::Rng& r)
{
    static const std::vector<size_t> edge{0, 1, 2, 7, 8, 15, 16, 28, 29, 30, 31, 32, 33, 34, 63, 64, 65, 100, 127, 128, 129, 255, 256, 1000, 4095, 4096, 4097, 8191, 8192, 8193};
    if (r.chance(3, 5)) { return r.pick(edge); }
    if (r.chance(1, 12)) { return 900000 + r.below(700000); }
    return r.below(20000);
}
size_t pickAlign(vp::Rng& r)
{
    static const std::vector<size_t> a{0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096, 16384, 32768};
    return r.pick(a);
}

void drop(Slot& s)
{
    if (s.b) { --s.b->users; }
    s.b.reset();
    s.size = 0;
    s.align = 0;
}
void give(Slot& s, std::vector<unsigned char> bytes, std::shared_ptr<Token> t = nullptr, int region = -1)
{
    s.b = std::make_shared<Buf>();
    s.size = bytes.size();
    s.b->bytes = std::move(bytes);
    s.b->tok = std::move(t);
    s.b->region = region;
    s.b->users = 1;
}
std::vector<unsigned char> rnd(vp::Rng& r, size_t n) { std::vector<unsigned char> v(n); if (n) { tx::fill(v.data(), n, r.next()); } return v; }

void modelCase(const std::string& type, uint64_t ci, vp::Rng& r)
{
    const bool shm = type == "shmem";
    gLog.clear();
    { std::lock_guard<std::mutex> l(gTokM); gTok.clear(); }
    vp::phase("model " + type);
    const unsigned nNodes = shm ? static_cast<unsigned>(r.range(1, 2)) : static_cast<unsigned>(r.range(1, 2));
    tx::Opt o;
    o.session = tx::newSession();
    o.segSize = (r.chance(1, 4) ? 4ull : 24ull) << 20;
    o.alloc = r.chance(1, 3) ? "simple_seq_fit" : "rbtree_best_fit";
    o.meta = r.chance(1, 4) ? 2048 : 0;
    const bool twoSeg = shm && nNodes == 2 && r.chance(1, 2);
    std::vector<std::unique_ptr<tx::Node>> nodes;
    for (unsigned i = 0; i < nNodes; ++i) { auto oo = o; oo.segId = twoSeg ? static_cast<uint16_t>(i) : 0; nodes.push_back(std::make_unique<tx::Node>(type, oo)); }
    std::vector<unsigned long> free0;
    if (shm) { for (auto& n : nodes) { free0.push_back(n->freeMem()); } }

    // pair channels: 0 -> 0 (inproc) and 0 <-> 1 (ipc)
    struct Link { Channel a, b; int na, nb; std::deque<std::vector<Slot>> q; };
    std::vector<std::unique_ptr<Link>> links;
    auto mk = [&](int a, int b, const std::string& kind, const std::string& ta, const std::string& tb) {
        auto l = std::make_unique<Link>(Link{Channel(vp::fmt("a%zu", links.size()), ta, nodes[a]->f), Channel(vp::fmt("b%zu", links.size()), tb, nodes[b]->f), a, b, {}});
        l->a.UpdateLinger(0);
        std::string ad = tx::address(kind);
        bool ok = l->b.Bind(ad) && l->a.Connect(ad);
        VP_CHECK(ok, "msg:channel", "could not connect %s", ad.c_str());
        links.push_back(std::move(l));
    };
    mk(0, 0, "inproc", "push", "pull");
    if (nNodes == 2) { mk(0, 1, "ipc", "pair", "pair"); mk(1, 0, "ipc", "push", "pull"); }

    std::vector<std::unique_ptr<Region>> regs;
    auto addRegion = [&](int node) {
        auto g = std::make_unique<Region>();
        g->size = 1 << 20;
        RegionConfig rc;
        rc.linger = 10;
        if (r.chance(1, 3)) { rc.rcSegmentSize = 0; }
        else { rc.rcSegmentSize = 1 << 20; }
        Region* p = g.get();
        g->r = nodes[node]->f->CreateUnmanagedRegion(g->size, RegionCallback([p](void* d, size_t n, void* h) {
            std::lock_guard<std::mutex> l(p->m);
            auto k = reinterpret_cast<uintptr_t>(h);
            ++p->acks[k];
            auto it = p->blocks.find(k);
            if (it == p->blocks.end()) { vp::violation("region:ack-unknown", "acknowledged a block that was never sent"); return; }
            if (p->acks[k] > 1) { vp::violation("region:ack-twice", vp::fmt("block %zu acknowledged %d times", static_cast<size_t>(k), p->acks[k])); }
            if (it->second.first != d || (!p->resized[k] && it->second.second != n)) { vp::violation("region:ack-wrong-block", vp::fmt("block %zu: got %p/%zu want %p/%zu", static_cast<size_t>(k), d, n, it->second.first, it->second.second)); }
        }), rc);
        regs.push_back(std::move(g));
    };
    std::vector<int> regNode;
    if (r.chance(nNodes == 1 ? 30 : (shm ? 15 : 30), 100)) { addRegion(0); regNode.push_back(0); if (nNodes == 2 && r.chance(1, 2)) { addRegion(1); regNode.push_back(1); } }

    std::vector<Slot> slots(8);
    uintptr_t nextHint = 1;
    size_t nOps = static_cast<size_t>(r.range(20, 160)), moved = 0;
    uint64_t h = vp::hash(type);
    auto newToken = [&](size_t n) {
        auto t = std::make_shared<Token>();
        t->size = n;
        t->data = n ? malloc(n) : malloc(1);
        t->hint = reinterpret_cast<void*>(0x1000000 + nextHint++ * 16);
        std::lock_guard<std::mutex> l(gTokM);
        gTok[t->hint] = t;
        return t;
    };
    auto writable = [](Slot& s) { return s.b && s.b->users == 1 && s.size > 0; };
    auto write = [&](Slot& s) {
        if (!writable(s)) { return; }
        void* d = s.m->GetData();
        if (!d) { check(s, "write"); return; }
        auto v = rnd(r, s.size);
        memcpy(d, v.data(), v.size());
        std::copy(v.begin(), v.end(), s.b->bytes.begin());
    };

    // a zeromq message received over a wire, or realigned, has a buffer of its own
    auto detach = [&](Slot& d, Link& l, bool realigned) {
        if (shm || !d.b || (l.na == l.nb && !realigned)) { return; }
        auto b = std::make_shared<Buf>();
        b->bytes = d.b->bytes;
        b->users = 1;
        --d.b->users;
        d.b = b;
    };
    for (size_t op = 0; op < nOps; ++op) {
        unsigned k = static_cast<unsigned>(r.below(100));
        Slot& s = slots[r.below(slots.size())];
        h = vp::mix(h, k);
        const char* what = "op";
        try {
            if (k < 22 || !s.m) {   // construct
                int node = static_cast<int>(r.below(nNodes));
                auto& f = *nodes[node]->f;
                unsigned c = static_cast<unsigned>(r.below(9));
                size_t n = pickSize(r), al = pickAlign(r);
                drop(s);
                s.m.reset();
                s.node = node;
                s.recvAlign = 0;
                what = "create";
                note(vp::fmt("[%ld]=new%u(%zu,%zu)@%d", static_cast<long>(&s - slots.data()), c, n, al, node));
                if (c == 0) { s.m = f.CreateMessage(); }
                else if (c == 1) { s.m = f.CreateMessage(Alignment{al}); s.recvAlign = al; }
                else if (c == 2) { s.m = f.CreateMessage(n); give(s, std::vector<unsigned char>(n)); write(s); }
                else if (c == 3 || c == 4) { s.m = f.CreateMessage(n, Alignment{al}); give(s, std::vector<unsigned char>(n)); s.align = al; s.recvAlign = al; write(s); }
                else if (c == 5) {
                    auto t = newToken(n);
                    auto v = rnd(r, n);
                    if (n) { memcpy(t->data, v.data(), n); }
                    bool threw = true;
                    try { s.m = f.CreateMessage(t->data, n, ffn, t->hint); threw = false; } catch (const MessageBadAlloc&) {}
                    if (threw) { t->mustNot = true; } else { give(s, v, t); }
                } else if (c == 6) { std::string str = vp::fmt("simple %zu", static_cast<size_t>(r.next())); s.m = f.NewSimpleMessage(str); give(s, std::vector<unsigned char>(str.begin(), str.end())); }
                else if (c == 7) { uint64_t v = r.next(); s.m = f.NewSimpleMessage(v); auto p = reinterpret_cast<unsigned char*>(&v); give(s, std::vector<unsigned char>(p, p + sizeof v)); }
                else {
                    static const std::string stat = "a static string that outlives every message";
                    if (!regs.empty()) {
                        size_t g = r.below(regs.size());
                        auto& rg = *regs[g];
                        size_t rn = std::min(n, static_cast<size_t>(5000));
                        if (rn && rg.used + rn <= rg.size) {
                            char* d = static_cast<char*>(rg.r->GetData()) + rg.used;
                            auto v = rnd(r, rn);
                            memcpy(d, v.data(), rn);
                            uintptr_t hint = nextHint++;
                            { std::lock_guard<std::mutex> l(rg.m); rg.blocks[hint] = {d, rn}; }
                            s.node = regNode[g];
                            s.m = nodes[s.node]->f->CreateMessage(rg.r, d, rn, reinterpret_cast<void*>(hint));
                            give(s, v, nullptr, static_cast<int>(g));
                            s.b->tok = nullptr;
                            rg.used += rn;
                            note("region");
                        }
                    }
                    if (!s.m) { s.node = node; s.m = f.NewStaticMessage(stat); give(s, std::vector<unsigned char>(stat.begin(), stat.end())); s.b->users = 1000; }   // (never written)
                }
                if (s.m) { VP_CHECK(s.m->GetType() == f.GetType() && s.m->GetTransport() == nodes[s.node]->f.get(), "msg:transport", "wrong transport in a new message"); }
            } else if (k < 32) { what = "write"; note("write"); write(s); }
            else if (k < 46) {   // rebuild
                unsigned c = static_cast<unsigned>(r.below(5));
                size_t n = pickSize(r), al = pickAlign(r);
                what = "rebuild";
                note(vp::fmt("[%ld].rebuild%u(%zu,%zu)", static_cast<long>(&s - slots.data()), c, n, al));
                drop(s);
                s.recvAlign = 0;
                if (c == 0) { s.m->Rebuild(); }
                else if (c == 1) { s.m->Rebuild(Alignment{al}); s.recvAlign = al; }
                else if (c == 2) { s.m->Rebuild(n); give(s, std::vector<unsigned char>(n)); write(s); }
                else if (c == 3) { s.m->Rebuild(n, Alignment{al}); give(s, std::vector<unsigned char>(n)); s.align = al; s.recvAlign = al; write(s); }
                else {
                    auto t = newToken(n);
                    auto v = rnd(r, n);
                    if (n) { memcpy(t->data, v.data(), n); }
                    bool threw = true;
                    try { s.m->Rebuild(t->data, n, ffn, t->hint); threw = false; } catch (const MessageBadAlloc&) {}
                    if (threw) { t->mustNot = true; } else { give(s, v, t); }
                }
            } else if (k < 58) {   // SetUsedSize
                size_t cur = s.size, n = r.chance(1, 8) ? cur + 1 + r.below(100) : (r.chance(1, 8) ? 0 : (cur ? r.below(cur + 1) : 0));
                if (r.chance(1, 6)) { n = cur; }
                what = "shrink";
                note(vp::fmt("[%ld].used(%zu->%zu)", static_cast<long>(&s - slots.data()), cur, n));
                bool ok = s.m->SetUsedSize(n);
                if (n > cur) { VP_CHECK(!ok, "msg:grow-accepted", "SetUsedSize(%zu) accepted on a message of %zu bytes", n, cur); }
                else {
                    VP_CHECK(ok, "msg:shrink-refused", "SetUsedSize(%zu) refused on a message of %zu bytes; history %s", n, cur, gLog.substr(gLog.size() > 900 ? gLog.size() - 900 : 0).c_str());
                    if (ok) {
                        if (n != cur && s.b && s.b->region >= 0) { auto& rg = *regs[s.b->region]; std::lock_guard<std::mutex> l(rg.m); for (auto& b : rg.blocks) { rg.resized[b.first] = true; } }
                        if (n == 0 && cur != 0) { if (shm) { drop(s); } else { s.size = 0; } }
                        else { s.size = n; if (cur - n >= 1000000) { s.align = 0; } }
                    }
                }
            } else if (k < 70) {   // copy
                Slot& t = slots[r.below(slots.size())];
                if (!t.m || t.node != s.node) { continue; }
                if (&t == &s) { note("self-copy"); s.m->Copy(*s.m); check(s, "self-copy"); continue; }
                what = "copy";
                note(vp::fmt("[%ld].copy(%ld)", static_cast<long>(&s - slots.data()), static_cast<long>(&t - slots.data())));
                s.m->Copy(*t.m);
                drop(s);
                s.recvAlign = s.recvAlign;   // (stays with the object)
                if (t.b) { s.b = t.b; ++s.b->users; }
                s.size = t.size;
                s.align = t.size > 29 || shm ? t.align : 0;
            } else if (k < 74) { what = "destroy"; note(vp::fmt("[%ld].destroy", static_cast<long>(&s - slots.data()))); drop(s); s.m.reset(); }
            else if (k < 77) { Slot& t = slots[r.below(slots.size())]; what = "swap"; std::swap(s, t); }
            else if (k < 88) {   // send (single or multi-part)
                std::vector<Link*> fit;
                for (auto& l : links) { if (l->na == s.node) { fit.push_back(l.get()); } }
                Link& l = *r.pick(fit);
                if (l.q.size() > 20) { continue; }
                what = "send";
                if (r.chance(1, 2)) {
                    note(vp::fmt("send[%ld] %d->%d", static_cast<long>(&s - slots.data()), l.na, l.nb));
                    int64_t n = l.a.Send(s.m, 10000);
                    VP_CHECK(n == static_cast<int64_t>(s.size), "msg:send-result", "Send of %zu bytes returned %lld", s.size, static_cast<long long>(n));
                    std::vector<Slot> v(1);
                    std::swap(v[0], s);
                    // the sender's object stays usable only for destruction or rebuilding
                    s.m = std::move(v[0].m);
                    s.node = v[0].node;
                    if (r.chance(1, 2)) { s.m.reset(); } else { s.m->Rebuild(); }
                    s.recvAlign = 0;
                    l.q.push_back(std::move(v));
                } else {
                    std::vector<size_t> idx;
                    for (size_t i = 0; i < slots.size(); ++i) { if (slots[i].m && slots[i].node == l.na) { idx.push_back(i); } }
                    r.shuffle(idx);
                    idx.resize(std::min(idx.size(), static_cast<size_t>(r.range(1, 4))));
                    Parts p;
                    size_t tot = 0;
                    std::vector<Slot> v(idx.size());
                    for (size_t i = 0; i < idx.size(); ++i) { std::swap(v[i], slots[idx[i]]); tot += v[i].size; p.AddPart(std::move(v[i].m)); }
                    note(vp::fmt("send %zu parts %d->%d", idx.size(), l.na, l.nb));
                    VP_CHECK(p.Size() == idx.size(), "parts:size", "%zu parts added, container holds %zu", idx.size(), static_cast<size_t>(p.Size()));
                    int64_t n = l.a.Send(p, 10000);
                    VP_CHECK(n == static_cast<int64_t>(tot), "msg:send-result", "Send of %zu bytes in %zu parts returned %lld", tot, idx.size(), static_cast<long long>(n));
                    if (idx.size() == 1) { v.push_back(Slot{}); v.back().sent = true; }   // marks: sent through the container interface
                    l.q.push_back(std::move(v));
                }
            } else if (k < 97) {   // receive, single messages also into used objects
                std::vector<Link*> fit;
                for (auto& l : links) { if (!l->q.empty()) { fit.push_back(l.get()); } }
                if (fit.empty()) { continue; }
                Link& l = *r.pick(fit);
                auto v = std::move(l.q.front());
                l.q.pop_front();
                ++moved;
                what = "receive";
                bool viaParts = v.size() == 2 && v[1].sent;
                if (viaParts) { v.pop_back(); }
                if (v.size() == 1 && !viaParts) {
                    Slot& d = slots[r.below(slots.size())];
                    if (!d.m || d.node != l.nb) { drop(d); d.m = nodes[l.nb]->f->CreateMessage(); d.node = l.nb; d.recvAlign = 0; }
                    note(vp::fmt("recv->[%ld](had %zu)", static_cast<long>(&d - slots.data()), d.size));
                    drop(d);
                    int64_t n = l.b.Receive(d.m, 10000);
                    d.b = v[0].b;
                    d.size = v[0].size;
                    d.align = shm ? (l.na == l.nb ? v[0].align : std::min<size_t>(v[0].align, 4096)) : d.recvAlign;   // (mappings of other devices are page-aligned)
                    detach(d, l, d.recvAlign != 0);
                    VP_CHECK(n == static_cast<int64_t>(d.size), "msg:receive-result", "Receive of %zu bytes returned %lld", d.size, static_cast<long long>(n));
                    check(d, "receive");
                } else {
                    Parts p;
                    size_t tot = 0;
                    for (auto& x : v) { tot += x.size; }
                    note(vp::fmt("recv %zu parts", v.size()));
                    int64_t n = l.b.Receive(p, 10000);
                    VP_CHECK(n == static_cast<int64_t>(tot) && p.Size() == v.size(), "parts:receive", "%zu parts of %zu bytes sent, %zu parts received, result %lld", v.size(), tot, static_cast<size_t>(p.Size()), static_cast<long long>(n));
                    for (size_t i = 0; i < std::min(v.size(), static_cast<size_t>(p.Size())); ++i) {
                        Slot& d = slots[i];
                        if (d.b) { drop(d); }
                        d.m = std::move(p.At(i));
                        d.b = v[i].b;
                        d.size = v[i].size;
                        d.align = shm ? (l.na == l.nb ? v[i].align : std::min<size_t>(v[i].align, 4096)) : 0;
                        d.recvAlign = 0;
                        d.node = l.nb;
                        detach(d, l, false);
                        check(d, "receive part");
                    }
                    for (size_t i = p.Size(); i < v.size(); ++i) { drop(v[i]); }
                }
            } else {   // container: parts keep their order
                std::vector<size_t> idx;
                for (size_t i = 0; i < slots.size(); ++i) { if (slots[i].m) { idx.push_back(i); } }
                if (idx.empty()) { continue; }
                what = "parts";
                r.shuffle(idx);
                size_t cut = r.below(idx.size() + 1);
                std::vector<Message*> raw;
                for (auto i : idx) { raw.push_back(slots[i].m.get()); }
                Parts a, b;
                for (size_t i = 0; i < idx.size(); ++i) { (i < cut ? a : b).AddPart(std::move(slots[idx[i]].m)); }
                Parts c2(std::move(a));
                c2.AddPart(std::move(b));
                bool ok = c2.Size() == raw.size() && c2.Empty() == raw.empty();
                size_t i = 0;
                for (auto& m : c2) { ok = ok && i < raw.size() && m.get() == raw[i] && &c2[i] == raw[i] && c2.At(i).get() == raw[i]; ++i; }
                VP_CHECK(ok, "parts:order", "parts added in one order are in another (%zu added, %zu held)", raw.size(), static_cast<size_t>(c2.Size()));
                for (i = 0; i < std::min(idx.size(), static_cast<size_t>(c2.Size())); ++i) { slots[idx[i]].m = std::move(c2.At(i)); }
            }
        } catch (const MessageBadAlloc& e) {
            vp::count("bad_alloc");
            note("bad_alloc");
            // the message is empty or gone; anything else must be as before
            if (std::string(what) == "create") { drop(s); s.m.reset(); }
            else if (std::string(what) == "rebuild") { s.recvAlign = 0; if (s.b) { drop(s); } }
            else { vp::violation("msg:unexpected-bad-alloc", vp::fmt("%s threw %s", what, e.what())); }
        } catch (const std::exception& e) {
            vp::violation(std::string("msg:exception-in-") + what, vp::fmt("%s; history %s", e.what(), gLog.substr(gLog.size() > 900 ? gLog.size() - 900 : 0).c_str()));
            _exit(1);
        }
        check(s, what);
        if (r.chance(1, 4)) { for (auto& x : slots) { check(x, what); } }
        // release functions: zeromq buffers are in use while a message uses them
        {
            std::lock_guard<std::mutex> l(gTokM);
            for (auto& t : gTok) {
                if (t.second->mustNot && t.second->calls) { vp::violation("msg:released-after-failed-create", "release function called although the message could not be created"); }
            }
        }
        if (!shm) { for (auto& x : slots) { if (x.m && x.b && x.b->tok && x.size && x.b->tok->calls) { vp::violation("msg:released-in-use", vp::fmt("buffer released while a message of %zu bytes uses it; after %s", x.size, what)); } } }
        else { for (auto& x : slots) { if (x.b && x.b->tok && x.b->tok->calls != 1) { vp::violation("msg:release-function-not-called", vp::fmt("shmem took over %zu bytes but the release function was called %d times", x.b->tok->size, x.b->tok->calls)); x.b->tok.reset(); } } }
    }
    for (auto& x : slots) { check(x, "end"); }
    // drain
    for (auto& l : links) { while (!l->q.empty()) { auto v = std::move(l->q.front()); l->q.pop_front(); bool viaParts = v.size() == 2 && v[1].sent; if (v.size() == 1 && !viaParts) { auto m = l->b.NewMessage(); l->b.Receive(m, 10000); } else { Parts p; l->b.Receive(p, 10000); } } }
    for (auto& x : slots) { drop(x); x.m.reset(); }
    if (shm) {
        for (size_t i = 0; i < nodes.size(); ++i) {
            unsigned long f = nodes[i]->freeMem();
            VP_CHECK(f == free0[i], "shm:leak", "segment %u has %lu free bytes after the last message is gone, %lu before the first; history %s", nodes[i]->o.segId, f, free0[i], gLog.substr(gLog.size() > 1500 ? gLog.size() - 1500 : 0).c_str());
        }
    }
    // regions: everything acknowledged by the time the region is gone
    for (size_t g = 0; g < regs.size(); ++g) {
        auto& rg = *regs[g];
        // other devices collect acknowledgements for up to half a second before sending them
        for (int i = 0; nNodes > 1 && i < 5000; i += 5) {
            size_t n = 0;
            { std::lock_guard<std::mutex> l(rg.m); n = rg.acks.size(); }
            if (n >= rg.blocks.size()) { break; }
            vp::sleepMs(5);
        }
        rg.r.reset();
        std::lock_guard<std::mutex> l(rg.m);
        for (auto& b : rg.blocks) { VP_CHECK(rg.acks[b.first] == 1, "region:ack-count", "block %zu of region %zu (%s) acknowledged %d times by the end of the region", static_cast<size_t>(b.first), g, type.c_str(), rg.acks[b.first]); }
        vp::count("region_blocks", rg.blocks.size());
    }
    links.clear();
    nodes.clear();
    {
        std::lock_guard<std::mutex> l(gTokM);
        for (auto& t : gTok) {
            if (t.second->mustNot) { free(t.second->data); continue; }
            VP_CHECK(t.second->calls == 1, t.second->size == 0 ? "msg:release-function-not-called-empty" : "msg:release-function-not-called", "buffer of %zu bytes: release function called %d times by the end", t.second->size, t.second->calls);
            if (!t.second->calls) { free(t.second->data); }
            vp::count("buffers_released");
        }
        gTok.clear();
    }
    vp::count("operations", nOps);
    vp::count("transfers", moved);
    vp::evaluated(vp::mix(h, ci));
    vp::sample(vp::fmt("%s x%u%s: %s", type.c_str(), nNodes, twoSeg ? " two segments" : "", gLog.substr(0, 400).c_str()));
}

// the alignment an object was made with holds for everything received into it
void alignCase(uint64_t ci, vp::Rng& r)
{
    tx::Node a("zeromq", {}), b("zeromq", {});
    bool two = r.chance(1, 2);
    auto tx = a.f->CreateSocket("push", tx::uniq("s")), rx = (two ? b : a).f->CreateSocket("pull", tx::uniq("r"));
    std::string ad = tx::address(two ? "ipc" : "inproc");
    if (!tx->Bind(ad)) { vp::violation("msg:bind", ad); return; }
    rx->Connect(tx::lastEndpoint(*tx));
    auto& f = *(two ? b : a).f;
    vp::phase("received into aligned objects");
    uint64_t h = ci, n = 0;
    for (int o = 0; o < 20; ++o) {
        size_t al = pickAlign(r), sz0 = r.below(300);
        unsigned how = r.below(4);
        MessagePtr m;
        if (how == 0) { m = f.CreateMessage(Alignment{al}); }
        else if (how == 1) { m = f.CreateMessage(sz0, Alignment{al}); }
        else if (how == 2) { m = f.CreateMessage(sz0); m->Rebuild(Alignment{al}); }
        else { m = f.CreateMessage(); m->Rebuild(sz0, Alignment{al}); }
        unsigned k = 2 + r.below(8);
        h = vp::mix(h, vp::mix(al, k));
        for (unsigned j = 0; j < k; ++j) {
            size_t sz = r.chance(1, 4) ? r.below(40) : 30 + r.below(6000);
            auto x = a.f->CreateMessage(sz);
            tx::fill(x->GetData(), sz, o * 100 + j);
            if (tx->Send(x, 5000) < 0 || rx->Receive(m, 5000) < 0) { vp::violation("msg:transfer", "cannot send or receive"); return; }
            ++n;
            VP_CHECK(m->GetSize() == sz && tx::same(m->GetData(), sz, o * 100 + j), "msg:content", "message of %zu bytes received as %zu into an object aligned to %zu", sz, m->GetSize(), al);
            VP_CHECK(al == 0 || sz == 0 || reinterpret_cast<uintptr_t>(m->GetData()) % al == 0, "msg:alignment", "reception %u into one object (made in way %u) aligned to %zu: %zu bytes at %p", j, how, al, sz, m->GetData());
            if (r.chance(1, 8)) { m->SetUsedSize(sz / 2); }
        }
        vp::tick();
    }
    vp::count("aligned_receptions", n);
    vp::evaluated(h);
}

}   // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::watchdog();
    const std::string m = vp::S().mode;
    if (m == "zmq") { vp::forCases(200, [](uint64_t i, vp::Rng& r) { modelCase("zeromq", i, r); }); }
    else if (m == "shm") { vp::forCases(200, [](uint64_t i, vp::Rng& r) { modelCase("shmem", i, r); }); }
    else if (m == "align") { vp::forCases(20, alignCase); }
    return vp::finish();
}
