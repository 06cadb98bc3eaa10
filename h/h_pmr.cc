// C17: memory resources. Allocations, containers and adoption into messages against an interval/byte model.
#include "tx.h"

#include <deque>
#include <fairmq/MemoryResourceTools.h>
#include <fairmq/MemoryResources.h>
#include <fairmq/tools/Strings.h>
#include <list>
#include <memory_resource>
#include <sanitizer/allocator_interface.h>

using namespace fair::mq;

namespace
{
std::string gLog;
void note(const std::string& s) { if (gLog.size() < 20000) { gLog += s + "; "; } }
std::string tail() { return gLog.substr(gLog.size() > 900 ? gLog.size() - 900 : 0); }

// every live piece of memory handed out by any resource
struct Piece { size_t n; const void* res; };
std::map<uintptr_t, Piece> gLive;

// sees what the resource hands out to containers
template<typename Base>
struct Spy : Base
{
    size_t live = 0;
    using Base::Base;
    void* do_allocate(size_t n, size_t al) override
    {
        void* p = Base::do_allocate(n, al);
        vp::count("allocations");
        if (n == 0) { n = 1; }   // must have an address of its own, too
        ++live;
        auto a = reinterpret_cast<uintptr_t>(p);
        if (!p) { vp::violation("pmr:null", vp::fmt("allocate(%zu,%zu) returned null; %s", n, al, tail().c_str())); return p; }
        if (a % al) { vp::violation("pmr:alignment", vp::fmt("allocate(%zu,%zu) returned %p; %s", n, al, p, tail().c_str())); }
        auto it = gLive.lower_bound(a);
        if (it != gLive.end() && it->first < a + n) { vp::violation("pmr:overlap", vp::fmt("allocate(%zu,%zu) overlaps a live piece of %zu bytes; %s", n, al, it->second.n, tail().c_str())); }
        if (it != gLive.begin()) { --it; if (it->first + it->second.n > a) { vp::violation("pmr:overlap", vp::fmt("allocate(%zu,%zu) overlaps a live piece of %zu bytes; %s", n, al, it->second.n, tail().c_str())); } }
        gLive[a] = {n, this};
        memset(p, 0xA5, n);   // the whole piece must be usable
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t al) override
    {
        auto it = gLive.find(reinterpret_cast<uintptr_t>(p));
        if (it != gLive.end() && it->second.res == this) { gLive.erase(it); --live; }   // (absent: adopted by a message before)
        Base::do_deallocate(p, n, al);
    }
};
using Res = Spy<ChannelResource>;

struct S24 { uint64_t a, b; uint32_t c; };
struct alignas(64) S64 { unsigned char c[64]; };
struct S3 { unsigned char c[3]; };
int gObjects = 0;
struct Counted   // counts constructions and destructions
{
    int v;
    Counted(int x = 0) : v(x) { ++gObjects; }
    Counted(const Counted& o) : v(o.v) { ++gObjects; }
    Counted& operator=(const Counted& o) { v = o.v; return *this; }
    ~Counted() { --gObjects; }
};

struct Held { MessagePtr m; std::vector<unsigned char> bytes; uintptr_t own = 0; };

struct World
{
    std::vector<std::unique_ptr<tx::Node>> nodes;
    std::vector<std::unique_ptr<Res>> res;
    std::vector<Held> held;
    struct Raw { void* p; size_t n, al; int r; uint64_t tag; };
    std::vector<Raw> raw;
    vp::Rng* rng;

    void hold(MessagePtr m, std::vector<unsigned char> bytes, uintptr_t own) { held.push_back({std::move(m), std::move(bytes), own}); }
    void checkHeld(const Held& h, const char* when)
    {
        if (h.m->GetSize() != h.bytes.size()) { vp::violation("pmr:message-size", vp::fmt("%s: message has %zu bytes, container had %zu; %s", when, h.m->GetSize(), h.bytes.size(), tail().c_str())); return; }
        if (!h.bytes.empty() && memcmp(h.m->GetData(), h.bytes.data(), h.bytes.size()) != 0) { vp::violation("pmr:message-content", vp::fmt("%s: message of %zu bytes differs from the container's content; %s", when, h.bytes.size(), tail().c_str())); }
    }
    void counts(const char* when)
    {
        for (size_t i = 0; i < res.size(); ++i) {
            size_t n = res[i]->getNumberOfMessages();
            size_t lo = res[i]->live;
            VP_CHECK(n == lo, "pmr:count", "%s: resource holds %zu messages, %zu pieces are live; %s", when, n, lo, tail().c_str());
        }
    }
};

// fill a container, grow/shrink it, then turn it into a message or destroy it
template<typename C, typename F>
void useContainer(World& w, const char* type, F value)
{
    auto& r = *w.rng;
    using T = typename C::value_type;
    int src = static_cast<int>(r.below(w.res.size() + 1));   // last: the default heap
    std::pmr::memory_resource* mr = src < static_cast<int>(w.res.size()) ? static_cast<std::pmr::memory_resource*>(w.res[src].get()) : std::pmr::new_delete_resource();
    const int objects0 = gObjects;
    {
        C c{typename C::allocator_type(mr)};
        size_t ops = static_cast<size_t>(r.range(0, 12));
        size_t maxN = r.chance(1, 15) ? 1200000 / sizeof(T) : (r.chance(1, 3) ? 2000 : 40);
        for (size_t i = 0; i < ops; ++i) {
            unsigned k = static_cast<unsigned>(r.below(7));
            if (k == 0) { c.reserve(r.below(maxN + 1)); }
            else if (k == 1) { size_t n = r.below(maxN + 1); if (n > 3000) { n = n / 20; } c.resize(n, value(r.next())); }
            else if (k == 2) { c.shrink_to_fit(); }
            else if (k == 3 && !c.empty()) { c.erase(c.begin() + static_cast<ptrdiff_t>(r.below(c.size()))); }
            else if (k == 4) { c.insert(c.begin() + static_cast<ptrdiff_t>(r.below(c.size() + 1)), value(r.next())); }
            else { size_t n = r.below(r.chance(1, 4) ? 300 : 8); for (size_t j = 0; j < n; ++j) { c.push_back(value(r.next())); } }
        }
        // moved into a container living elsewhere (or on another resource of the same transport)
        if (r.chance(1, 4)) {
            int to = static_cast<int>(r.below(w.res.size()));
            std::vector<T> want(c.begin(), c.end());
            note(vp::fmt("%s move n=%zu src=%d to=%d", type, c.size(), src, to));
            {
                C d{typename C::allocator_type(w.res[to].get())};
                size_t pre = r.below(6);
                for (size_t j = 0; j < pre; ++j) { d.push_back(value(j)); }
                if (r.chance(1, 2)) { d = std::move(c); } else { C e(std::move(c), typename C::allocator_type(w.res[to].get())); d = std::move(e); }
                VP_CHECK(d.size() == want.size() && (want.empty() || memcmp(d.data(), want.data(), want.size() * sizeof(T)) == 0), "pmr:moved-content", "a container moved onto another resource has other content; %s", tail().c_str());
                VP_CHECK(d.get_allocator().resource() == static_cast<std::pmr::memory_resource*>(w.res[to].get()), "pmr:moved-resource", "moving changed the resource of the container; %s", tail().c_str());
                auto piece = gLive.find(reinterpret_cast<uintptr_t>(d.data()));
                bool onTo = piece != gLive.end() && d.capacity() > 0 && piece->second.res == w.res[to].get();
                VP_CHECK(onTo || d.capacity() * sizeof(T) < 32, "pmr:moved-memory", "a container on resource %d uses memory which that resource does not own; %s", to, tail().c_str());
                vp::count("moved_between_resources");
                if (r.chance(1, 2)) {
                    const void* data = d.data();
                    auto m = getMessage(std::move(d));
                    std::vector<unsigned char> b(want.size() * sizeof(T));
                    if (!b.empty()) { memcpy(b.data(), want.data(), b.size()); }
                    VP_CHECK(m && m->GetTransport() == w.res[to]->getTransportFactory(), "pmr:transport", "message made from a moved container belongs to another transport; %s", tail().c_str());
                    if (!m) { return; }
                    uintptr_t ownp = 0;
                    if (onTo) {
                        auto it = gLive.find(reinterpret_cast<uintptr_t>(data));
                        if (it != gLive.end() && it->second.res == w.res[to].get()) { gLive.erase(it); --w.res[to]->live; }
                        if (m->GetSize() > 0) { ownp = reinterpret_cast<uintptr_t>(m->GetData()); gLive[ownp] = {m->GetSize(), nullptr}; }
                    }
                    w.hold(std::move(m), std::move(b), ownp);
                    w.checkHeld(w.held.back(), "adopted after a move");
                }
            }
            c.clear();
            c.shrink_to_fit();
            for (size_t j = 0, n = r.below(10); j < n; ++j) { c.push_back(value(j + 3)); }
        }
        // what the message must contain
        std::vector<unsigned char> bytes(c.size() * sizeof(T));
        if (!bytes.empty()) { memcpy(bytes.data(), c.data(), bytes.size()); }
        unsigned how = static_cast<unsigned>(r.below(6));
        int dst = static_cast<int>(r.below(w.res.size()));
        const bool own = src < static_cast<int>(w.res.size());
        note(vp::fmt("%s src=%d n=%zu cap=%zu how=%u dst=%d", type, src, c.size(), c.capacity(), how, dst));
        vp::count(own ? "containers_on_resource" : "containers_elsewhere");
        if (how == 0) { /* just destroyed */ }
        else if (how == 1 && !own) {
            bool threw = false;
            try { auto m = getMessage(std::move(c)); } catch (const std::runtime_error&) { threw = true; }
            VP_CHECK(threw, "pmr:no-resource-accepted", "getMessage of a heap container without target did not throw");
        } else {
            bool same = own && (how <= 3);
            MemoryResource* target = how <= 2 ? nullptr : (same ? w.res[src].get() : w.res[dst].get());
            if (!own && !target) { target = w.res[dst].get(); }
            bool adopts = own && (!target || target == w.res[src].get());
            void* data = c.data();
            auto piece = gLive.find(reinterpret_cast<uintptr_t>(data));
            bool onResource = adopts && piece != gLive.end() && piece->second.res == w.res[src].get() && c.capacity() > 0;
            size_t cap = c.capacity() * sizeof(T);
            size_t before = own ? w.res[src]->getNumberOfMessages() : 0;
            auto m = getMessage(std::move(c), target);
            VP_CHECK(m != nullptr, "pmr:no-message", "getMessage returned nothing; %s", tail().c_str());
            if (!m) { return; }
            auto* tf = (adopts ? w.res[src].get() : (target ? target : w.res[src].get()))->getTransportFactory();
            VP_CHECK(m->GetTransport() == tf && m->GetType() == tf->GetType(), "pmr:transport", "message made from the container belongs to another transport; %s", tail().c_str());
            uintptr_t ownp = 0;
            if (onResource) {
                vp::count("adopted");
                if (gLive.count(reinterpret_cast<uintptr_t>(data)) && gLive[reinterpret_cast<uintptr_t>(data)].res == w.res[src].get()) {
                    // the library's own copy of the container has told us about its release already, or the message owns it now
                    gLive.erase(reinterpret_cast<uintptr_t>(data));
                    --w.res[src]->live;
                }
                if (!bytes.empty() && cap - bytes.size() < 900000) {
                    VP_CHECK(m->GetData() == data, "pmr:copied", "container data at %p, message data at %p: the buffer was not transferred; %s", data, m->GetData(), tail().c_str());
                }
                VP_CHECK(w.res[src]->getNumberOfMessages() + 1 == before, "pmr:count-after-adoption", "resource held %zu messages, %zu after one was adopted; %s", before, w.res[src]->getNumberOfMessages(), tail().c_str());
                // the message's memory is live until it is destroyed
                if (m->GetSize() > 0) { ownp = reinterpret_cast<uintptr_t>(m->GetData()); gLive[ownp] = {m->GetSize(), nullptr}; }
            } else {
                vp::count("copied");
                if (!bytes.empty()) { VP_CHECK(m->GetData() != data, "pmr:not-copied", "message shares the memory of a container that does not live in a message"); }
            }
            VP_CHECK(c.size() == 0, "pmr:container-not-empty", "container has %zu elements after it was turned into a message; %s", static_cast<size_t>(c.size()), tail().c_str());
            w.hold(std::move(m), std::move(bytes), ownp);
            w.checkHeld(w.held.back(), "adopted");
            // still usable
            if (r.chance(1, 2)) {
                size_t k = r.below(30);
                for (size_t i = 0; i < k; ++i) { c.push_back(value(i)); }
                w.checkHeld(w.held.back(), "container reused");
            }
        }
    }
    w.counts("after container");
    if (std::is_same<T, Counted>::value) { VP_CHECK(gObjects == objects0, "pmr:objects", "%d element objects more than before; %s", gObjects - objects0, tail().c_str()); }
}

void oneCase(uint64_t ci, vp::Rng& r)
{
    gLog.clear();
    gLive.clear();
    vp::phase("pmr");
    World w;
    w.rng = &r;
    uint64_t h = 0;
    tx::Opt o;
    o.session = tx::newSession();
    o.segSize = 48ull << 20;
    o.alloc = r.chance(1, 3) ? "simple_seq_fit" : "rbtree_best_fit";
    unsigned kinds = static_cast<unsigned>(r.range(1, 3));
    if (kinds & 1) { w.nodes.push_back(std::make_unique<tx::Node>("zeromq", o)); }
    if (kinds & 2) { w.nodes.push_back(std::make_unique<tx::Node>("shmem", o)); }
    unsigned long free0 = 0;
    tx::Node* shm = nullptr;
    for (auto& n : w.nodes) { if (n->type == "shmem") { shm = n.get(); free0 = n->freeMem(); } }
    for (auto& n : w.nodes) {
        w.res.push_back(std::make_unique<Res>(n->f.get()));
        if (r.chance(1, 2)) { w.res.push_back(std::make_unique<Res>(n->f.get())); }
        VP_CHECK(n->f->GetMemoryResource() != nullptr && n->f->GetMemoryResource()->getTransportFactory() == n->f.get() && n->f->GetMemoryResource() == static_cast<pmr::memory_resource*>(*n->f), "pmr:factory-resource", "the transport's resource does not belong to it");
        VP_CHECK(n->f->GetMemoryResource()->getNumberOfMessages() == 0, "pmr:count", "a new transport's resource is not empty");
    }
    { bool threw = false; try { ChannelResource c(nullptr); } catch (const std::runtime_error&) { threw = true; } VP_CHECK(threw, "pmr:null-factory", "resource accepts a null factory"); }
    const size_t heap0 = __sanitizer_get_current_allocated_bytes();
    (void)heap0;

    size_t nOps = static_cast<size_t>(r.range(10, 60));
    for (size_t op = 0; op < nOps; ++op) {
        unsigned k = static_cast<unsigned>(r.below(20));
        h = vp::mix(h, k + 32 * r.below(8));
        if (k < 5) {   // raw allocation
            int ri = static_cast<int>(r.below(w.res.size()));
            size_t al = size_t(1) << r.below(r.chance(1, 4) ? 13 : 7);
            size_t n = r.chance(1, 20) ? 0 : 1 + r.below(r.chance(1, 10) ? 200000 : 500);
            uint64_t tag = r.next();
            note(vp::fmt("alloc(%zu,%zu)@%d", n, al, ri));
            void* p = w.res[ri]->allocate(n, al);
            if (n) { tx::fill(p, n, tag); }
            w.raw.push_back({p, n, al, ri, tag});
        } else if (k < 9 && !w.raw.empty()) {   // release, take or put back
            size_t i = r.below(w.raw.size());
            auto x = w.raw[i];
            w.raw.erase(w.raw.begin() + static_cast<ptrdiff_t>(i));
            if (x.n) { VP_CHECK(tx::same(x.p, x.n, x.tag), "pmr:content", "%zu bytes of live memory were altered; %s", x.n, tail().c_str()); }
            auto& rs = *w.res[x.r];
            unsigned how = static_cast<unsigned>(r.below(3));
            note(vp::fmt("release%u(%zu)@%d", how, x.n, x.r));
            if (how == 0 || x.n == 0) {
                size_t before = rs.getNumberOfMessages();
                rs.deallocate(x.p, x.n, x.al);
                VP_CHECK(rs.getNumberOfMessages() <= before, "pmr:count", "count grew by releasing");
            } else {
                auto m = rs.getMessage(x.p);
                VP_CHECK(m && m->GetData() == x.p && m->GetSize() >= x.n && tx::same(m->GetData(), x.n, x.tag), "pmr:get-message", "getMessage of a live piece of %zu bytes gives %s; %s", x.n, m ? "another buffer" : "nothing", tail().c_str());
                VP_CHECK(!rs.getMessage(x.p), "pmr:two-owners", "a second message for the same memory; %s", tail().c_str());
                if (!m) { continue; }
                VP_CHECK(m->GetTransport() == rs.getTransportFactory(), "pmr:transport", "piece owned by a message of another transport");
                if (how == 2) {
                    void* p = rs.setMessage(std::move(m));
                    VP_CHECK(p == x.p, "pmr:set-message", "setMessage gives %p for data at %p", p, x.p);
                    w.raw.push_back(x);
                } else { gLive.erase(reinterpret_cast<uintptr_t>(x.p)); --rs.live; }
            }
            w.counts("after release");
        } else if (k < 11 && !w.held.empty()) {
            size_t i = r.below(w.held.size());
            w.checkHeld(w.held[i], "later");
            if (w.held[i].own) { gLive.erase(w.held[i].own); }
            note("drop message");
            w.held.erase(w.held.begin() + static_cast<ptrdiff_t>(i));
        } else {
            switch (r.below(9)) {
                case 0: useContainer<std::pmr::vector<unsigned char>>(w, "bytes", [](uint64_t v) { return static_cast<unsigned char>(v); }); break;
                case 1: useContainer<std::pmr::vector<uint16_t>>(w, "u16", [](uint64_t v) { return static_cast<uint16_t>(v); }); break;
                case 2: useContainer<std::pmr::vector<double>>(w, "double", [](uint64_t v) { return static_cast<double>(v); }); break;
                case 3: useContainer<std::pmr::vector<S24>>(w, "s24", [](uint64_t v) { S24 s; memset(static_cast<void*>(&s), static_cast<int>(v), sizeof s); return s; }); break;
                case 4: useContainer<std::pmr::vector<S64>>(w, "s64", [](uint64_t v) { S64 s; memset(&s, static_cast<int>(v), sizeof s); return s; }); break;
                case 5: useContainer<std::pmr::vector<S3>>(w, "s3", [](uint64_t v) { S3 s; memset(&s, static_cast<int>(v), sizeof s); return s; }); break;
                case 6: useContainer<std::pmr::vector<Counted>>(w, "counted", [](uint64_t v) { return Counted(static_cast<int>(v)); }); break;
                case 7: useContainer<std::pmr::string>(w, "string", [](uint64_t v) { return static_cast<char>('a' + v % 26); }); break;
                default: {   // node based containers only allocate and release
                    auto* mr = w.res[r.below(w.res.size())].get();
                    std::pmr::list<uint64_t> l(mr);
                    std::pmr::map<int, uint64_t> m(mr);
                    std::pmr::deque<uint32_t> d(mr);
                    uint64_t sum = 0, got = 0;
                    for (unsigned i = 0; i < 60; ++i) { uint64_t v = r.next() >> 8; l.push_back(v); m[static_cast<int>(i)] = v; d.push_back(static_cast<uint32_t>(v)); sum += 2 * v + static_cast<uint32_t>(v); if (i % 3 == 0) { sum -= l.front(); l.pop_front(); } }
                    for (auto v : l) { got += v; }
                    for (auto& kv : m) { got += kv.second; }
                    for (auto v : d) { got += v; }
                    VP_CHECK(sum == got, "pmr:content", "node containers lost values; %s", tail().c_str());
                    note("nodes");
                }
            }
        }
        for (auto& x : w.raw) { if (x.n && !tx::same(x.p, x.n, x.tag)) { vp::violation("pmr:content", vp::fmt("%zu bytes of live memory were altered; %s", x.n, tail().c_str())); break; } }
        if (r.chance(1, 5)) { for (auto& x : w.held) { w.checkHeld(x, "later"); } }
    }
    for (auto& x : w.held) { w.checkHeld(x, "end"); }
    w.held.clear();
    for (auto& x : w.raw) { w.res[x.r]->deallocate(x.p, x.n, x.al); }
    w.raw.clear();
    w.counts("end");
    for (auto& rs : w.res) { VP_CHECK(rs->getNumberOfMessages() == 0, "pmr:count-not-zero", "resource holds %zu messages after everything was released; %s", rs->getNumberOfMessages(), tail().c_str()); }
    if (shm) { VP_CHECK(shm->freeMem() == free0, "pmr:shm-leak", "%lu free bytes, %lu at the start; %s", shm->freeMem(), free0, tail().c_str()); }
    w.res.clear();
    {
        World().held.swap(w.held);
        std::vector<World::Raw>().swap(w.raw);
        gLive.clear();
        const long d = static_cast<long>(__sanitizer_get_current_allocated_bytes()) - static_cast<long>(heap0);
        VP_CHECK(d < 30000 + static_cast<long>(gLog.capacity()), "pmr:heap-leak", "%ld bytes of heap more than at the start; %s", d, tail().c_str());
    }
    vp::count("operations", nOps);
    vp::evaluated(vp::mix(h, ci));
    vp::sample(gLog.substr(0, 400));
}
}   // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::watchdog();
    vp::forCases(200, [](uint64_t i, vp::Rng& r) { oneCase(i, r); });
    return vp::finish();
}
