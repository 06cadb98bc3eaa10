// C21: everything at once. Many threads use one transport, one device, one set of stores in all documented ways;
// race detector, lock-order detector and address sanitizer watch, the harness watches content, conservation and progress.
#include "tx.h"

#include <fairmq/Device.h>
#include <fairmq/Plugin.h>
#include <fairmq/PluginServices.h>
#include <fairmq/Poller.h>
#include <fairmq/UnmanagedRegion.h>

using namespace fair::mq;
using namespace std;
using vp::fmt;
using Tr = fair::mq::Transition;
using St = fair::mq::State;

namespace
{
[[noreturn]] void giveUp() { vp::finish(); _exit(0); }

// ------------------------------------------------------------------ one transport, many threads
struct Box { MessagePtr m; uint64_t tag = 0; };
struct Slots   // a region all threads of a node take pieces from
{
    UnmanagedRegionPtr region;
    atomic<size_t> next{0};
    atomic<uint64_t> created{0}, acked{0};
    mutex m;
    vector<char> given, back;   // per slot
    static constexpr size_t kSlot = 256;
};
struct NodeX
{
    unique_ptr<tx::Node> n;
    mutex m;
    vector<Box> pool;
    unique_ptr<Slots> slots;
    atomic<uint64_t> events{0};
    Box get(vp::Rng& r)
    {
        lock_guard<mutex> l(m);
        if (pool.empty()) { return {}; }
        swap(pool[r.below(pool.size())], pool.back());
        Box b = move(pool.back());
        pool.pop_back();
        return b;
    }
    void put(Box b)
    {
        Box old;   // destroyed outside of the lock
        lock_guard<mutex> l(m);
        if (pool.size() >= 40) { old = move(pool[0]); pool[0] = move(b); } else { pool.push_back(move(b)); }
    }
};
struct Hd { uint64_t tag; };
void write(Message& m, uint64_t tag)
{
    Hd h{tag};
    char* p = static_cast<char*>(m.GetData());
    memcpy(p, &h, sizeof h);
    tx::fill(p + sizeof h, m.GetSize() - sizeof h, tag);
}
bool good(Message& m, uint64_t* tag = nullptr)
{
    Hd h{};
    if (m.GetSize() < sizeof h) { return false; }
    char* p = static_cast<char*>(m.GetData());
    memcpy(&h, p, sizeof h);
    if (tag) { *tag = h.tag; }
    return tx::same(p + sizeof h, m.GetSize() - sizeof h, h.tag);
}
struct Ring { unique_ptr<Channel> out, in, outP, inP; atomic<uint64_t> sent{0}, got{0}, sentP{0}, gotP{0}; };   // from thread i to i + 1

atomic<uint64_t> gFreed{0}, gGivenAway{0};
void onFree(void* p, void* hint) { free(p); *static_cast<atomic<uint64_t>*>(hint) += 1; }

void transport(uint64_t c, vp::Rng& r)
{
    string tr = c % 2 ? "shmem" : "zeromq";
    vp::phase("transport setup");
    int T = 2 + r.below(5), N = r.chance(1, 2) ? 1 : 2, ops = 60 + r.below(vp::S().thorough ? 400 : 140);
    string session = tx::newSession();
    vector<unique_ptr<NodeX>> nodes;
    for (int i = 0; i < N; ++i) {
        auto x = make_unique<NodeX>();
        tx::Opt o;
        o.session = session; o.segSize = 16u << 20; o.segId = N == 2 && r.chance(1, 2) ? i : 0;
        o.meta = r.chance(1, 3) ? 4096 : 0;
        o.attempts = -1;
        o.interval = 1;
        if (r.chance(1, 3)) { o.alloc = "simple_seq_fit"; }
        if (i && nodes[0]->n->o.segId == o.segId) { o.alloc = nodes[0]->n->o.alloc; }
        x->n = make_unique<tx::Node>(tr, o);
        nodes.push_back(move(x));
    }
    string sh = fmt("%s, %d threads, %d nodes, %d operations each", tr.c_str(), T, N, ops);
    auto nodeOf = [&](int t) -> NodeX& { return *nodes[static_cast<size_t>(t % N)]; };
    for (auto& n : nodes) {
        if (r.chance(1, 5)) { continue; }
        n->slots = make_unique<Slots>();
        auto s = n->slots.get();
        s->given.resize(4000);
        s->back.resize(4000);
        auto ack = [s](void* p, size_t) {
            size_t i = static_cast<size_t>(static_cast<char*>(p) - static_cast<char*>(s->region->GetData())) / Slots::kSlot;
            lock_guard<mutex> l(s->m);
            if (i >= s->back.size() || !s->given[i] || s->back[i]) { vp::violation("ack-wrong", fmt("block %zu of a region was acknowledged %s", i, i < s->back.size() && s->back[i] ? "twice" : "without having been used")); return; }
            s->back[i] = 1;
            ++s->acked;
        };
        size_t bytes = 4000 * Slots::kSlot;
        RegionConfig rc;
        rc.linger = 200;
        rc.rcSegmentSize = 4 << 20;
        if (r.chance(1, 2)) { s->region = n->n->f->CreateUnmanagedRegion(bytes, RegionCallback([ack](void* p, size_t z, void*) { ack(p, z); }), rc); }
        else { s->region = n->n->f->CreateUnmanagedRegion(bytes, RegionBulkCallback([ack](const vector<RegionBlock>& v) { for (auto& b : v) { ack(b.ptr, b.size); } }), rc); }
    }
    vector<unique_ptr<Ring>> ring;
    for (int t = 0; t < T; ++t) {
        auto g = make_unique<Ring>();
        bool sameNode = t % N == (t + 1) % T % N;
        for (int p = 0; p < 2; ++p) {
            auto o = make_unique<Channel>(tx::uniq("o"), "push", nodeOf(t).n->f), i = make_unique<Channel>(tx::uniq("i"), "pull", nodeOf((t + 1) % T).n->f);
            o->GetSocket().SetLinger(0);
            i->GetSocket().SetLinger(0);
            if (r.chance(1, 2)) { o->GetSocket().SetSndBufSize(1 + r.below(10)); i->GetSocket().SetRcvBufSize(1 + r.below(10)); }
            VP_CHECK(o->Bind(tx::address(sameNode && r.chance(1, 2) ? "inproc" : r.chance(1, 2) ? "ipc" : "tcp")), "setup", "cannot bind");
            VP_CHECK(i->Connect(tx::lastEndpoint(o->GetSocket())), "setup", "cannot connect");
            (p ? g->outP : g->out) = move(o);
            (p ? g->inP : g->in) = move(i);
        }
        ring.push_back(move(g));
    }
    vp::phase("transport: " + sh);
    vp::perturb(r.chance(2, 3) ? 1 + static_cast<unsigned>(r.below(4)) : 0, r.next());
    vp::resetScheduleHash();
    gFreed = 0;
    gGivenAway = 0;
    atomic<uint64_t> opCount[16] = {};
    bool pausing = r.chance(1, 2);
    vector<vp::Rng> rngs;
    for (int t = 0; t < T; ++t) { rngs.emplace_back(r.next()); }
    atomic<int> sending{T};
    auto body = [&](unsigned tt) {
        int t = static_cast<int>(tt);
        vp::Rng& q = rngs[tt];
        NodeX& x = nodeOf(t);
        auto& f = x.n->f;
        Ring& o = *ring[tt];
        Ring& in = *ring[(tt + static_cast<unsigned>(T) - 1) % static_cast<unsigned>(T)];
        auto size = [&] { return sizeof(Hd) + (q.chance(1, 20) ? q.below(20000) : q.below(300)); };
        auto fresh = [&] {
            MessagePtr m;
            size_t n = size();
            uint64_t tag = q.next();
            switch (q.below(6)) {
                case 0: m = f->CreateMessage(n); break;
                case 1: m = f->CreateMessage(n, Alignment{1ull << (3 + q.below(5))}); break;
                case 2: m = f->CreateMessage(); m->Rebuild(n); break;
                case 3: { void* p = malloc(n); ++gGivenAway; m = f->CreateMessage(p, n, onFree, &gFreed); break; }
                case 4: m = f->CreateMessage(n + 100); m->SetUsedSize(n); break;
                default: {
                    auto s = x.slots.get();
                    size_t i = s ? s->next.fetch_add(1) : SIZE_MAX;
                    if (!s || i >= 4000) { m = f->CreateMessage(n); break; }
                    char* p = static_cast<char*>(s->region->GetData()) + i * Slots::kSlot;
                    { lock_guard<mutex> l(s->m); s->given[i] = 1; }
                    ++s->created;
                    size_t z = sizeof(Hd) + q.below(Slots::kSlot - sizeof(Hd));
                    Hd h{tag};
                    memcpy(p, &h, sizeof h);
                    tx::fill(p + sizeof h, z - sizeof h, tag);
                    m = f->CreateMessage(s->region, p, z, nullptr);
                    ++opCount[0];
                    return m;
                }
            }
            write(*m, tag);
            ++opCount[1];
            return m;
        };
        auto check = [&](Message& m, const char* where) { VP_CHECK(good(m), "content", "message altered (%s); %s", where, sh.c_str()); };
        auto receive = [&](int timeout) {
            bool any = false;
            if (in.got < in.sent || q.chance(1, 4)) {
                auto m = in.in->NewMessage();
                if (in.in->Receive(m, timeout) >= 0) { ++in.got; check(*m, "received"); ++opCount[2]; any = true; if (q.chance(1, 2)) { x.put({move(m)}); } }
            }
            if (in.gotP < in.sentP || q.chance(1, 4)) {
                Parts ps;
                if (in.inP->Receive(ps, timeout) >= 0) { ++in.gotP; for (auto& p : ps) { check(*p, "received part"); } ++opCount[3]; any = true; if (q.chance(1, 2)) { x.put({move(ps.At(0))}); } }
            }
            return any;
        };
        // an extra endpoint this thread owns alone; region of its own
        for (int k = 0; k < ops; ++k) {
            vp::tick();
            if (pausing && q.chance(1, 30)) { vp::sleepUs(q.below(300)); }
            switch (q.below(16)) {
                case 0: case 1: x.put({fresh()}); break;
                case 2: { auto m = fresh(); check(*m, "fresh"); break; }
                case 3: case 4: { Box b = x.get(q); if (b.m) { check(*b.m, "pool"); if (q.chance(1, 2)) { x.put(move(b)); } } break; }
                case 5: case 6: {
                    Box b = x.get(q);
                    if (!b.m) { break; }
                    auto c2 = b.m->GetTransport()->CreateMessage();
                    c2->Copy(*b.m);
                    check(*c2, "copy");
                    ++opCount[4];
                    // the original and the copy go to different threads
                    x.put(move(b));
                    if (q.chance(2, 3)) { x.put({move(c2)}); }
                    break;
                }
                case 7: case 8: case 9: {
                    Box b = q.chance(1, 2) ? x.get(q) : Box{fresh()};
                    if (!b.m) { b.m = fresh(); }
                    if (o.out->Send(b.m, 0) >= 0) { ++o.sent; ++opCount[5]; } else { check(*b.m, "refused"); }
                    break;
                }
                case 10: {
                    Parts ps;
                    for (int i = 1 + q.below(4); i > 0; --i) { Box b = q.chance(1, 2) ? x.get(q) : Box{}; ps.AddPart(b.m ? move(b.m) : fresh()); }
                    if (o.outP->Send(ps, 0) >= 0) { ++o.sentP; ++opCount[6]; } else { for (auto& p : ps) { check(*p, "refused part"); } }
                    break;
                }
                case 11: case 12: receive(0); break;
                case 13: {
                    if (q.chance(2, 3)) { break; }
                    // a region of its own
                    atomic<uint64_t> acks{0};
                    RegionConfig rc;
                    rc.linger = 100;
                    rc.rcSegmentSize = 200000;
                    uint64_t made = q.chance(1, 3) ? 1 + q.below(3) : 0;   // (acknowledgements arrive in batches, up to 500 ms later)
                    {
                        auto reg = q.chance(1, 2) ? f->CreateUnmanagedRegion(4096 + q.below(10000), RegionCallback([&acks](void*, size_t, void*) { ++acks; }), rc)
                                                  : f->CreateUnmanagedRegion(4096 + q.below(10000), RegionBulkCallback([&acks](const vector<RegionBlock>& v) { acks += v.size(); }), rc);
                        for (uint64_t i = 0; i < made; ++i) {
                            char* p = static_cast<char*>(reg->GetData()) + i * 500;
                            uint64_t tag = q.next();
                            Hd h{tag};
                            memcpy(p, &h, sizeof h);
                            tx::fill(p + sizeof h, 100, tag);
                            auto m = f->CreateMessage(reg, p, sizeof h + 100, nullptr);
                            if (q.chance(1, 2)) { auto c2 = f->CreateMessage(); c2->Copy(*m); check(*c2, "region copy"); m.reset(); }
                        }
                    }
                    VP_CHECK(acks == made, "acks", "%llu of %llu messages of a destroyed region were acknowledged; %s", (unsigned long long)acks.load(), (unsigned long long)made, sh.c_str());
                    ++opCount[7];
                    break;
                }
                case 14: {
                    if (q.chance(1, 2)) { auto infos = f->GetRegionInfo(); opCount[8] += 1; break; }
                    if (t >= N) { break; }   // one thread per node owns the subscription
                    if (q.chance(2, 3)) {
                        f->SubscribeToRegionEvents([&x, &f](RegionInfo) { ++x.events; if (x.events % 3 == 0) { f->GetRegionInfo(); } });
                        VP_CHECK(f->SubscribedToRegionEvents(), "subscribed", "SubscribedToRegionEvents is false after subscribing; %s", sh.c_str());
                    } else { f->UnsubscribeFromRegionEvents(); }
                    ++opCount[9];
                    break;
                }
                default: {
                    if (q.chance(1, 2)) { auto p = f->CreatePoller(vector<Channel*>{in.in.get(), in.inP.get()}); p->Poll(0); p->CheckInput(0); ++opCount[10]; break; }
                    if (q.chance(1, 2)) { break; }
                    Channel a(tx::uniq("a"), "push", f), b(tx::uniq("b"), "pull", f);
                    a.GetSocket().SetLinger(0);
                    if (!a.Bind(tx::address(q.chance(1, 2) ? "inproc" : "ipc")) || !b.Connect(tx::lastEndpoint(a.GetSocket()))) { vp::violation("extra-channel", "cannot connect two new channels; " + sh); break; }
                    auto m = fresh(), g = b.NewMessage();
                    bool ok = a.Send(m, 5000) >= 0 && b.Receive(g, 5000) >= 0;
                    VP_CHECK(ok, "extra-channel", "no transfer between two new channels; %s", sh.c_str());
                    if (ok) { check(*g, "new channel"); }
                    ++opCount[11];
                }
            }
        }
        --sending;
        // receive what is left
        double t0 = vp::now();
        while (sending > 0 || in.got < in.sent || in.gotP < in.sentP) {
            if (!receive(2)) { vp::tick(); }
            if (sending == 0 && vp::now() - t0 > 30) { vp::violation("lost", fmt("%llu/%llu messages, %llu/%llu multi-part messages arrived; ", (unsigned long long)in.got, (unsigned long long)in.sent, (unsigned long long)in.gotP, (unsigned long long)in.sentP) + sh); break; }
            if (sending > 0) { t0 = vp::now(); }
        }
    };
    vp::runThreads(static_cast<unsigned>(T), body);
    vp::perturb(0, 0);
    vp::phase("transport end: " + sh);
    uint64_t h = vp::hash(sh), total = 0;
    static const char* names[] = {"region messages", "messages created", "received", "multi-part received", "copies", "sent", "multi-part sent", "regions", "region infos", "(un)subscriptions", "polls", "channels"};
    for (int i = 0; i < 12; ++i) { vp::count(names[i], opCount[i]); h = vp::mix(h, opCount[i]); total += opCount[i]; }
    for (auto& n : nodes) { n->pool.clear(); }
    ring.clear();
    for (auto& n : nodes) { if (n->n->f->SubscribedToRegionEvents()) { n->n->f->UnsubscribeFromRegionEvents(); } vp::count("region events seen", n->events); }
    for (auto& n : nodes) {
        if (!n->slots) { continue; }
        double t0 = vp::now();
        while (n->slots->acked < n->slots->created && vp::now() - t0 < 20) { vp::sleepMs(1); vp::tick(); }
        VP_CHECK(n->slots->acked == n->slots->created, "acks", "%llu of %llu messages of the common region were acknowledged; %s", (unsigned long long)n->slots->acked, (unsigned long long)n->slots->created, sh.c_str());
        n->slots->region.reset();
    }
    double t0 = vp::now();
    while (gFreed < gGivenAway && vp::now() - t0 < 5) { vp::sleepMs(1); }
    VP_CHECK(gFreed == gGivenAway, "free-callback", "%llu buffers given to messages, %llu free callbacks; %s", (unsigned long long)gGivenAway, (unsigned long long)gFreed, sh.c_str());
    vp::interleaving(vp::scheduleHash());
    vp::evaluated(h, total > 0);
    vp::sample(sh);
    nodes.clear();
}

// ------------------------------------------------------------------ one device, many users
struct Busy : Device
{
    vector<pair<string, int>> outs, ins;
    atomic<uint64_t> moved{0};
    uint64_t seed = 1;
    void Run() override
    {
        // distinct channels in distinct threads
        vector<thread> ts;
        for (auto& o : outs) {
            ts.emplace_back([this, o] {
                vp::Rng q(seed, static_cast<uint64_t>(o.second) + 1);
                while (!NewStatePending()) {
                    auto m = NewMessageFor(o.first, o.second, sizeof(Hd) + q.below(200));
                    write(*m, q.next());
                    Send(m, o.first, o.second, 5);
                    vp::tick();
                }
            });
        }
        for (auto& i : ins) {
            ts.emplace_back([this, i] {
                while (!NewStatePending()) {
                    auto m = NewMessageFor(i.first, i.second);
                    if (Receive(m, i.first, i.second, 5) >= 0) { ++moved; VP_CHECK(good(*m), "content", "message altered inside of a device"); }
                }
            });
        }
        while (!NewStatePending()) { WaitFor(chrono::milliseconds(20)); }
        for (auto& t : ts) { t.join(); }
    }
};
struct Wrap : Plugin
{
    using Plugin::Plugin;
    using Plugin::ChangeDeviceState; using Plugin::GetCurrentDeviceState; using Plugin::TakeDeviceControl; using Plugin::StealDeviceControl; using Plugin::ReleaseDeviceControl;
    using Plugin::SubscribeToDeviceStateChange; using Plugin::UnsubscribeFromDeviceStateChange; using Plugin::GetProperty; using Plugin::GetPropertyKeys; using Plugin::SubscribeToPropertyChange;
    using Plugin::UnsubscribeFromPropertyChange; using Plugin::SubscribeToPropertyChangeAsString; using Plugin::UnsubscribeFromPropertyChangeAsString;
};
void device(uint64_t, vp::Rng& r)
{
    vp::phase("device setup");
    string tr = r.chance(1, 2) ? "shmem" : "zeromq", session = tx::newSession();
    ProgOptions cfg;
    cfg.SetProperty<string>("id", "busy");
    cfg.SetProperty<string>("session", session);
    cfg.SetProperty<string>("transport", tr);
    cfg.SetProperty<size_t>("shm-segment-size", 16u << 20);
    cfg.SetProperty<int>("init-timeout", 60);
    cfg.SetProperty<int>("max-run-time", 0);
    Busy dev;
    dev.seed = r.next();
    int pairs = 1 + r.below(3), rate = r.below(2);
    for (int i = 0; i < pairs; ++i) {
        string a = tx::address("ipc"), t2 = r.chance(2, 3) ? tr : r.chance(1, 2) ? "shmem" : "zeromq";
        for (int s = 0; s < 2; ++s) {
            string k = fmt("chans.%s.%d.", s ? "in" : "out", i);
            cfg.SetProperty<string>(k + "type", s ? "pull" : "push");
            cfg.SetProperty<string>(k + "method", s ? "connect" : "bind");
            cfg.SetProperty<string>(k + "address", a);
            cfg.SetProperty<string>(k + "transport", i == 0 ? tr : tr);
            cfg.SetProperty<int>(k + "rateLogging", rate);
            cfg.SetProperty<int>(k + "linger", 0);
        }
        dev.outs.emplace_back("out", i);
        dev.ins.emplace_back("in", i);
    }
    dev.SetConfig(cfg);
    string sh = fmt("device %s, %d channel pairs, rate logging %d", tr.c_str(), pairs, rate);
    thread runner([&] { dev.RunStateMachine(); });
    PluginServices svc(cfg, dev);
    vector<unique_ptr<Wrap>> w;
    int users = 2 + r.below(4);
    for (int i = 0; i <= users; ++i) { w.push_back(make_unique<Wrap>(fmt("p%d", i), tools::Version{1, 0, 0}, "m", "h", &svc)); }
    vp::phase("device: " + sh);
    vp::perturb(r.chance(2, 3) ? 1 + static_cast<unsigned>(r.below(4)) : 0, r.next());
    vp::resetScheduleHash();
    atomic<bool> done{false};
    atomic<uint64_t> n[12] = {};
    atomic<uint64_t> cbs{0};
    atomic<bool> cycling{true};
    vector<vp::Rng> rngs;
    for (int i = 0; i <= users; ++i) { rngs.emplace_back(r.next()); }
    vector<thread> ts;
    for (int u = 1; u <= users; ++u) {
        ts.emplace_back([&, u] {
            vp::Rng& q = rngs[static_cast<size_t>(u)];
            Wrap& p = *w[static_cast<size_t>(u)];
            string me = fmt("p%d", u);
            p.SubscribeToPropertyChange<int>([&](const string&, int) { ++cbs; });
            p.SubscribeToPropertyChangeAsString([&](const string&, string) { ++cbs; });
            p.SubscribeToDeviceStateChange([&](St) { ++cbs; });
            dev.SubscribeToNewTransition(me, [&](Tr) { ++cbs; });
            bool sub[4] = {true, true, true, true};   // unsubscribing twice is an error
            auto off = [&](int i) {
                if (!sub[i]) { return; }
                sub[i] = false;
                switch (i) {
                    case 0: p.UnsubscribeFromPropertyChange<int>(); break;
                    case 1: p.UnsubscribeFromPropertyChangeAsString(); break;
                    case 2: p.UnsubscribeFromDeviceStateChange(); break;
                    default: dev.UnsubscribeFromNewTransition(me);
                }
            };
            while (!done) {
                vp::tick();
                string key = fmt("k%llu", (unsigned long long)q.below(4));
                try {
                    switch (q.below(16)) {
                        case 0: svc.SetProperty<int>(key, static_cast<int>(q.below(100))); ++n[0]; break;
                        case 1: cfg.SetProperty<string>("s" + key, to_string(q.below(100))); ++n[0]; break;
                        case 2: try { svc.GetProperty<int>(key); svc.GetPropertyAsString("s" + key, ""); } catch (PropertyNotFoundError&) {} ++n[1]; break;
                        case 3: svc.GetProperties("k.*"); svc.GetPropertyKeys(); svc.GetChannelInfo(); svc.GetPropertiesAsString(".*"); ++n[1]; break;
                        case 4: svc.UpdateProperty<int>(key, 5); svc.SetProperties({{key, 7}, {"s" + key, string("x")}}); ++n[0]; break;
                        case 5: if (q.chance(1, 4)) { svc.DeleteProperty(key); } svc.PropertyExists(key); ++n[0]; break;
                        case 6: p.SubscribeToPropertyChange<int>([&, u](const string&, int) { ++cbs; if (u == 1) { svc.GetPropertyAsString("id"); } }); sub[0] = true; ++n[2]; break;
                        case 7: if (q.chance(1, 2)) { off(0); } ++n[2]; break;
                        case 8: p.SubscribeToPropertyChangeAsString([&](const string&, string) { ++cbs; }); sub[1] = true; if (q.chance(1, 2)) { off(1); } ++n[2]; break;
                        case 9: p.SubscribeToDeviceStateChange([&](St) { ++cbs; svc.GetCurrentDeviceState(); svc.GetProperty<string>("id"); }); sub[2] = true; ++n[3]; break;
                        case 10: if (q.chance(1, 2)) { off(2); } ++n[3]; break;
                        case 11: svc.GetCurrentDeviceState(); dev.GetCurrentStateName(); dev.NewStatePending(); ++n[4]; break;
                        case 12: {
                            // may take control away from the driver for a moment
                            if (q.chance(1, 3)) { p.StealDeviceControl(); } else { p.TakeDeviceControl(); }
                            vp::sleepUs(q.below(100));
                            p.ReleaseDeviceControl();
                            ++n[5];
                            break;
                        }
                        case 13: svc.GetDeviceController(); ++n[6]; break;
                        case 14: dev.SubscribeToNewTransition(me, [&](Tr) { ++cbs; svc.GetProperty<string>("id"); }); sub[3] = true; if (q.chance(1, 2)) { off(3); } ++n[3]; break;
                        default: if (cycling) { p.ChangeDeviceState(q.chance(1, 2) ? Tr::Stop : Tr::Run); ++n[7]; p.ReleaseDeviceControl(); } break;
                    }
                } catch (PluginServices::DeviceControlError&) { ++n[8]; }
                if (q.chance(1, 3)) { vp::sleepUs(q.below(300)); }
            }
            for (int i = 0; i < 4; ++i) { off(i); }
            try { p.ReleaseDeviceControl(); } catch (PluginServices::DeviceControlError&) {}
        });
    }
    // walks through the states whatever the others do
    double t0 = vp::now();
    static const map<St, Tr> next = {{St::Idle, Tr::InitDevice}, {St::InitializingDevice, Tr::CompleteInit}, {St::Initialized, Tr::Bind}, {St::Bound, Tr::Connect}, {St::DeviceReady, Tr::InitTask}, {St::Ready, Tr::Run}, {St::Running, Tr::Stop}};
    int laps = 1 + r.below(3), runs = 0;
    bool down = false;
    uint64_t want = 2 + r.below(4);
    string path;
    St last = St::Ok;
    while (true) {
        St s = dev.GetCurrentState();
        if (s != last) { path += GetStateName(s).substr(0, 3) + " "; last = s; vp::tick(); t0 = vp::now(); }
        if (s == St::Exiting) { break; }
        if (s == St::Error) { vp::violation("error", "the device is in ERROR; " + sh); break; }
        Tr t = Tr::Auto;
        if (down) { t = s == St::Running ? Tr::Stop : s == St::Ready ? Tr::ResetTask : s == St::DeviceReady ? Tr::ResetDevice : s == St::Idle ? Tr::End : Tr::Auto; }
        else if (next.count(s)) { t = next.at(s); }
        if (s == St::Ready && !down && ++runs > static_cast<int>(want)) { down = true; t = Tr::ResetTask; }
        if (s == St::Idle && down && --laps > 0) { down = false; runs = 0; t = Tr::InitDevice; }
        if (s == St::Running && r.chance(3, 4)) { bool lng = rate && r.chance(1, 20); if (lng) { vp::count("runs with rate logging"); } vp::sleepUs(lng ? 1300000 : r.below(30000)); }
        if (t != Tr::Auto) {
            try {
                if (t == Tr::End) { cycling = false; w[0]->StealDeviceControl(); }
                else { w[0]->TakeDeviceControl(); }
                svc.ChangeDeviceState("p0", t);
                if (t != Tr::End) { w[0]->ReleaseDeviceControl(); }
            } catch (PluginServices::DeviceControlError&) {}
        }
        vp::sleepUs(300);
        if (vp::now() - t0 > 40) { vp::violation("no-progress", fmt("no state change for 40 s after %s; ", path.c_str()) + sh); giveUp(); }
    }
    done = true;
    for (auto& t : ts) { t.join(); }
    runner.join();
    try { w[0]->ReleaseDeviceControl(); } catch (PluginServices::DeviceControlError&) {}
    svc.WaitForReleaseDeviceControl();
    vp::perturb(0, 0);
    static const char* names[] = {"property writes", "property reads", "property subscriptions", "state subscriptions", "state queries", "control changes", "controller queries", "state requests", "refused control"};
    uint64_t h = vp::hash(sh + path);
    for (int i = 0; i < 9; ++i) { vp::count(names[i], n[i]); }
    vp::count("callbacks", cbs);
    vp::count("messages moved by the device", dev.moved);
    vp::interleaving(vp::scheduleHash());
    vp::evaluated(h, dev.moved > 0);
    vp::sample(sh + ": " + path.substr(0, 300));
    w.clear();
}

} // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    fair::Logger::SetConsoleSeverity(getenv("VP_LOG") ? getenv("VP_LOG") : "nolog");
    vp::watchdog();
    auto& m = vp::S().mode;
    if (m == "transport") { vp::forCases(10, transport); }
    else if (m == "device") { vp::forCases(10, device); }
    else { return 3; }
    return vp::finish();
}
