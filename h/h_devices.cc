// C20: the stock devices, in this process (driven through their states) and as complete programs, between peers
// which send messages whose content follows from their number and check what arrives where.
#include "tx.h"

#include <fairmq/Device.h>
#include <fairmq/DeviceRunner.h>
#include <fairmq/Poller.h>
#include <fairmq/devices/BenchmarkSampler.h>
#include <fairmq/devices/Merger.h>
#include <fairmq/devices/Multiplier.h>
#include <fairmq/devices/Proxy.h>
#include <fairmq/devices/Sink.h>
#include <fairmq/devices/Splitter.h>
#include <fairmq/tools/RateLimit.h>

#include <boost/program_options.hpp>
#include <fstream>
#include <iostream>
#include <memory>
#include <signal.h>
#include <sys/wait.h>

// the main programs, side by side
namespace prog_proxy {
#include <fairmq/devices/runProxy.cxx>
}
#undef FAIR_MQ_RUNDEVICE_H
namespace prog_merger {
#include <fairmq/devices/runMerger.cxx>
}
#undef FAIR_MQ_RUNDEVICE_H
namespace prog_splitter {
#include <fairmq/devices/runSplitter.cxx>
}
#undef FAIR_MQ_RUNDEVICE_H
namespace prog_multiplier {
#include <fairmq/devices/runMultiplier.cxx>
}
#undef FAIR_MQ_RUNDEVICE_H
namespace prog_sampler {
#include <fairmq/devices/runBenchmarkSampler.cxx>
}
#undef FAIR_MQ_RUNDEVICE_H
namespace prog_sink {
#include <fairmq/devices/runSink.cxx>
}

using namespace fair::mq;
using namespace std;
using vp::fmt;

namespace
{
[[noreturn]] void giveUp() { vp::finish(); _exit(0); }
const vector<string> kTr = {"zeromq", "shmem"};

// ------------------------------------------------------------------ messages which follow from their number
struct Hdr { uint32_t magic, input; uint64_t seq; };
constexpr uint32_t kMagic = 0x76504d51;
struct Spec { vector<size_t> size; vector<uint64_t> tag; };
Spec spec(uint64_t seed, uint32_t input, uint64_t seq, bool multi)
{
    vp::Rng r(vp::mix(seed, input), seq + 1);
    Spec s;
    size_t n = !multi ? 1 : r.chance(1, 3) ? 1 : r.chance(1, 20) ? 1 + r.below(40) : 1 + r.below(5);
    for (size_t i = 0; i < n; ++i) {
        s.size.push_back((i == 0 ? sizeof(Hdr) : 0) + (r.chance(1, 5) ? 0 : r.chance(1, 40) ? r.below(60000) : r.below(400)));
        s.tag.push_back(r.next());
    }
    return s;
}
Parts make(Channel& ch, uint64_t seed, uint32_t input, uint64_t seq, bool multi)
{
    Spec s = spec(seed, input, seq, multi);
    Parts ps;
    for (size_t i = 0; i < s.size.size(); ++i) {
        auto m = ch.NewMessage(s.size[i]);
        char* p = static_cast<char*>(m->GetData());
        size_t n = s.size[i];
        if (i == 0) { Hdr h{kMagic, input, seq}; memcpy(p, &h, sizeof h); p += sizeof h; n -= sizeof h; }
        tx::fill(p, n, s.tag[i]);
        ps.AddPart(move(m));
    }
    return ps;
}
struct Item { uint32_t input; uint64_t seq; };
bool take(const string& where, const vector<Message*>& ms, uint64_t seed, bool multi, Item& it)
{
    Hdr h{};
    if (ms.empty() || ms[0]->GetSize() < sizeof h) { vp::violation("content", fmt("%s: a message of %zu parts, first part %zu bytes arrived, not one that was sent", where.c_str(), ms.size(), ms.empty() ? 0 : ms[0]->GetSize())); return false; }
    memcpy(&h, ms[0]->GetData(), sizeof h);
    if (h.magic != kMagic) { vp::violation("content", where + ": something arrived that was not sent as (the begin of) a message"); return false; }
    Spec s = spec(seed, h.input, h.seq, multi);
    VP_CHECK(ms.size() == s.size.size(), "parts", "%s: message %llu of input %u was sent with %zu parts and arrived with %zu", where.c_str(), (unsigned long long)h.seq, h.input, s.size.size(), ms.size());
    for (size_t i = 0; i < min(ms.size(), s.size.size()); ++i) {
        size_t off = i == 0 ? sizeof h : 0;
        bool ok = ms[i]->GetSize() == s.size[i] && tx::same(static_cast<char*>(ms[i]->GetData()) + off, s.size[i] - off, s.tag[i]);
        VP_CHECK(ok, "content", "%s: part %zu of message %llu of input %u was altered (%zu bytes sent, %zu received)", where.c_str(), i, (unsigned long long)h.seq, h.input, s.size[i], ms[i]->GetSize());
    }
    it = {h.input, h.seq};
    return true;
}

// ------------------------------------------------------------------ channels of the device and their peers
struct End
{
    string name; int sub = 0;
    bool in = true;
    string tr, addr, method;
    int sndBuf = 1000, rcvBuf = 1000;
    unique_ptr<Channel> peer;
    vector<Item> got;            // outputs
    mutex m;
    atomic<uint64_t> sent{0}, nGot{0};
    uint32_t input = 0;
};

struct Net
{
    string session;
    map<string, unique_ptr<tx::Node>> nodes;
    vector<unique_ptr<End>> ends;
    string kind, devTr;
    bool multi = true;
    string show() const
    {
        string s = kind + (multi ? " multi" : " single") + " (" + devTr + ")";
        for (auto& e : ends) { s += fmt(" %s%s[%d] %s %s %s buf %d/%d;", e->in ? "<" : ">", e->name.c_str(), e->sub, e->tr.c_str(), e->method.c_str(), e->addr.c_str(), e->sndBuf, e->rcvBuf); }
        return s;
    }
    // before: what the same device was configured with in its previous cycle
    void start(vp::Rng& r, const string& k, bool forceMethodBind, Net* before = nullptr)
    {
        kind = k;
        session = tx::newSession();
        devTr = r.pick(kTr);
        multi = before ? before->multi : r.chance(1, 2);
        for (auto& t : kTr) { tx::Opt o; o.session = session; o.segSize = 24u << 20; o.segId = 7; nodes[t] = make_unique<tx::Node>(t, o); }
        auto add = [&](const string& n, int subs, bool in) {
            string tr = r.chance(1, 2) ? devTr : r.pick(kTr);
            for (int i = 0; i < subs; ++i) {
                auto e = make_unique<End>();
                e->name = n; e->sub = i; e->in = in; e->tr = tr;   // all sub-channels of a channel use the same transport
                e->method = forceMethodBind || r.chance(1, 2) ? "bind" : "connect";
                e->addr = r.chance(1, 2) ? "ipc" : "tcp";
                if (r.chance(1, 2)) { e->sndBuf = 1 + r.below(10); e->rcvBuf = 1 + r.below(10); }
                ends.push_back(move(e));
            }
        };
        int nin = kind == "merger" ? 1 + r.below(5) : kind == "splitter" || kind == "multiplier" ? (r.chance(3, 4) ? 1 : 2 + r.below(2)) : 1;
        string in = before ? before->inName() : r.chance(1, 2) ? "data-in" : "i" + to_string(r.below(100)), out = r.chance(1, 2) ? "data-out" : "o" + to_string(r.below(100));
        add(in, nin, true);
        if (kind == "multiplier") { int names = 1 + r.below(3); for (int i = 0; i < names; ++i) { add(out + to_string(i), 1 + r.below(3), false); } }
        else { add(out, kind == "splitter" ? 1 + r.below(5) : 1, false); }
        uint32_t n = 0;
        for (auto& e : ends) {
            if (e->in) { e->input = n++; }
            e->peer = make_unique<Channel>(tx::uniq("peer"), e->in ? "push" : "pull", nodes[e->tr]->f);
            e->peer->GetSocket().SetLinger(0);
            e->peer->GetSocket().SetSndBufSize(e->sndBuf);
            e->peer->GetSocket().SetRcvBufSize(e->rcvBuf);
            if (e->method == "connect") {
                VP_CHECK(e->peer->Bind(tx::address(e->addr)), "setup", "cannot bind");
                e->addr = tx::lastEndpoint(e->peer->GetSocket());
            } else { e->addr = tx::address(e->addr); }
        }
    }
    string inName() const { for (auto& e : ends) { if (e->in) { return e->name; } } return ""; }
    vector<string> outNames() const { vector<string> v; for (auto& e : ends) { if (!e->in && (v.empty() || v.back() != e->name)) { v.push_back(e->name); } } return v; }
    vector<End*> side(bool in) { vector<End*> v; for (auto& e : ends) { if (e->in == in) { v.push_back(e.get()); } } return v; }
};

// receivers for all outputs, running until told to stop
struct Receivers
{
    vector<thread> ts;
    atomic<bool> stop{false};
    atomic<uint64_t> total{0};
    atomic<int> slow{0};
    Receivers(Net& n, uint64_t seed, vp::Rng& r)
    {
        for (auto e : n.side(false)) {
            ts.emplace_back([this, &n, e, seed, q = vp::Rng(r.next()), lazy = r.chance(1, 4)]() mutable {
                string where = e->name + "[" + to_string(e->sub) + "] of " + n.show();
                while (!stop) {
                    Parts ps;
                    MessagePtr m = e->peer->NewMessage();
                    auto res = n.multi ? e->peer->Receive(ps, 50) : e->peer->Receive(m, 50);
                    if (res < 0) { continue; }
                    vector<Message*> v;
                    if (n.multi) { for (auto& p : ps) { v.push_back(p.get()); } } else { v.push_back(m.get()); }
                    Item it{};
                    if (take(where, v, seed, n.multi, it)) { lock_guard<mutex> l(e->m); e->got.push_back(it); }
                    ++e->nGot;
                    ++total;
                    vp::tick();
                    if (lazy && q.chance(1, 10)) { vp::sleepUs(q.below(3000)); }
                    while (slow && !stop) { vp::sleepMs(1); }
                }
            });
        }
    }
    ~Receivers() { end(); }
    void end() { stop = true; for (auto& t : ts) { t.join(); } ts.clear(); }
};

struct Senders
{
    vector<thread> ts;
    Senders(Net& n, uint64_t seed, uint64_t each, vp::Rng& r, atomic<bool>* giveup)
    {
        for (auto e : n.side(true)) {
            uint64_t goal = e->sent + each;
            ts.emplace_back([&n, e, seed, goal, q = vp::Rng(r.next()), lazy = r.chance(1, 4), giveup]() mutable {
                double t0 = vp::now();
                while (e->sent < goal && !(giveup && *giveup)) {
                    Parts ps = make(*e->peer, seed, e->input, e->sent, n.multi);
                    if ((n.multi ? e->peer->Send(ps, 100) : e->peer->Send(ps.At(0), 100)) >= 0) { ++e->sent; vp::tick(); t0 = vp::now(); }
                    else if (!giveup && vp::now() - t0 > 40) { vp::violation("stuck", "messages are not taken any more by " + n.show()); giveUp(); }
                    if (lazy && q.chance(1, 10)) { vp::sleepUs(q.below(2000)); }
                }
            });
        }
    }
    ~Senders() { for (auto& t : ts) { t.join(); } }
};

// ------------------------------------------------------------------ oracle
// stops: how often the device was stopped while messages were around (each may cost the message in flight)
// inits: how often InitTask ran again
void judge(Net& n, int stops, int inits, uint64_t minEach)
{
    auto ins = n.side(true), outs = n.side(false);
    string sh = n.show();
    size_t I = ins.size();
    auto checkStream = [&](End* e, const vector<Item>& v, bool complete) {
        vector<int64_t> last(I, -1);
        for (auto& it : v) {
            if (it.input >= I || it.seq >= ins[it.input]->sent) { vp::violation("invented", fmt("%s[%d] got message %llu of input %u, which was not sent; ", e->name.c_str(), e->sub, (unsigned long long)it.seq, it.input) + sh); continue; }
            VP_CHECK(static_cast<int64_t>(it.seq) > last[it.input], "order", "%s[%d]: message %llu of input %u arrived after message %lld (duplicated or reordered); %s", e->name.c_str(), e->sub, (unsigned long long)it.seq, it.input, (long long)last[it.input], sh.c_str());
            if (complete && stops == 0) { VP_CHECK(static_cast<int64_t>(it.seq) == last[it.input] + 1, "lost", "%s[%d]: message %llu of input %u arrived after message %lld; %s", e->name.c_str(), e->sub, (unsigned long long)it.seq, it.input, (long long)last[it.input], sh.c_str()); }
            last[it.input] = max<int64_t>(last[it.input], it.seq);
        }
    };
    auto checkCount = [&](const string& what, uint64_t got) {
        uint64_t want = 0;
        for (auto e : ins) { want += e->sent; }
        VP_CHECK(got <= want, "duplicated", "%s: %llu messages sent, %llu arrived; %s", what.c_str(), (unsigned long long)want, (unsigned long long)got, sh.c_str());
        VP_CHECK(got + static_cast<uint64_t>(stops) >= want, "lost", "%s: %llu messages sent, %llu arrived (%d stops on the way); %s", what.c_str(), (unsigned long long)want, (unsigned long long)got, stops, sh.c_str());
        VP_CHECK(got >= minEach, "lost", "%s: only %llu messages arrived; %s", what.c_str(), (unsigned long long)got, sh.c_str());
    };
    if (n.kind != "splitter") {
        for (auto e : outs) { checkStream(e, e->got, true); checkCount(e->name + "[" + to_string(e->sub) + "]", e->got.size()); }
        if (n.kind == "multiplier" && stops == 0) {
            for (auto e : outs) {
                bool same = e->got.size() == outs[0]->got.size() && equal(e->got.begin(), e->got.end(), outs[0]->got.begin(), [](auto& a, auto& b) { return a.input == b.input && a.seq == b.seq; });
                VP_CHECK(same, "order", "outputs %s[%d] and %s[%d] got the messages in different orders; %s", outs[0]->name.c_str(), outs[0]->sub, e->name.c_str(), e->sub, sh.c_str());
            }
        }
        return;
    }
    // splitter
    uint64_t total = 0, lo = UINT64_MAX, hi = 0;
    map<pair<uint32_t, uint64_t>, int> owner;
    for (size_t o = 0; o < outs.size(); ++o) {
        checkStream(outs[o], outs[o]->got, false);
        total += outs[o]->got.size();
        lo = min<uint64_t>(lo, outs[o]->got.size());
        hi = max<uint64_t>(hi, outs[o]->got.size());
        for (auto& it : outs[o]->got) {
            auto x = owner.emplace(make_pair(it.input, it.seq), static_cast<int>(o));
            VP_CHECK(x.second, "duplicated", "message %llu of input %u went to outputs %d and %zu; %s", (unsigned long long)it.seq, it.input, x.first->second, o, sh.c_str());
        }
    }
    checkCount("all outputs", total);
    uint64_t slack = 1 + static_cast<uint64_t>(stops) + static_cast<uint64_t>(inits);
    VP_CHECK(hi - lo <= slack, "round-robin", "outputs got between %llu and %llu messages; %s", (unsigned long long)lo, (unsigned long long)hi, sh.c_str());
    int N = static_cast<int>(outs.size());
    if (I == 1) {
        int expect = 0, breaks = 0;
        bool gap = false;
        for (uint64_t s = 0; s < ins[0]->sent; ++s) {
            auto it = owner.find({0, s});
            if (it == owner.end()) { expect = (expect + 1) % N; gap = true; continue; }
            int o = it->second;
            if (o != expect) {
                bool restart = o == 0 || (gap && o == 1 % N);
                ++breaks;
                VP_CHECK(restart && breaks <= inits, "round-robin", "message %llu went to output %d, expected %d (%d restarts of the task); %s", (unsigned long long)s, o, expect, inits, sh.c_str());
            }
            expect = (o + 1) % N;
            gap = false;
        }
    } else if (stops == 0 && inits == 0) {
        // the k-th message of every output belongs to the same round
        for (int o = 0; o < N; ++o) { VP_CHECK(static_cast<size_t>(o) >= total % static_cast<size_t>(N) ? outs[static_cast<size_t>(o)]->got.size() == total / static_cast<size_t>(N) : outs[static_cast<size_t>(o)]->got.size() == total / static_cast<size_t>(N) + 1, "round-robin", "output %d of %d got %zu of %llu messages; %s", o, N, outs[static_cast<size_t>(o)]->got.size(), (unsigned long long)total, sh.c_str()); }
    }
}

// ------------------------------------------------------------------ a device in this process
struct Host
{
    ProgOptions cfg;
    unique_ptr<Device> d;
    thread runner;
    exception_ptr ep;
    atomic<State> notified{State::Ok};
    atomic<uint64_t> changes{0};

    void channel(const string& name, int sub, const string& type, const string& method, const string& addr, const string& tr, int snd, int rcv)
    {
        string k = fmt("chans.%s.%d.", name.c_str(), sub);
        cfg.SetProperty<string>(k + "type", type);
        cfg.SetProperty<string>(k + "method", method);
        cfg.SetProperty<string>(k + "address", addr);
        cfg.SetProperty<string>(k + "transport", tr);
        cfg.SetProperty<int>(k + "sndBufSize", snd);
        cfg.SetProperty<int>(k + "rcvBufSize", rcv);
        cfg.SetProperty<int>(k + "rateLogging", 0);
        cfg.SetProperty<int>(k + "linger", 0);
    }
    void base(const string& session, const string& tr)
    {
        cfg.SetProperty<string>("id", "dev");
        cfg.SetProperty<string>("session", session);
        cfg.SetProperty<string>("transport", tr);
        cfg.SetProperty<size_t>("shm-segment-size", 24u << 20);
        cfg.SetProperty<int>("init-timeout", 60);
    }
    void boot(unique_ptr<Device> dev, const function<void()>& afterBind)
    {
        d = move(dev);
        d->SubscribeToStateChange("vp", [this](State s) { notified = s; ++changes; vp::tick(); });
        d->SetConfig(cfg);
        runner = thread([this] { try { d->RunStateMachine(); } catch (...) { ep = current_exception(); } });
        up(afterBind);
    }
    void up(const function<void()>& afterBind)
    {
        go(Transition::InitDevice, State::InitializingDevice);
        go(Transition::CompleteInit, State::Initialized);
        go(Transition::Bind, State::Bound);
        afterBind();
        go(Transition::Connect, State::DeviceReady);
        go(Transition::InitTask, State::Ready);
    }
    void go(Transition t, State target)
    {
        double t0 = vp::now();
        while (!d->ChangeState(t)) { vp::sleepUs(50); if (vp::now() - t0 > 30) { vp::violation("stuck", fmt("%s not accepted in %s", GetTransitionName(t).c_str(), d->GetCurrentStateName().c_str())); giveUp(); } }
        waitState(target);
    }
    void waitState(State target)
    {
        double t0 = vp::now();
        while (!(notified == target && d->GetCurrentState() == target && !d->NewStatePending())) { vp::sleepUs(50); if (vp::now() - t0 > 30) { vp::violation("stop-stuck", fmt("device does not reach %s, is %s", GetStateName(target).c_str(), d->GetCurrentStateName().c_str())); giveUp(); } }
    }
    void end()
    {
        go(Transition::ResetTask, State::DeviceReady);
        go(Transition::ResetDevice, State::Idle);
        go(Transition::End, State::Exiting);
        runner.join();
        VP_CHECK(!ep, "unexpected-error", "the device failed");
        d->UnsubscribeFromStateChange("vp");
        d.reset();
    }
};
unique_ptr<Device> create(const string& kind)
{
    if (kind == "proxy") { return make_unique<Proxy>(); }
    if (kind == "merger") { return make_unique<Merger>(); }
    if (kind == "splitter") { return make_unique<Splitter>(); }
    if (kind == "multiplier") { return make_unique<Multiplier>(); }
    if (kind == "sampler") { return make_unique<BenchmarkSampler>(); }
    return make_unique<Sink>();
}
void settings(ProgOptions& cfg, Net& n)
{
    cfg.SetProperty<bool>("multipart", n.multi);
    cfg.SetProperty<string>("in-channel", n.inName());
    if (n.kind == "multiplier") { cfg.SetProperty<vector<string>>("out-channel", n.outNames()); } else { cfg.SetProperty<string>("out-channel", n.outNames()[0]); }
}

uint64_t expected(Net& n) { uint64_t w = 0; for (auto e : n.side(true)) { w += e->sent; } return n.kind == "multiplier" ? w * n.side(false).size() : w; }
// until everything has arrived, or nothing arrives any more
void drain(Net& n, Receivers& rc, int allowedLoss)
{
    uint64_t want = expected(n), slack = static_cast<uint64_t>(allowedLoss) * (n.kind == "multiplier" ? n.side(false).size() : 1);
    uint64_t last = rc.total;
    double t0 = vp::now();
    while (rc.total < want) {
        vp::sleepUs(500);
        if (rc.total != last) { last = rc.total; t0 = vp::now(); }
        if (vp::now() - t0 > (rc.total + slack >= want ? 1.5 : 25)) { break; }
    }
    vp::sleepMs(30);   // whatever should not be there
}

void attach(Net& n, Host& h)
{
    for (auto& e : n.ends) {
        if (e->method != "bind") { continue; }
        string ep = tx::lastEndpoint(h.d->GetChannel(e->name, e->sub).GetSocket());
        VP_CHECK(e->peer->Connect(ep), "setup", "cannot connect to %s", ep.c_str());
    }
}
void flowCycle(Net& n, Host& h, vp::Rng& r, uint64_t& hash);
void flow(uint64_t c, vp::Rng& r)
{
    static const vector<string> kinds = {"proxy", "merger", "splitter", "multiplier"};
    vp::phase("setup");
    Net n;
    n.start(r, kinds[c % 4], false);
    string sh = n.show();
    Host h;
    h.base(n.session, n.devTr);
    settings(h.cfg, n);
    for (auto& e : n.ends) { h.channel(e->name, e->sub, e->in ? "pull" : "push", e->method, e->addr, e->tr, e->sndBuf, e->rcvBuf); }
    vp::perturb(r.chance(1, 2) ? 1 + static_cast<unsigned>(r.below(3)) : 0, r.next());
    vp::eintr(r.chance(1, 3) ? 20 : 0);
    vp::resetScheduleHash();
    h.boot(create(n.kind), [&] { attach(n, h); });
    uint64_t hash = vp::mix(vp::hash(n.kind), n.multi);
    static const uint64_t kCycles[] = {1, 1, 2, 3};
    uint64_t cycles = r.pick(vector<uint64_t>(begin(kCycles), end(kCycles)));
    unique_ptr<Net> later;
    for (uint64_t cy = 1;; ++cy) {
        flowCycle(later ? *later : n, h, r, hash);
        if (cy >= cycles) { break; }
        // the same device once more, with other channels, addresses and transports
        vp::phase("reconfiguration after " + (later ? later->show() : sh));
        h.go(Transition::ResetTask, State::DeviceReady);
        h.go(Transition::ResetDevice, State::Idle);
        auto next = make_unique<Net>();
        next->start(r, n.kind, false, &n);
        for (auto& e : (later ? *later : n).ends) {
            for (auto k : {"type", "method", "address", "transport", "sndBufSize", "rcvBufSize", "rateLogging", "linger"}) { h.cfg.DeleteProperty(fmt("chans.%s.%d.%s", e->name.c_str(), e->sub, k)); }
        }
        h.base(next->session, next->devTr);
        settings(h.cfg, *next);
        for (auto& e : next->ends) { h.channel(e->name, e->sub, e->in ? "pull" : "push", e->method, e->addr, e->tr, e->sndBuf, e->rcvBuf); }
        later = move(next);
        h.up([&] { attach(*later, h); });
        vp::count("reconfigured devices");
    }
    vp::perturb(0, 0);
    vp::eintr(0);
    vp::interleaving(vp::scheduleHash());
    bool mixed = false;
    for (auto& e : n.ends) { mixed |= e->tr != n.ends[0]->tr; }
    if (mixed) { vp::count("cases across transports"); }
    vp::evaluated(hash);
    h.end();
}
void flowCycle(Net& n, Host& h, vp::Rng& r, uint64_t& hash)
{
    uint64_t seed = r.next();
    string sh = n.show();
    int stops = 0, inits = 0, mid = r.chance(1, 2) ? 0 : 1 + static_cast<int>(r.below(4));
    uint64_t each = 20 + r.below(n.kind == "multiplier" ? 100 : 200);
    {
        Receivers rc(n, seed, r);
        for (int k = 0; k < mid; ++k) {
            vp::phase("stopped run: " + sh);
            atomic<bool> giveup{false};
            {
                Senders sd(n, seed, each, r, &giveup);
                if (r.chance(1, 3)) { rc.slow = 1; }   // outputs fill up: the device is stopped while it is blocked
                h.go(Transition::Run, State::Running);
                vp::sleepUs(r.chance(1, 3) ? r.below(300) : r.below(60000));
                h.go(Transition::Stop, State::Ready);
                ++stops;
                giveup = r.chance(1, 2);
                rc.slow = 0;
                if (!giveup && r.chance(1, 2)) { h.go(Transition::Run, State::Running); vp::sleepUs(r.below(20000)); h.go(Transition::Stop, State::Ready); ++stops; }
                giveup = true;
            }
            if (r.chance(1, 3)) {
                h.go(Transition::ResetTask, State::DeviceReady);
                h.go(Transition::InitTask, State::Ready);
                ++inits;
            }
        }
        vp::phase("run: " + sh);
        bool before = r.chance(1, 4);
        atomic<bool> never{false};
        if (before) { h.go(Transition::Run, State::Running); }
        {
            Senders sd(n, seed, each, r, nullptr);
            if (!before) { vp::sleepUs(r.below(5000)); h.go(Transition::Run, State::Running); }
        }
        drain(n, rc, stops);
        VP_CHECK(h.d->GetCurrentState() == State::Running, "left-running", "the device is %s although nobody stopped it; %s", h.d->GetCurrentStateName().c_str(), sh.c_str());
        double t0 = vp::now();
        h.go(Transition::Stop, State::Ready);
        VP_CHECK(vp::now() - t0 < 10, "stop-late", "the idle device took %.1f s to stop; %s", vp::now() - t0, sh.c_str());
        rc.end();
    }
    judge(n, stops, inits, each);
    uint64_t msgs = 0;
    for (auto e : n.side(false)) { hash = vp::mix(hash, e->got.size()); msgs += e->got.size(); for (auto& it : e->got) { hash = vp::mix(hash, it.input * 1000003 + it.seq); } }
    vp::count("forwarded messages (" + n.kind + ")", msgs);
    vp::count("stops in the middle", stops);
    vp::count("task resets", inits);
    if (msgs == expected(n)) { vp::count("cycles without loss"); }
    vp::sample(sh + fmt(" %d stops, %d task resets, %llu messages", stops, inits, (unsigned long long)msgs));
}

// ------------------------------------------------------------------ sampler
void sampler(uint64_t c, vp::Rng& r)
{
    vp::phase("sampler setup");
    string session = tx::newSession(), tr = r.pick(kTr), devTr = r.pick(kTr);
    tx::Opt o;
    o.session = session; o.segSize = 24u << 20; o.segId = 7;
    tx::Node node(tr, o);
    bool multi = r.chance(1, 2), memset_ = r.chance(1, 2);
    size_t parts = multi ? 1 + r.below(r.chance(1, 6) ? 60 : 6) : 1 + r.below(3), size = r.chance(1, 10) ? 0 : r.chance(1, 10) ? 1 + r.below(200000) : 1 + r.below(3000), align = r.chance(1, 2) ? 0 : 1ull << (3 + r.below(6));
    if (size == 0) { memset_ = false; }
    bool rated = c % 4 == 3;
    float rate = rated ? static_cast<float>(50 + r.below(1500)) : 0;
    uint64_t maxIt = r.chance(3, 4) ? 1 + r.below(rated ? 120 : 400) : 0;
    string name = r.chance(1, 2) ? "data" : "x" + to_string(r.below(50));
    string sh = fmt("sampler %s (%s) %s, %zu parts, %zu bytes, alignment %zu, %llu iterations, rate %.0f, memset %d", tr.c_str(), devTr.c_str(), multi ? "multi" : "single", parts, size, align, (unsigned long long)maxIt, rate, memset_);
    Host h;
    h.base(session, devTr);
    h.cfg.SetProperty<bool>("multipart", multi);
    h.cfg.SetProperty<bool>("memset", memset_);
    h.cfg.SetProperty<size_t>("num-parts", parts);
    h.cfg.SetProperty<size_t>("msg-size", size);
    h.cfg.SetProperty<size_t>("msg-alignment", align);
    h.cfg.SetProperty<float>("msg-rate", rate);
    h.cfg.SetProperty<uint64_t>("max-iterations", maxIt);
    h.cfg.SetProperty<string>("out-channel", name);
    Channel peer(tx::uniq("peer"), "pull", node.f);
    peer.GetSocket().SetLinger(0);
    string addr = tx::address(r.chance(1, 2) ? "ipc" : "tcp");
    bool devBinds = r.chance(1, 2);
    int buf = r.chance(1, 2) ? 1 + r.below(10) : 1000;
    peer.GetSocket().SetRcvBufSize(buf);
    if (!devBinds) { VP_CHECK(peer.Bind(addr), "setup", "cannot bind"); addr = tx::lastEndpoint(peer.GetSocket()); }
    h.channel(name, 0, "push", devBinds ? "bind" : "connect", addr, tr, buf, buf);
    h.boot(create("sampler"), [&] { if (devBinds) { VP_CHECK(peer.Connect(tx::lastEndpoint(h.d->GetChannel(name, 0).GetSocket())), "setup", "cannot connect"); } });
    vp::eintr(r.chance(1, 3) ? 20 : 0);
    uint64_t got = 0;
    auto one = [&](int timeout) {
        Parts ps;
        MessagePtr m = peer.NewMessage();
        if ((multi ? peer.Receive(ps, timeout) : peer.Receive(m, timeout)) < 0) { return false; }
        vector<Message*> v;
        if (multi) { for (auto& p : ps) { v.push_back(p.get()); } } else { v.push_back(m.get()); }
        VP_CHECK(!multi || v.size() == parts, "sampler-parts", "message with %zu parts; %s", v.size(), sh.c_str());
        for (auto p : v) {
            VP_CHECK(p->GetSize() == size, "sampler-size", "message (part) of %zu bytes; %s", p->GetSize(), sh.c_str());
            if (tr == "shmem" && align && size) { VP_CHECK(reinterpret_cast<uintptr_t>(p->GetData()) % align == 0, "sampler-align", "message at %p; %s", p->GetData(), sh.c_str()); }
            if (memset_) { auto b = static_cast<char*>(p->GetData()); VP_CHECK(all_of(b, b + p->GetSize(), [](char x) { return x == 0; }), "sampler-memset", "message is not zeroed; %s", sh.c_str()); }
        }
        ++got;
        vp::tick();
        return true;
    };
    int runs = 1 + static_cast<int>(r.below(3));
    uint64_t all = 0;
    for (int k = 0; k < runs; ++k) {
        vp::phase(sh);
        if (k > 0 && r.chance(1, 2)) { h.go(Transition::ResetTask, State::DeviceReady); h.go(Transition::InitTask, State::Ready); }
        got = 0;
        uint64_t ch0 = h.changes;
        double t0 = vp::now();
        while (!h.d->ChangeState(Transition::Run)) { vp::sleepUs(50); }
        if (maxIt) {
            while (got < maxIt && vp::now() - t0 < 40) { one(100); }
            double t1 = vp::now() - t0;
            while (one(100)) {}
            // the device stops by itself
            double t2 = vp::now();
            while (!(h.notified == State::Ready && h.changes >= ch0 + 2) && vp::now() - t2 < 20) { vp::sleepUs(200); one(0); }
            while (one(50)) {}
            VP_CHECK(h.notified == State::Ready, "sampler-endless", "device is %s after %llu messages; %s", GetStateName(h.notified).c_str(), (unsigned long long)got, sh.c_str());
            VP_CHECK(got == maxIt, "sampler-count", "run %d: %llu messages were sent; %s", k, (unsigned long long)got, sh.c_str());
            if (rated && maxIt > 10) { VP_CHECK(t1 > 0.6 * static_cast<double>(maxIt - 1) / rate - 0.05, "sampler-rate", "%llu messages within %.3f s; %s", (unsigned long long)maxIt, t1, sh.c_str()); vp::count("rates judged"); }
            if (h.notified != State::Ready) { h.d->ChangeState(Transition::Stop); }
            h.waitState(State::Ready);
        } else {
            double dur = rated ? 0.5 : 0.05 + static_cast<double>(r.below(1000)) * 1e-4;
            while (vp::now() - t0 < dur) { one(20); }
            double t1 = vp::now() - t0;
            if (rated) { VP_CHECK(static_cast<double>(got) < 1.6 * rate * t1 + 15, "sampler-rate", "%llu messages within %.3f s; %s", (unsigned long long)got, t1, sh.c_str()); vp::count("rates judged"); }
            VP_CHECK(h.d->GetCurrentState() == State::Running, "left-running", "device is %s; %s", h.d->GetCurrentStateName().c_str(), sh.c_str());
            h.go(Transition::Stop, State::Ready);
            uint64_t before = got;
            while (one(100)) {}
            VP_CHECK(before + got > 0, "sampler-silent", "nothing was sent; %s", sh.c_str());
            vp::sleepMs(20);
            VP_CHECK(!one(50), "sampler-after-stop", "messages arrive long after the stop; %s", sh.c_str());
        }
        all += got;
    }
    vp::eintr(0);
    vp::count("sampled messages", all);
    vp::evaluated(vp::hash(sh), all > 0);
    vp::sample(sh);
    h.end();
}

// ------------------------------------------------------------------ sink
string slurp(const string& f) { ifstream i(f, ios::binary); return string(istreambuf_iterator<char>(i), {}); }
void sink(uint64_t, vp::Rng& r)
{
    vp::phase("sink setup");
    string session = tx::newSession(), tr = r.pick(kTr), devTr = r.pick(kTr);
    tx::Opt o;
    o.session = session; o.segSize = 24u << 20; o.segId = 7;
    tx::Node node(tr, o);
    bool multi = r.chance(1, 2), file = r.chance(2, 3);
    uint64_t maxIt = r.chance(3, 4) ? 1 + r.below(200) : 0, maxFile = file && r.chance(1, 2) ? 1 + r.below(60000) : 0;
    string name = r.chance(1, 2) ? "data" : "x" + to_string(r.below(50)), fn = file ? tx::scratch() + "/" + tx::uniq("sink") : "";
    string sh = fmt("sink %s (%s) %s, %llu iterations, file %d up to %llu", tr.c_str(), devTr.c_str(), multi ? "multi" : "single", (unsigned long long)maxIt, file, (unsigned long long)maxFile);
    Host h;
    h.base(session, devTr);
    h.cfg.SetProperty<bool>("multipart", multi);
    h.cfg.SetProperty<uint64_t>("max-iterations", maxIt);
    h.cfg.SetProperty<uint64_t>("max-file-size", maxFile);
    h.cfg.SetProperty<string>("in-channel", name);
    h.cfg.SetProperty<string>("out-filename", fn);
    Channel peer(tx::uniq("peer"), "push", node.f);
    peer.GetSocket().SetLinger(0);
    string addr = tx::address(r.chance(1, 2) ? "ipc" : "tcp");
    bool devBinds = r.chance(1, 2);
    int buf = r.chance(1, 2) ? 1 + r.below(10) : 1000;
    peer.GetSocket().SetSndBufSize(buf);
    if (!devBinds) { VP_CHECK(peer.Bind(addr), "setup", "cannot bind"); addr = tx::lastEndpoint(peer.GetSocket()); }
    h.channel(name, 0, "pull", devBinds ? "bind" : "connect", addr, tr, buf, buf);
    h.boot(create("sink"), [&] { if (devBinds) { VP_CHECK(peer.Connect(tx::lastEndpoint(h.d->GetChannel(name, 0).GetSocket())), "setup", "cannot connect"); } });
    vp::eintr(r.chance(1, 3) ? 20 : 0);
    uint64_t seed = r.next(), sent = 0, consumed = 0;
    auto content = [&](uint64_t seq) {
        Spec s = spec(seed, 0, seq, multi);
        string t;
        for (size_t i = 0; i < s.size.size(); ++i) {
            string p(s.size[i], 0);
            size_t off = 0;
            if (i == 0) { Hdr hd{kMagic, 0, seq}; memcpy(&p[0], &hd, sizeof hd); off = sizeof hd; }
            tx::fill(&p[off], p.size() - off, s.tag[i]);
            t += p;
        }
        return t;
    };
    auto rx = [&] { return h.d->GetChannel(name, 0).GetMessagesRx(); };
    auto send = [&](int timeout) {
        Parts ps = make(peer, seed, 0, sent, multi);
        bool ok = (multi ? peer.Send(ps, timeout) : peer.Send(ps.At(0), timeout)) >= 0;
        if (ok) { ++sent; vp::tick(); }
        return ok;
    };
    int runs = 1 + static_cast<int>(r.below(3));
    for (int k = 0; k < runs; ++k) {
        vp::phase(sh);
        if (k > 0 && r.chance(1, 2)) { h.go(Transition::ResetTask, State::DeviceReady); h.go(Transition::InitTask, State::Ready); }
        // what has to be consumed in this run
        uint64_t want = maxIt ? maxIt : UINT64_MAX;
        if (maxFile) { uint64_t b = 0, q = consumed; while (b < maxFile && q - consumed < want) { b += content(q++).size(); } want = min(want, q - consumed); }
        bool byItself = want != UINT64_MAX && r.chance(4, 5);
        if (!byItself) {
            uint64_t w = r.below(want == UINT64_MAX ? 100 : want);
            // messages left from the previous run will be consumed in any case
            if (sent - consumed <= w) { want = w; } else if (want != UINT64_MAX) { byItself = true; } else { want = sent - consumed; }
        }
        uint64_t ch0 = h.changes, extra = r.below(20);
        double t0 = vp::now();
        while (!h.d->ChangeState(Transition::Run)) { vp::sleepUs(50); }
        while (sent < consumed + want && vp::now() - t0 < 30) { send(100); }
        VP_CHECK(sent >= consumed + want, "sink-stuck", "run %d: %llu of %llu messages could be sent; %s", k, (unsigned long long)(sent - consumed), (unsigned long long)want, sh.c_str());
        if (byItself) {
            for (uint64_t i = 0; i < extra; ++i) { send(5); }
            double t2 = vp::now();
            while (!(h.notified == State::Ready && h.changes >= ch0 + 2) && vp::now() - t2 < 20) { vp::sleepUs(200); }
            if (h.notified != State::Ready) {
                // more than asked for?
                double t3 = vp::now();
                while (h.notified != State::Ready && vp::now() - t3 < 5) { send(20); }
                vp::violation("sink-count", fmt("run %d: device is still %s when it has got %llu messages, should have stopped after %llu; ", k, GetStateName(h.notified).c_str(), (unsigned long long)sent, (unsigned long long)want) + sh);
                h.d->ChangeState(Transition::Stop);
            }
            h.waitState(State::Ready);
        } else {
            double t2 = vp::now();
            while (rx() < consumed + want && vp::now() - t2 < 20) { vp::sleepUs(200); }
            vp::sleepMs(2);
            VP_CHECK(h.d->GetCurrentState() == State::Running, "left-running", "device is %s after %llu messages; %s", h.d->GetCurrentStateName().c_str(), (unsigned long long)(rx() - consumed), sh.c_str());
            h.go(Transition::Stop, State::Ready);
        }
        if (file) {
            string f = slurp(fn), e;
            for (uint64_t q = consumed; q < consumed + want; ++q) { e += content(q); }
            size_t n = static_cast<size_t>(mismatch(f.begin(), f.begin() + static_cast<long>(min(f.size(), e.size())), e.begin()).first - f.begin());
            VP_CHECK(f == e, "sink-file", "run %d: the file has %zu bytes, the %llu messages have %zu, the first difference is at %zu; %s", k, f.size(), (unsigned long long)want, e.size(), n, sh.c_str());
            vp::count("files compared");
        }
        VP_CHECK(rx() == consumed + want, "sink-count", "run %d: %llu messages were consumed instead of %llu (%llu sent); %s", k, (unsigned long long)(rx() - consumed), (unsigned long long)want, (unsigned long long)(sent - consumed), sh.c_str());
        consumed = rx();
    }
    vp::eintr(0);
    vp::count("consumed messages", consumed);
    vp::count("exact counts", static_cast<uint64_t>(runs));
    vp::evaluated(vp::mix(vp::hash(sh), consumed), consumed > 0);
    vp::sample(sh);
    h.end();
    if (file) { unlink(fn.c_str()); }
}

// ------------------------------------------------------------------ complete programs
int child(int argc, char** argv)
{
    string k = argv[2];
    argc -= 2;
    argv += 2;
    if (k == "proxy") { return prog_proxy::main(argc, argv); }
    if (k == "merger") { return prog_merger::main(argc, argv); }
    if (k == "splitter") { return prog_splitter::main(argc, argv); }
    if (k == "multiplier") { return prog_multiplier::main(argc, argv); }
    if (k == "sampler") { return prog_sampler::main(argc, argv); }
    return prog_sink::main(argc, argv);
}
struct Proc
{
    pid_t pid = -1;
    string what;
    Proc(const string& kind, vector<string> args) : what(kind)
    {
        static char self[4096];
        static ssize_t len = readlink("/proc/self/exe", self, sizeof self - 1);
        self[len] = 0;
        vector<string> a = {self, "child", kind};
        a.insert(a.end(), args.begin(), args.end());
        vector<char*> v;
        for (auto& x : a) { v.push_back(&x[0]); }
        v.push_back(nullptr);
        pid = fork();
        if (pid == 0) {
            sigset_t none;
            sigemptyset(&none);
            sigprocmask(SIG_SETMASK, &none, nullptr);
            int o = open((tx::scratch() + "/child.out").c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
            dup2(o, 1);
            execv(self, v.data());
            _exit(99);
        }
    }
    bool running() { siginfo_t si{}; return pid > 0 && waitid(P_PID, static_cast<id_t>(pid), &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid == 0; }
    // -1: does not end
    int wait(double limit)
    {
        double t0 = vp::now();
        int st = 0;
        while (waitpid(pid, &st, WNOHANG) == 0) {
            vp::sleepMs(2);
            if (vp::now() - t0 > limit) { return -1; }
            vp::tick();
        }
        pid = -1;
        return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    }
    ~Proc() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } }
};
vector<string> common(const string& session, const string& id, const string& tr, int seg)
{
    return {"--id", id, "--session", session, "--transport", tr, "--control", "static", "--color", "false", "--severity", "nolog", "--shm-segment-size", "25000000", "--shm-segment-id", to_string(seg), "--init-timeout", "60"};
}
// one forwarding program between peers in this process
void program(uint64_t c, vp::Rng& r)
{
    static const vector<string> kinds = {"proxy", "merger", "splitter", "multiplier"};
    vp::phase("program setup");
    Net n;
    n.start(r, kinds[c % 4], false);
    // the program binds to given addresses
    uint64_t seed = r.next();
    auto a = common(n.session, "dev", n.devTr, 1);
    for (auto& e : n.ends) {
        if (e->method == "bind") {
            e->addr = tx::address("ipc");
            VP_CHECK(e->peer->Connect(e->addr), "setup", "cannot connect to %s", e->addr.c_str());
        }
    }
    a.push_back("--channel-config");
    for (auto& nm : [&] { auto v = n.outNames(); v.insert(v.begin(), n.inName()); return v; }()) {
        string x = "name=" + nm;
        bool first = true;
        // options shared by the sub-channels, one set of addresses per method
        for (auto& e : n.ends) {
            if (e->name != nm) { continue; }
            if (first) { x += string(",type=") + (e->in ? "pull" : "push") + ",transport=" + e->tr + fmt(",sndBufSize=%d,rcvBufSize=%d,linger=0,rateLogging=0", e->sndBuf, e->rcvBuf); }
            x += (first ? ",method=" + e->method : string()) + ",address=" + (e->method == "bind" ? "@" : ">") + e->addr;
            first = false;
        }
        a.push_back(x);
    }
    bool dflt = n.multi && r.chance(1, 2);
    if (!dflt) { a.insert(a.end(), {"--multipart", n.multi ? (r.chance(1, 2) ? "true" : "1") : "false"}); }
    if (n.inName() != "data-in" || r.chance(1, 2)) { a.insert(a.end(), {"--in-channel", n.inName()}); }
    auto outs = n.outNames();
    if (n.kind == "multiplier" || outs[0] != "data-out" || r.chance(1, 2)) { a.push_back("--out-channel"); a.insert(a.end(), outs.begin(), outs.end()); }
    string sh = n.show();
    vp::phase("program: " + sh);
    Proc p(n.kind, a);
    uint64_t each = 20 + r.below(150);
    {
        Receivers rc(n, seed, r);
        { Senders sd(n, seed, each, r, nullptr); }
        drain(n, rc, 0);
        VP_CHECK(p.running(), "left-running", "the program ended although nobody stopped it; %s", sh.c_str());
        if (p.running()) {
            kill(p.pid, r.chance(1, 2) ? SIGINT : SIGTERM);
            int rc2 = p.wait(40);
            VP_CHECK(rc2 == 0, rc2 == -1 ? "program-hang" : "program-exit", "the program %s (%d) after the signal; %s", rc2 == -1 ? "does not end" : "failed", rc2, sh.c_str());
        }
        rc.end();
    }
    judge(n, 0, 0, each);
    uint64_t msgs = 0;
    for (auto e : n.side(false)) { msgs += e->got.size(); }
    vp::count("program runs (" + n.kind + ")");
    vp::count("forwarded messages (programs)", msgs);
    vp::evaluated(vp::hash(sh), msgs > 0);
    vp::sample(sh);
}
// sampler program -> [forwarder programs] -> sink program(s)
void chain(uint64_t, vp::Rng& r)
{
    vp::phase("chain setup");
    string session = tx::newSession(), tr = r.pick(kTr);
    bool multi = r.chance(1, 2);
    uint64_t N = 1 + r.below(300);
    size_t size = 1 + r.below(2000), parts = multi ? 1 + r.below(5) : 1;
    int mid = static_cast<int>(r.below(5));   // none, proxy, merger (fed by two samplers), splitter, multiplier
    int samplers = mid == 2 ? 2 : 1, sinks = mid == 3 || mid == 4 ? 2 : 1;
    string sh = fmt("chain %s %s: %d samplers x %llu, %s, %d sinks; %zu bytes x %zu", tr.c_str(), multi ? "multi" : "single", samplers, (unsigned long long)N, mid == 0 ? "direct" : mid == 1 ? "proxy" : mid == 2 ? "merger" : mid == 3 ? "splitter" : "multiplier", sinks, size, parts);
    vp::phase(sh);
    vector<string> a1, a2;
    for (int i = 0; i < 2; ++i) { a1.push_back(tx::address("ipc")); a2.push_back(tx::address("ipc")); }
    if (mid == 0) { a2[0] = a1[0]; }
    vector<unique_ptr<Proc>> sk, sa;
    unique_ptr<Proc> fw;
    vector<string> files;
    uint64_t perSink = mid == 2 ? 2 * N : mid == 3 ? 0 : N;
    vector<uint64_t> want;
    int seg = 1;
    for (int i = 0; i < sinks; ++i) {
        uint64_t w = mid == 3 ? (i == 0 ? (N + 1) / 2 : N / 2) : perSink;
        want.push_back(w);
        files.push_back(tx::scratch() + "/" + tx::uniq("chain"));
        if (w == 0) { continue; }
        auto a = common(session, fmt("sink%d", i), tr, seg++);
        bool b = mid == 0;   // somebody binds
        a.insert(a.end(), {"--channel-config", fmt("name=data,type=pull,method=%s,address=%s,rateLogging=0", b ? "bind" : "connect", a2[static_cast<size_t>(i)].c_str()), "--max-iterations", to_string(w), "--out-filename", files.back()});
        if (multi || r.chance(1, 2)) { a.insert(a.end(), {"--multipart", multi ? "true" : "false"}); }
        sk.push_back(make_unique<Proc>("sink", a));
    }
    if (mid) {
        auto a = common(session, "fw", tr, seg++);
        a.push_back("--channel-config");
        string x = "name=data-in,type=pull,method=bind,rateLogging=0";
        for (int i = 0; i < samplers; ++i) { x += ",address=" + a1[static_cast<size_t>(i)]; }
        a.push_back(x);
        x = "name=data-out,type=push,method=bind,rateLogging=0";
        for (int i = 0; i < sinks; ++i) { x += ",address=" + a2[static_cast<size_t>(i)]; }
        a.push_back(x);
        a.insert(a.end(), {"--multipart", multi ? "true" : "false"});
        if (mid == 4) { a.insert(a.end(), {"--out-channel", "data-out"}); }
        fw = make_unique<Proc>(mid == 1 ? "proxy" : mid == 2 ? "merger" : mid == 3 ? "splitter" : "multiplier", a);
    }
    for (int i = 0; i < samplers; ++i) {
        auto a = common(session, fmt("sampler%d", i), tr, seg++);
        a.insert(a.end(), {"--channel-config", fmt("name=data,type=push,method=connect,address=%s,rateLogging=0,linger=20000", a1[static_cast<size_t>(i)].c_str()), "--max-iterations", to_string(N), "--msg-size", to_string(size), "--memset", "true"});
        if (multi) { a.insert(a.end(), {"--multipart", "true", "--num-parts", to_string(parts)}); }
        sa.push_back(make_unique<Proc>("sampler", a));
    }
    // the sinks end when they have got everything; the samplers when their messages are sent
    for (size_t i = 0; i < sk.size(); ++i) {
        int rc = sk[i]->wait(40);
        VP_CHECK(rc == 0, rc == -1 ? "chain-incomplete" : "program-exit", "sink %zu %s (%d); %s", i, rc == -1 ? "does not get all messages" : "failed", rc, sh.c_str());
    }
    for (size_t i = 0; i < sa.size(); ++i) {
        int rc = sa[i]->wait(40);
        VP_CHECK(rc == 0, rc == -1 ? "program-hang" : "program-exit", "sampler %zu %s (%d); %s", i, rc == -1 ? "does not end" : "failed", rc, sh.c_str());
    }
    if (fw) {
        kill(fw->pid, SIGINT);
        int rc = fw->wait(40);
        VP_CHECK(rc == 0, rc == -1 ? "program-hang" : "program-exit", "the forwarding program %s (%d) after the signal; %s", rc == -1 ? "does not end" : "failed", rc, sh.c_str());
    }
    uint64_t total = 0;
    for (size_t i = 0; i < files.size(); ++i) {
        if (want[i] == 0) { continue; }
        string f = slurp(files[i]);
        VP_CHECK(f.size() == want[i] * size * parts && all_of(f.begin(), f.end(), [](char x) { return x == 0; }), "chain-content", "sink %zu wrote %zu bytes (or not zeros), expected %llu; %s", i, f.size(), (unsigned long long)(want[i] * size * parts), sh.c_str());
        unlink(files[i].c_str());
        total += want[i];
    }
    vp::count("chains");
    vp::count("messages through chains", total);
    vp::evaluated(vp::hash(sh), true);
    vp::sample(sh);
}

} // namespace

int main(int argc, char** argv)
{
    if (argc > 2 && string(argv[1]) == "child") { return child(argc, argv); }
    vp::init(argc, argv);
    fair::Logger::SetConsoleSeverity(getenv("VP_LOG") ? getenv("VP_LOG") : "nolog");
    tx::scratch();
    vp::watchdog();
    auto& m = vp::S().mode;
    if (m == "flow") { vp::forCases(20, flow); }
    else if (m == "sampler") { vp::forCases(20, sampler); }
    else if (m == "sink") { vp::forCases(20, sink); }
    else if (m == "program") { vp::forCases(8, program); }
    else if (m == "chain") { vp::forCases(8, chain); }
    else { return 3; }
    return vp::finish();
}
