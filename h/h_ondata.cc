// C11: data handlers get every message exactly once, in order, with the right index, whatever the channel layout.
#include "tx.h"

#include <fairmq/Device.h>

using namespace fair::mq;
using namespace std;
using vp::fmt;

namespace
{

struct Hdr { uint32_t chan, sub; uint64_t seq; uint32_t nparts, part; uint64_t tag; uint32_t size; };

struct SubLog { uint64_t next = 0; };

struct Layout
{
    string name, transport, type, addr;
    int nsub = 1;
    bool multi = false;      // multi-part handler
    bool handled = true;
    bool member = false;     // registered as a member function
};

struct HandlerError : runtime_error { using runtime_error::runtime_error; };

struct Dev : Device
{
    vector<Layout> lay;
    vector<vector<SubLog>> got;
    mutex m;
    atomic<uint64_t> total{0};
    atomic<int> inside{0};
    atomic<bool> running{false};
    atomic<uint64_t> afterEnd{0};
    atomic<bool> ended{false};          // a handler returned false (or threw) in this run
    int64_t falseAt = -1, throwAt = -1; // on the n-th handler call
    uint64_t delayEvery = 0;
    atomic<State> notified{State::Ok};
    atomic<int> runs{0};
    vector<MessagePtr> kept;
    vp::Rng r;

    Dev(vector<Layout> l, uint64_t seed) : lay(move(l)), r(seed, 3)
    {
        got.resize(lay.size());
        for (size_t i = 0; i < lay.size(); ++i) { got[i].resize(static_cast<size_t>(lay[i].nsub)); }
        SubscribeToStateChange("vp", [this](State s) { notified = s; vp::tick(); });
        for (size_t i = 0; i < lay.size(); ++i) {
            if (!lay[i].handled) { continue; }
            if (lay[i].multi) {
                if (lay[i].member) { member[1] = i; OnData(lay[i].name, &Dev::MemberParts); }
                else { OnData(lay[i].name, InputMultipartCallback([this, i](Parts& p, int x) { return onParts(i, p, x); })); }
            } else {
                if (lay[i].member) { member[0] = i; OnData(lay[i].name, &Dev::MemberMsg); }
                else { OnData(lay[i].name, InputMsgCallback([this, i](MessagePtr& p, int x) { return onMsg(i, p, x); })); }
            }
        }
    }
    ~Dev() override { UnsubscribeFromStateChange("vp"); }
    size_t member[2] = {0, 0};
    bool MemberMsg(MessagePtr& p, int x) { return onMsg(member[0], p, x); }
    bool MemberParts(Parts& p, int x) { return onParts(member[1], p, x); }

    bool enter(size_t c, int x)
    {
        int n = ++inside;
        VP_CHECK(n == 1, "concurrent-handlers", "%d data handlers run at the same time", n);
        VP_CHECK(running && GetCurrentState() == State::Running, "handler-state", "handler of %s called outside of RUNNING (%s)", lay[c].name.c_str(), GetCurrentStateName().c_str());
        VP_CHECK(!ended, "called-after-end", "handler of %s called after a handler has ended the loop", lay[c].name.c_str());
        VP_CHECK(x >= 0 && x < lay[c].nsub, "index", "handler of %s called with index %d of %d", lay[c].name.c_str(), x, lay[c].nsub);
        vp::perturbPoint();
        return x >= 0 && x < lay[c].nsub;
    }
    bool leave()
    {
        uint64_t n = ++total;
        if (delayEvery && n % delayEvery == 0) { vp::sleepUs(500); }
        vp::tick();
        bool go = true;
        if (static_cast<int64_t>(n) == throwAt) { ended = true; --inside; throw HandlerError("planned handler failure"); }
        if (static_cast<int64_t>(n) == falseAt) { ended = true; go = false; }
        --inside;
        return go;
    }
    void part(size_t c, int x, Message& m, uint32_t p, uint32_t n, uint64_t seq)
    {
        Hdr h{};
        if (m.GetSize() < sizeof h) { vp::violation("content", fmt("%s[%d]: part of %zu bytes, not a message that was sent", lay[c].name.c_str(), x, m.GetSize())); return; }
        memcpy(&h, m.GetData(), sizeof h);
        VP_CHECK(h.chan == c && h.sub == static_cast<uint32_t>(x), "wrong-handler", "message of %s[%u] was given to the handler of %s with index %d", h.chan < lay.size() ? lay[h.chan].name.c_str() : "?", h.sub, lay[c].name.c_str(), x);
        VP_CHECK(h.seq == seq, "order", "%s[%d]: got message %llu, expected %llu (lost, duplicated or reordered)", lay[c].name.c_str(), x, static_cast<unsigned long long>(h.seq), static_cast<unsigned long long>(seq));
        VP_CHECK(h.part == p && h.nparts == n, "parts", "%s[%d]: part %u of %u delivered as part %u of %u", lay[c].name.c_str(), x, h.part, h.nparts, p, n);
        VP_CHECK(m.GetSize() == h.size + sizeof h && tx::same(static_cast<char*>(m.GetData()) + sizeof h, m.GetSize() - sizeof h, h.tag), "content", "%s[%d]: message %llu altered", lay[c].name.c_str(), x, static_cast<unsigned long long>(h.seq));
    }
    bool onMsg(size_t c, MessagePtr& msg, int x)
    {
        if (enter(c, x)) {
            part(c, x, *msg, 0, 1, got[c][static_cast<size_t>(x)].next++);
            if (kept.size() < 20 && r.chance(1, 8)) { kept.push_back(move(msg)); }
        }
        return leave();
    }
    bool onParts(size_t c, Parts& ps, int x)
    {
        if (enter(c, x)) {
            uint64_t seq = got[c][static_cast<size_t>(x)].next++;
            VP_CHECK(ps.Size() > 0, "parts", "empty multi-part message delivered");
            for (size_t i = 0; i < ps.Size(); ++i) { part(c, x, *ps.At(i), static_cast<uint32_t>(i), static_cast<uint32_t>(ps.Size()), seq); }
            if (kept.size() < 20 && ps.Size() && r.chance(1, 8)) { kept.push_back(move(ps.At(0))); }
        }
        return leave();
    }
    void PreRun() override { ended = false; running = true; ++runs; }
    void PostRun() override { running = false; }
    void ResetTask() override { kept.clear(); }
};

[[noreturn]] void giveUp() { vp::finish(); _exit(0); }

struct Peer
{
    size_t c; int sub;
    unique_ptr<Channel> ch;
    uint64_t sent = 0;
    vp::Rng r{1};
    bool multi = false;
};

struct Setup
{
    vector<Layout> lay;
    ProgOptions cfg;
    string session;
    map<string, unique_ptr<tx::Node>> nodes;
    unique_ptr<Dev> d;
    thread runner;
    exception_ptr ep;
    atomic<bool> done{false};
    vector<unique_ptr<Peer>> peers;

    Setup(vp::Rng& r, bool needTwo)
    {
        static const vector<string> trs = {"zeromq", "shmem"};
        int n = needTwo ? 2 + static_cast<int>(r.below(2)) : 1 + static_cast<int>(r.below(4));
        int trMode = static_cast<int>(r.below(4));   // 0 all zmq, 1 all shmem, 2,3 mixed
        bool anyMember[2] = {false, false};
        for (int i = 0; i < n; ++i) {
            Layout l;
            l.name = fmt("%c%d", "zbqm"[r.below(4)], i);
            l.transport = trMode == 0 ? trs[0] : trMode == 1 ? trs[1] : needTwo && i < 2 ? trs[static_cast<size_t>(i)] : r.pick(trs);
            l.nsub = r.chance(1, 2) ? 1 : 1 + static_cast<int>(r.below(4));
            l.multi = r.chance(1, 2);
            l.handled = needTwo || i == 0 || r.chance(5, 6);
            l.type = r.chance(1, 4) ? "pair" : "pull";
            l.addr = r.pick(vector<string>{"ipc", "tcp"});
            if (l.handled && r.chance(1, 3) && !anyMember[l.multi]) { l.member = true; anyMember[l.multi] = true; }
            lay.push_back(l);
        }
        session = tx::newSession();
        cfg.SetProperty<string>("id", "dev");
        cfg.SetProperty<string>("session", session);
        cfg.SetProperty<string>("transport", r.pick(trs));
        cfg.SetProperty<size_t>("shm-segment-size", 16u << 20);
        cfg.SetProperty<int>("init-timeout", 60);
        for (auto& l : lay) {
            for (int s = 0; s < l.nsub; ++s) {
                string k = fmt("chans.%s.%d.", l.name.c_str(), s);
                cfg.SetProperty<string>(k + "type", l.type);
                cfg.SetProperty<string>(k + "method", "bind");
                cfg.SetProperty<string>(k + "address", l.addr == "tcp" ? "tcp://127.0.0.1:*" : tx::address("ipc"));
                cfg.SetProperty<string>(k + "transport", l.transport);
                cfg.SetProperty<int>(k + "rateLogging", 0);
                cfg.SetProperty<int>(k + "linger", 0);
            }
        }
        for (auto& t : trs) { tx::Opt o; o.session = session; o.segSize = 16u << 20; o.segId = 7; nodes[t] = make_unique<tx::Node>(t, o); }
        d = make_unique<Dev>(lay, r.next());
        d->SetConfig(cfg);
        runner = thread([this] { try { d->RunStateMachine(); } catch (...) { ep = current_exception(); } done = true; });
        go(Transition::InitDevice, State::InitializingDevice);
        go(Transition::CompleteInit, State::Initialized);
        go(Transition::Bind, State::Bound);
        for (size_t c = 0; c < lay.size(); ++c) {
            for (int s = 0; s < lay[c].nsub; ++s) {
                auto p = make_unique<Peer>();
                p->c = c;
                p->sub = s;
                p->multi = lay[c].multi;
                p->r = vp::Rng(r.next());
                p->ch = make_unique<Channel>(tx::uniq("peer"), lay[c].type == "pair" ? "pair" : "push", nodes[lay[c].transport]->f);
                string ep = tx::lastEndpoint(d->GetChannel(lay[c].name, s).GetSocket());
                VP_CHECK(p->ch->Connect(ep), "setup", "cannot connect to %s", ep.c_str());
                peers.push_back(move(p));
            }
        }
        go(Transition::Connect, State::DeviceReady);
        go(Transition::InitTask, State::Ready);
    }
    void go(Transition t, State target)
    {
        double t0 = vp::now();
        while (!d->ChangeState(t)) { vp::sleepUs(50); if (vp::now() - t0 > 30) { vp::violation("stuck", fmt("%s not accepted in %s", GetTransitionName(t).c_str(), d->GetCurrentStateName().c_str())); giveUp(); } }
        waitState(target);
    }
    void waitState(State target)
    {
        double t0 = vp::now();
        while (!(d->notified == target && d->GetCurrentState() == target && !d->NewStatePending())) { vp::sleepUs(50); if (vp::now() - t0 > 30) { vp::violation("stuck", fmt("device does not reach %s, is %s", GetStateName(target).c_str(), d->GetCurrentStateName().c_str())); giveUp(); } }
    }
    void end()
    {
        go(Transition::ResetTask, State::DeviceReady);
        go(Transition::ResetDevice, State::Idle);
        go(Transition::End, State::Exiting);
        runner.join();
        if (ep) { vp::violation("unexpected-error", "device failed without a planned failure"); }
    }
    string show() const
    {
        string s;
        for (auto& l : lay) { s += fmt("%s[%d] %s %s %s%s%s; ", l.name.c_str(), l.nsub, l.transport.c_str(), l.type.c_str(), l.multi ? "multi" : "single", l.member ? " member" : "", l.handled ? "" : " unhandled"); }
        return s;
    }
    bool sendOne(Peer& p, int timeout)
    {
        uint32_t n = p.multi ? 1 + static_cast<uint32_t>(p.r.below(4)) : 1;
        Parts ps;
        for (uint32_t i = 0; i < n; ++i) {
            Hdr h{static_cast<uint32_t>(p.c), static_cast<uint32_t>(p.sub), p.sent, n, i, p.r.next(), static_cast<uint32_t>(p.r.chance(1, 30) ? p.r.below(100000) : p.r.below(300))};
            auto m = p.ch->NewMessage(sizeof h + h.size);
            memcpy(m->GetData(), &h, sizeof h);
            tx::fill(static_cast<char*>(m->GetData()) + sizeof h, h.size, h.tag);
            ps.AddPart(move(m));
        }
        int64_t s = !p.multi ? p.ch->Send(ps.At(0), timeout) : p.ch->Send(ps, timeout);
        if (s < 0) { return false; }
        ++p.sent;
        return true;
    }
    uint64_t handledSent() const { uint64_t n = 0; for (auto& p : peers) { if (lay[p->c].handled) { n += p->sent; } } return n; }
};

void flow(uint64_t, vp::Rng& r)
{
    vp::phase("setup");
    Setup s(r, false);
    Dev& d = *s.d;
    vp::perturb(r.chance(1, 2) ? 1 + static_cast<unsigned>(r.below(3)) : 0, r.next());
    vp::resetScheduleHash();
    if (r.chance(1, 3)) { d.delayEvery = 1 + r.below(20); }
    int runs = 1 + static_cast<int>(r.below(3));
    uint64_t h = vp::hash(s.show());
    string ends;
    for (int k = 0; k < runs; ++k) {
        bool last = k == runs - 1;
        uint64_t before = d.total;
        int msgs = 5 + static_cast<int>(r.below(60));
        uint64_t expect = s.handledSent();
        for (auto& p : s.peers) { if (s.lay[p->c].handled) { expect += static_cast<uint64_t>(msgs); } }
        bool byFalse = r.chance(1, 3) && expect > before;
        d.falseAt = byFalse ? static_cast<int64_t>(before + 1 + r.below(expect - before)) : -1;
        bool early = !byFalse && !last && r.chance(1, 2);   // stopped by request in the middle
        bool sendFirst = r.chance(1, 4);
        vp::phase("run: " + s.show() + (byFalse ? "ended by a handler" : early ? "stopped early" : "stopped when done"));
        vector<thread> ts;
        auto start = [&] {
            // one thread per transport/peer group
            map<size_t, vector<Peer*>> g;
            size_t groups = 1 + r.below(3);
            for (size_t i = 0; i < s.peers.size(); ++i) { g[i % groups].push_back(s.peers[i].get()); }
            for (auto& x : g) {
                ts.emplace_back([&s, v = x.second, msgs, seed = r.next()]() mutable {
                    vp::Rng q(seed);
                    vector<int> left(v.size(), msgs);
                    int open = static_cast<int>(v.size()) * msgs;
                    double t0 = vp::now();
                    while (open > 0) {
                        size_t i = q.below(v.size());
                        if (!left[i]) { continue; }
                        if (s.sendOne(*v[i], 100)) { --left[i]; --open; vp::tick(); }
                        if (q.chance(1, 40)) { vp::sleepUs(q.below(2000)); }
                        if (vp::now() - t0 > 60) { vp::violation("send-stuck", "messages are not taken any more"); giveUp(); }
                    }
                });
            }
        };
        if (sendFirst) { start(); if (r.chance(1, 2)) { for (auto& t : ts) { t.join(); } ts.clear(); } }
        d.ChangeState(Transition::Run);
        if (!sendFirst) { start(); }
        double t0 = vp::now();
        if (byFalse) {
            // nobody asks for a stop: only the handler does
            while (!(d.notified == State::Ready && d.runs == k + 1 && !d.running)) {
                vp::sleepUs(200);
                if (vp::now() - t0 > 30) { vp::violation("false-ignored", fmt("a handler returned false (%d), device is still %s; %llu messages handled", d.ended.load(), d.GetCurrentStateName().c_str(), static_cast<unsigned long long>(d.total.load()))); giveUp(); }
            }
            VP_CHECK(d.total == static_cast<uint64_t>(d.falseAt), "called-after-end", "handlers were called %lld times, the call number %lld returned false", static_cast<long long>(d.total.load()), static_cast<long long>(d.falseAt));
            vp::count("ended_by_handler");
        } else {
            if (early) { vp::sleepUs(r.below(20000)); }
            else {
                while (d.total < expect) {
                    vp::sleepUs(200);
                    if (s.done || (d.runs == k + 1 && d.notified == State::Ready)) { vp::violation("ended-by-itself", "the loop ended without a handler returning false or a stop request"); break; }
                    if (vp::now() - t0 > 40) {
                        string miss;
                        for (auto& p : s.peers) { auto g = d.got[p->c][static_cast<size_t>(p->sub)].next; if (s.lay[p->c].handled && g != p->sent) { miss += fmt("%s[%d] %llu/%llu ", s.lay[p->c].name.c_str(), p->sub, static_cast<unsigned long long>(g), static_cast<unsigned long long>(p->sent)); } }
                        vp::violation("not-delivered", "messages not handed to their handler: " + miss + "of " + s.show());
                        giveUp();
                    }
                }
            }
            t0 = vp::now();
            while (!(d.notified == State::Running || d.runs > k)) { vp::sleepUs(50); }
            d.ChangeState(Transition::Stop);
            while (!(d.notified == State::Ready && !d.running && d.runs == k + 1)) {
                vp::sleepUs(200);
                if (vp::now() - t0 > 15) { vp::violation("stop-ignored", "device still " + d.GetCurrentStateName() + " after a stop request"); giveUp(); }
            }
            vp::count(early ? "stopped_early" : "stopped_done");
        }
        s.waitState(State::Ready);
        for (auto& t : ts) { t.join(); }
        ends += byFalse ? "F" : early ? "e" : "d";
        vp::tick();
    }
    vp::interleaving(vp::scheduleHash());
    vp::perturb(0, 0);
    // finally everything that was sent has to be there, exactly once
    d.falseAt = -1;
    vp::phase("final run: " + s.show());
    d.ChangeState(Transition::Run);
    double t0 = vp::now();
    while (d.total < s.handledSent()) {
        vp::sleepUs(200);
        if (vp::now() - t0 > 30) { vp::violation("not-delivered", fmt("%llu of %llu messages handled after several runs (%s): ", static_cast<unsigned long long>(d.total.load()), static_cast<unsigned long long>(s.handledSent()), ends.c_str()) + s.show()); giveUp(); }
    }
    s.waitState(State::Running);
    d.ChangeState(Transition::Stop);
    s.waitState(State::Ready);
    for (auto& p : s.peers) {
        auto g = d.got[p->c][static_cast<size_t>(p->sub)].next;
        uint64_t e = s.lay[p->c].handled ? p->sent : 0;
        VP_CHECK(g == e, "count", "%s[%d]: %llu messages handled, %llu sent", s.lay[p->c].name.c_str(), p->sub, static_cast<unsigned long long>(g), static_cast<unsigned long long>(e));
        if (!s.lay[p->c].handled) {
            // still there for whoever receives it
            auto& c = d.GetChannel(s.lay[p->c].name, p->sub);
            auto m = c.NewMessage();
            Parts ps;
            VP_CHECK((p->multi ? c.Receive(ps, 5000) : c.Receive(m, 5000)) >= 0, "unhandled-consumed", "a message on the unhandled channel %s was consumed", s.lay[p->c].name.c_str());
            vp::count("unhandled_checked");
        }
    }
    vp::count("handled", d.total);
    set<string> tr;
    int subs = 0;
    for (auto& l : s.lay) { if (l.handled) { tr.insert(l.transport); subs += l.nsub; } }
    vp::count(tr.size() > 1 ? "layout_multi_transport" : subs > 1 ? "layout_multi_channel" : "layout_single");
    s.end();
    for (auto& p : s.peers) { p->ch.reset(); }
    vp::evaluated(vp::mix(h, d.total), d.total > 0);
    vp::sample(s.show() + " runs " + ends + fmt(" handled %llu", static_cast<unsigned long long>(d.total.load())));
}

// a handler that throws puts the device into ERROR and the runner gets to know
void throwing(uint64_t, vp::Rng& r)
{
    vp::phase("setup");
    Setup s(r, r.chance(1, 2));
    Dev& d = *s.d;
    d.throwAt = 1 + static_cast<int64_t>(r.below(8));
    vp::perturb(r.chance(1, 2) ? 2 : 0, r.next());
    vp::phase("throw: " + s.show());
    d.ChangeState(Transition::Run);
    double t0 = vp::now();
    while (!s.done) {
        for (auto& p : s.peers) { if (s.lay[p->c].handled) { s.sendOne(*p, 0); } }
        vp::sleepUs(500);
        vp::tick();
        if (vp::now() - t0 > 20) { vp::violation("throw-ignored", fmt("a handler threw (%d), device is still %s: ", d.ended.load(), d.GetCurrentStateName().c_str()) + s.show()); giveUp(); }
    }
    s.runner.join();
    VP_CHECK(d.GetCurrentState() == State::Error, "throw-state", "device is %s after a handler threw", d.GetCurrentStateName().c_str());
    VP_CHECK(d.total == static_cast<uint64_t>(d.throwAt), "called-after-end", "handlers were called %llu times, call %lld threw", static_cast<unsigned long long>(d.total.load()), static_cast<long long>(d.throwAt));
    string what;
    try { if (s.ep) { rethrow_exception(s.ep); } } catch (const exception& e) { what = e.what(); }
    VP_CHECK(what.find("planned handler failure") != string::npos, "throw-report", "runner got '%s'", what.c_str());
    d.kept.clear();
    vp::perturb(0, 0);
    vp::count("throws");
    vp::evaluated(vp::mix(vp::hash(s.show()), static_cast<uint64_t>(d.throwAt)));
}

// silence on the other channels/transports must not hold up a message
void latency(uint64_t, vp::Rng& r)
{
    vp::phase("setup");
    Setup s(r, true);
    Dev& d = *s.d;
    vp::phase("latency: " + s.show());
    d.ChangeState(Transition::Run);
    s.waitState(State::Running);
    for (int attempt = 0; attempt < 3; ++attempt) {
        double worst = 0;
        string on;
        for (auto& p : s.peers) {
            s.sendOne(*p, 5000);   // connection is up
            while (d.total < s.handledSent()) { vp::sleepUs(50); }
            double t0 = vp::now();
            for (int i = 0; i < 12; ++i) {
                s.sendOne(*p, 5000);
                while (d.total < s.handledSent()) { vp::sleepUs(20); if (vp::now() - t0 > 30) { vp::violation("not-delivered", "no delivery with the other channels silent: " + s.show()); giveUp(); } }
            }
            vp::tick();
            if (vp::now() - t0 > worst) { worst = vp::now() - t0; on = s.lay[p->c].name; }
        }
        vp::count("latency_rounds");
        if (worst < 1.2) { break; }
        if (attempt == 2) { vp::violation("held-up", fmt("12 messages on %s handled one by one took %.2f s while the others were silent: ", on.c_str(), worst) + s.show()); }
    }
    d.ChangeState(Transition::Stop);
    s.waitState(State::Ready);
    s.end();
    for (auto& p : s.peers) { p->ch.reset(); }
    vp::evaluated(vp::hash(s.show()));
}

} // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    fair::Logger::SetConsoleSeverity(getenv("VP_LOG") ? getenv("VP_LOG") : "nolog");
    vp::watchdog();
    auto& m = vp::S().mode;
    if (m == "flow") { vp::forCases(20, flow); }
    else if (m == "throw") { vp::forCases(10, throwing); }
    else if (m == "latency") { vp::forCases(6, latency); }
    else { return 3; }
    return vp::finish();
}
