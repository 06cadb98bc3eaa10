// C10: device hooks in lifecycle order, any number of cycles, stop and error handling.
// Oracle: the log of state notifications and hook calls of one device must be, state by state, the documented hook
// sequence; every cycle's channels must carry data; stop requests and errors must take effect.
#include "tx.h"

#include <fairmq/Device.h>

using namespace fair::mq;
using namespace std;
using vp::fmt;

namespace
{

struct HookError : runtime_error { using runtime_error::runtime_error; };

enum class RunKind { Return, RecvLoop, RecvOnce, SendLoop, WaitLong, WaitShort, CondForever, CondCount, Spin, PartsLoop, SelfStop, RateLimited, N };
const char* kindName[] = {"return", "recv-loop", "recv-once", "send-full", "wait-long", "wait-short", "cond-forever", "cond-count", "spin", "parts-loop", "self-stop", "rate-limited"};

struct Plan
{
    string transport = "zeromq", addr = "inproc";
    int nsub = 1;
    int rateLogging = 0;
    bool vary = false;             // configuration changes from cycle to cycle
    bool lateAddress = false;      // connecting side learns its address only while connecting
    bool keepPort = false;         // bind address of the earlier cycle is kept in the configuration
    string throwHook;              // hook that throws ...
    int throwAt = 0;               // ... on its n-th call
    int throwKind = 0;             // 0 std exception, 1 int
    int pingMax = 3;
    uint64_t seed = 1;
};

struct Ev { char kind; string name; State cur; double t; };   // kind: S state, + hook entry, - hook exit, ! throw

struct Dev : Device
{
    Plan p;
    vector<Ev> log;
    mutex m;
    map<string, int> calls;
    atomic<int> cycles{0}, pings{0};
    atomic<bool> setAddresses{true};
    vp::Rng r;
    RunKind kind = RunKind::Return;
    int condLeft = 0;
    atomic<State> notified{State::Ok};
    string tag;

    explicit Dev(Plan pl) : p(move(pl)), r(p.seed, 77)
    {
        SubscribeToStateChange("vp", [this](State s) {
            { lock_guard<mutex> l(m); log.push_back({'S', GetStateName(s), GetCurrentState(), vp::now()}); }
            notified = s;
            vp::tick();
        });
    }
    ~Dev() override { UnsubscribeFromStateChange("vp"); }

    struct Hook
    {
        Dev& d; string n; bool armed = true;
        Hook(Dev& dev, const string& name) : d(dev), n(name)
        {
            int c;
            { lock_guard<mutex> l(d.m); d.log.push_back({'+', n, d.GetCurrentState(), vp::now()}); c = ++d.calls[n]; }
            vp::tick();
            if (d.r.chance(1, 6)) { vp::sleepUs(d.r.below(1500)); }
            if (n == d.p.throwHook && c == d.p.throwAt) {
                { lock_guard<mutex> l(d.m); d.log.push_back({'!', n, d.GetCurrentState(), vp::now()}); }
                if (d.p.throwKind == 1) { throw 42; }
                throw HookError("planned failure in " + n);
            }
        }
        ~Hook() { lock_guard<mutex> l(d.m); d.log.push_back({'-', n, d.GetCurrentState(), vp::now()}); }
    };

    // configuration changed between two initializations: what a pass uses is what was configured when it was initialized
    struct Want { string id, transport, session; int buf = 20; } want;
    set<string> sessions;
    void vary()
    {
        if (!p.vary || !GetConfig()) { return; }
        auto& c = *GetConfig();
        lastSession = want.session;
        if (r.chance(1, 2)) { c.SetProperty<string>("id", fmt("dev%u", static_cast<unsigned>(r.below(1000)))); }
        if (r.chance(1, 2)) { c.SetProperty<string>("transport", r.chance(1, 2) ? "zeromq" : "shmem"); }
        if (r.chance(1, 3)) { c.SetProperty<string>("session", tx::newSession()); }
        if (r.chance(1, 3)) { c.SetProperty<float>("rate", r.pick(vector<float>{0.f, 400.f, 3000.f})); }
        if (r.chance(1, 2)) { int b = 20 + static_cast<int>(r.below(20)); for (int i = 0; i < p.nsub; ++i) { for (const char* n : {"out", "in"}) { c.SetProperty<int>(fmt("chans.%s.%d.sndBufSize", n, i), b); } } }
        take();
    }
    void take()
    {
        auto& c = *GetConfig();
        want.id = c.GetProperty<string>("id");
        want.transport = c.GetProperty<string>("transport");
        want.session = c.GetProperty<string>("session");
        want.buf = c.GetProperty<int>("chans.out.0.sndBufSize");
        sessions.insert(want.session);
    }
    string lastSession;
    void checkConfig()
    {
        if (!p.vary) { return; }
        VP_CHECK(GetId() == want.id, "config-of-cycle", "cycle %d: id %s, configured %s", cycles.load(), GetId().c_str(), want.id.c_str());
        auto type = TransportTypes.at(want.transport);
        VP_CHECK(Transport()->GetType() == type, "config-of-cycle", "cycle %d: default transport is not %s", cycles.load(), want.transport.c_str());
        for (int i = 0; i < p.nsub; ++i) {
            for (const char* n : {"out", "in"}) {
                auto& ch = GetChannel(n, i);
                VP_CHECK(ch.Transport() == Transport() && ch.GetTransportType() == type, "config-of-cycle", "cycle %d: channel %s[%d] does not use the default transport %s", cycles.load(), n, i, want.transport.c_str());
                VP_CHECK(ch.GetSndBufSize() == want.buf, "config-of-cycle", "cycle %d: channel %s[%d] has buffer size %d, configured %d", cycles.load(), n, i, ch.GetSndBufSize(), want.buf);
            }
        }
        if (type == fair::mq::Transport::SHM) {
            VP_CHECK(!tx::shmObjects(shmem::makeShmIdStr(want.session)).empty(), "config-of-cycle", "cycle %d: nothing exists of the configured session", cycles.load());
            vp::count("shm_cycles");
        }
        vp::count("configs_checked");
    }

    void Init() override
    {
        Hook h(*this, "Init");
        ++cycles;
        joinLate();
        if (p.vary && cycles > 1) {
            // the previous pass gave up everything it had
            auto left = tx::shmObjects(shmem::makeShmIdStr(lastSession));
            VP_CHECK(left.empty(), "cycle-left", "cycle %d starts, but %s of the previous cycle is still there", cycles.load(), left[0].c_str());
        }
        tag = tx::uniq("a");
        auto& c = *GetConfig();
        for (int i = 0; i < p.nsub; ++i) {
            string a = p.addr == "tcp" ? "tcp://127.0.0.1:*" : p.addr == "ipc" ? "ipc://@" + tag + fmt("_%d", i) : "inproc://" + tag + fmt("_%d", i);
            string o = fmt("chans.out.%d.", i), in = fmt("chans.in.%d.", i);
            if (!(p.keepPort && p.addr == "tcp" && c.Count(o + "address") && cycles > 1)) { c.SetProperty<string>(o + "address", p.addr == "tcp" && r.chance(1, 2) ? "tcp://127.0.0.1:1" : a); }
            c.SetProperty<string>(in + "address", (p.lateAddress || p.addr == "tcp") ? string("unspecified") : a);
        }
    }
    void publish()
    {
        auto& c = *GetConfig();
        for (int i = 0; i < p.nsub; ++i) {
            c.SetProperty<string>(fmt("chans.in.%d.address", i), GetChannel("out", i).GetAddress() == "tcp://127.0.0.1:*" ? tx::lastEndpoint(GetChannel("out", i).GetSocket()) : GetChannel("out", i).GetAddress());
        }
    }
    void Bind() override
    {
        Hook h(*this, "Bind");
        checkConfig();
        // where a channel is bound is known to the channel and to the configuration
        for (int i = 0; i < p.nsub && !NewStatePending(); ++i) {
            string ca = GetConfig()->GetProperty<string>(fmt("chans.out.%d.address", i)), ha = GetChannel("out", i).GetAddress();
            VP_CHECK(ca == ha, "bound-address", "channel out[%d] has address %s, its configuration %s", i, ha.c_str(), ca.c_str());
            if (p.addr == "tcp" && ha != "tcp://127.0.0.1:*") {
                string e = tx::lastEndpoint(GetChannel("out", i).GetSocket());
                VP_CHECK(e == ha, "bound-address", "channel out[%d] has address %s, is bound to %s", i, ha.c_str(), e.c_str());
                vp::count("bound_ports_checked");
            }
        }
        VP_CHECK(GetNumSubChannels("out") == p.nsub && GetNumSubChannels("in") == p.nsub, "channels", "%d/%d sub-channels, configured %d", GetNumSubChannels("out"), GetNumSubChannels("in"), p.nsub);
        if ((p.lateAddress || p.addr == "tcp") && setAddresses) {
            if (r.chance(1, 2)) { publish(); }
            else {
                // somebody else provides the address while the device is already connecting
                joinLate();
                late = thread([this, us = static_cast<long>(r.below(60000)), eps = endpoints()] {
                    vp::sleepUs(us);
                    for (int i = 0; i < p.nsub; ++i) { GetConfig()->SetProperty<string>(fmt("chans.in.%d.address", i), eps[i]); }
                });
            }
        }
    }
    vector<string> endpoints()
    {
        vector<string> e;
        for (int i = 0; i < p.nsub; ++i) { e.push_back(p.addr == "tcp" ? tx::lastEndpoint(GetChannel("out", i).GetSocket()) : GetChannel("out", i).GetAddress()); }
        return e;
    }
    thread late;
    void joinLate() { if (late.joinable()) { late.join(); } }
    void Connect() override
    {
        Hook h(*this, "Connect");
        for (int i = 0; i < p.nsub && !NewStatePending(); ++i) {
            auto& c = GetChannel("in", i);
            VP_CHECK(c.GetMessagesRx() == 0 && c.GetBytesRx() == 0 && GetChannel("out", i).GetMessagesTx() == 0, "fresh-channels", "channel counters are not zero after (re)initialization");
        }
    }
    void InitTask() override
    {
        Hook h(*this, "InitTask");
        kind = static_cast<RunKind>(r.below(static_cast<uint64_t>(RunKind::N)));
        condLeft = static_cast<int>(r.below(5));
        ping();
    }
    // load sent by Run: recognizable and stamped with the cycle whose channels carry it
    static constexpr size_t loadSize = 4096;
    void loadStamp(void* d) { tx::fill(d, loadSize, 0x10AD0000u + static_cast<unsigned>(cycles.load())); }
    bool isLoad(Message& q) { return q.GetSize() == loadSize && tx::same(q.GetData(), loadSize, 0x10AD0000u + static_cast<unsigned>(cycles.load())); }
    // every cycle's channels have to carry data
    void ping()
    {
        for (int i = 0; i < p.nsub; ++i) {
            auto& out = GetChannel("out", i);
            auto& in = GetChannel("in", i);
            int n = 1 + static_cast<int>(r.below(static_cast<uint64_t>(p.pingMax)));
            for (int k = 0; k < n; ++k) {
                if (NewStatePending()) { return; }
                size_t sz = r.below(3000);
                uint64_t t = r.next();
                auto msg = out.NewMessage(sz);
                tx::fill(msg->GetData(), sz, t);
                int64_t s = out.Send(msg, 10000);
                if (s < 0 && NewStatePending()) { return; }
                VP_CHECK(s == static_cast<int64_t>(sz), "ping-send", "cycle %d: send on a freshly initialized channel returned %lld for %zu bytes", cycles.load(), static_cast<long long>(s), sz);
                auto q = in.NewMessage();
                int64_t g = 0;
                // what a previous run of this cycle left in flight may still be ahead of the ping
                do { g = in.Receive(q, 10000); } while (g == static_cast<int64_t>(loadSize) && isLoad(*q));
                if (g < 0 && NewStatePending()) { return; }
                VP_CHECK(g == static_cast<int64_t>(sz) && q->GetSize() == sz && tx::same(q->GetData(), sz, t), "ping-recv",
                         "cycle %d (%s %s): message of %zu bytes sent on a freshly initialized channel, receive returned %lld", cycles.load(), p.transport.c_str(), p.addr.c_str(), sz, static_cast<long long>(g));
                ++pings;
            }
        }
    }
    void PreRun() override { Hook h(*this, "PreRun"); }
    bool ConditionalRun() override
    {
        Hook h(*this, "ConditionalRun");
        if (kind == RunKind::CondForever) { vp::sleepUs(200); return true; }
        if (kind == RunKind::RateLimited) { return true; }
        if (kind == RunKind::CondCount) { return condLeft-- > 0; }
        return false;
    }
    void Run() override
    {
        Hook h(*this, "Run");
        switch (kind) {
            case RunKind::RecvLoop:
                while (!NewStatePending()) { auto q = GetChannel("in", 0).NewMessage(); int64_t n = Receive(q, "in", 0); VP_CHECK(n < 0 || isLoad(*q), "phantom", "received %lld bytes nobody sent", static_cast<long long>(n)); }
                break;
            case RunKind::RecvOnce: { auto q = GetChannel("in", 0).NewMessage(); Receive(q, "in", 0); break; }
            case RunKind::PartsLoop:
                while (!NewStatePending()) { Parts q; Receive(q, "in", 0); }
                break;
            case RunKind::SendLoop:
                while (!NewStatePending()) { auto q = GetChannel("out", 0).NewMessage(loadSize); loadStamp(q->GetData()); if (Send(q, "out", 0) < 0) { break; } }
                // leave no traffic behind for the next run
                while (true) { auto q = GetChannel("in", 0).NewMessage(); if (Receive(q, "in", 0, 0) < 0) { break; } }
                break;
            case RunKind::WaitLong: {
                bool full = WaitFor(chrono::hours(1));
                VP_CHECK(!full, "waitfor", "WaitFor(1h) reported that it waited the whole time");
                VP_CHECK(NewStatePending(), "waitfor", "WaitFor(1h) returned without a pending transition");
                break;
            }
            case RunKind::WaitShort:
                while (true) {
                    double t0 = vp::now();
                    if (WaitFor(chrono::milliseconds(3))) { double d = vp::now() - t0; VP_CHECK(d >= 0.0029, "waitfor", "WaitFor(3ms) reported a full wait after %.2f ms", d * 1000); }
                    else { VP_CHECK(NewStatePending(), "waitfor", "WaitFor reported an interruption without a pending transition"); break; }
                }
                break;
            case RunKind::Spin: while (!NewStatePending()) { vp::sleepUs(300); } break;
            case RunKind::SelfStop: ChangeState(Transition::Stop); break;
            default: break;
        }
    }
    void PostRun() override { Hook h(*this, "PostRun"); }
    void ResetTask() override
    {
        Hook h(*this, "ResetTask");
        drain();
    }
    void drain()
    {
        for (int i = 0; i < p.nsub; ++i) { while (true) { auto q = GetChannel("in", i).NewMessage(); if (Receive(q, "in", i, 0) < 0) { break; } } }
    }
    void Reset() override { Hook h(*this, "Reset"); vary(); }
};

void configure(ProgOptions& c, const Plan& p, const string& session)
{
    c.SetProperty<string>("id", "dev");
    c.SetProperty<string>("transport", p.transport);
    c.SetProperty<string>("session", session);
    c.SetProperty<size_t>("shm-segment-size", 4u << 20);
    c.SetProperty<int>("init-timeout", 60);
    for (int i = 0; i < p.nsub; ++i) {
        for (const char* n : {"out", "in"}) {
            string k = fmt("chans.%s.%d.", n, i);
            c.SetProperty<string>(k + "type", string(n) == "out" ? "push" : "pull");
            c.SetProperty<string>(k + "method", string(n) == "out" ? "bind" : "connect");
            c.SetProperty<string>(k + "address", "unspecified");
            c.SetProperty<string>(k + "transport", "default");
            c.SetProperty<int>(k + "sndBufSize", 20);
            c.SetProperty<int>(k + "rcvBufSize", 20);
            c.SetProperty<int>(k + "rateLogging", p.rateLogging);
        }
    }
}

// hooks expected in a state; ConditionalRun repeats
const map<string, vector<string>> expectedHooks = {
    {"INITIALIZING DEVICE", {"Init"}}, {"BINDING", {"Bind"}}, {"CONNECTING", {"Connect"}}, {"INITIALIZING TASK", {"InitTask"}},
    {"RUNNING", {"PreRun", "Run", "PostRun"}}, {"RESETTING TASK", {"ResetTask"}}, {"RESETTING DEVICE", {"Reset"}}};

string show(const vector<Ev>& l, size_t at)
{
    string s;
    size_t a = at > 14 ? at - 14 : 0;
    for (size_t i = a; i < l.size() && i < at + 4; ++i) { s += (i == at ? " >>" : " ") + string(1, l[i].kind) + l[i].name; }
    return s;
}

// returns the names of the states passed
vector<string> checkLog(Dev& d, bool threw)
{
    auto& l = d.log;
    vector<string> path;
    size_t i = 0;
    bool stopped = false;
    VP_CHECK(!l.empty() && l[0].kind == 'S' && l[0].name == "IDLE", "log-start", "first event is not the IDLE notification");
    while (i < l.size() && !stopped) {
        if (l[i].kind != 'S') { vp::violation("hook-order", "hook outside its place:" + show(l, i)); return path; }
        string st = l[i].name;
        path.push_back(st);
        VP_CHECK(GetStateName(l[i].cur) == st, "state-in-notify", "state during the notification of %s was %s", st.c_str(), GetStateName(l[i].cur).c_str());
        ++i;
        vector<string> want;
        auto it = expectedHooks.find(st);
        if (it != expectedHooks.end()) { want = it->second; }
        for (size_t w = 0; w < want.size() && !stopped; ++w) {
            // optional repeated ConditionalRun before Run
            while (want[w] == "Run" && i < l.size() && l[i].kind == '+' && l[i].name == "ConditionalRun") {
                VP_CHECK(GetStateName(l[i].cur) == st, "hook-state", "hook ConditionalRun called in state %s", GetStateName(l[i].cur).c_str());
                ++i;
                if (i < l.size() && l[i].kind == '!') { stopped = true; ++i; break; }
                if (!(i < l.size() && l[i].kind == '-' && l[i].name == "ConditionalRun")) { vp::violation("hook-order", "hook not finished:" + show(l, i)); return path; }
                ++i;
            }
            if (stopped) { break; }
            if (!(i < l.size() && l[i].kind == '+' && l[i].name == want[w])) {
                vp::violation("hook-order", "in state " + st + " expected hook " + want[w] + ":" + (i < l.size() ? show(l, i) : string(" end of log after") + show(l, l.size() - 1)));
                return path;
            }
            VP_CHECK(GetStateName(l[i].cur) == st, "hook-state", "hook %s called in state %s", want[w].c_str(), GetStateName(l[i].cur).c_str());
            ++i;
            if (i < l.size() && l[i].kind == '!') { stopped = true; ++i; break; }
            if (!(i < l.size() && l[i].kind == '-' && l[i].name == want[w])) { vp::violation("hook-order", "hook not finished:" + show(l, i)); return path; }
            ++i;
        }
    }
    if (stopped) {
        VP_CHECK(threw, "error-lost", "a hook threw but no exception reached the runner");
        if (i >= l.size() || l[i].kind != 'S' || l[i].name != "ERROR") { vp::violation("error-state", "after the throwing hook the device was not notified into ERROR:" + show(l, min(i, l.size() - 1))); return path; }
        path.push_back("ERROR");
        if (i + 1 != l.size()) { vp::violation("after-error", "activity after ERROR:" + show(l, i + 1)); }
    } else {
        VP_CHECK(path.back() == "EXITING" || path.back() == "ERROR", "log-end", "last state is %s", path.back().c_str());
    }
    return path;
}

bool legalFrom(State s, Transition t)
{
    switch (s) {
        case State::Idle: return t == Transition::InitDevice || t == Transition::End;
        case State::InitializingDevice: return t == Transition::CompleteInit;
        case State::Initialized: return t == Transition::Bind || t == Transition::ResetDevice;
        case State::Bound: return t == Transition::Connect || t == Transition::ResetDevice;
        case State::DeviceReady: return t == Transition::InitTask || t == Transition::ResetDevice;
        case State::Ready: return t == Transition::Run || t == Transition::ResetTask;
        case State::Running: return t == Transition::Stop;
        default: return false;
    }
}
const vector<Transition> external = {Transition::InitDevice, Transition::End, Transition::CompleteInit, Transition::Bind, Transition::ResetDevice, Transition::Connect,
                                     Transition::InitTask, Transition::Run, Transition::ResetTask, Transition::Stop};

[[noreturn]] void giveUp() { vp::finish(); _exit(0); }

void waitLeave(Dev& d, State s, double limit, const char* key, const string& what)
{
    double t0 = vp::now();
    while (d.GetCurrentState() == s) {
        vp::sleepUs(200);
        if (vp::now() - t0 > limit) { vp::violation(key, what + fmt(": device still %s after %.0f s", GetStateName(s).c_str(), limit)); giveUp(); }
    }
    double dt = vp::now() - t0;
    if (dt > 1.5) { vp::count("slow_leave"); }
}

// the device's own waits see the states in order, and report an error instead of blocking
void ownQueue(Dev& d, const vector<string>& path)
{
    if (path.empty()) { return; }
    atomic<bool> fin{false};
    string seen;
    bool threw = false;
    size_t at = 1;
    thread t([&] {
        try { for (; at < path.size(); ++at) { auto s = GetStateName(d.WaitForNextState()); seen = s; if (s != path[at]) { break; } } }
        catch (const DeviceErrorState&) { threw = true; }
        fin = true;
    });
    double t0 = vp::now();
    while (!fin) {
        vp::sleepUs(100);
        if (vp::now() - t0 > 15) { vp::violation("wait-lost", fmt("WaitForNextState() of a device that ended in %s still blocks, waiting for entry %zu (%s) of its path", path.back().c_str(), at, path[at].c_str())); giveUp(); }
    }
    t.join();
    if (threw) { VP_CHECK(path[at] == "ERROR", "wait-error", "WaitForNextState() reported an error where the device was in %s", path[at].c_str()); }
    else { VP_CHECK(at == path.size() && path.back() != "ERROR", "wait-order", "WaitForNextState() gave %s instead of %s", seen.c_str(), at < path.size() ? path[at].c_str() : "an error"); }
    vp::count("own_waits", at);
}

struct Outcome { bool threw = false; string what; bool isHook = false, isInt = false; bool done = false; };

void walk(uint64_t, vp::Rng& r)
{
    Plan p;
    p.seed = r.next();
    p.transport = r.chance(1, 2) ? "zeromq" : "shmem";
    p.addr = r.pick(vector<string>{"inproc", "ipc", "tcp"});
    p.nsub = 1 + static_cast<int>(r.below(3));
    p.lateAddress = r.chance(1, 4);
    p.keepPort = r.chance(1, 3);
    p.rateLogging = r.chance(1, 25) ? 1 : 0;
    p.vary = r.chance(2, 3);
    bool fail = vp::optU("fail", 0) || r.chance(1, 5);
    const vector<string> hooks = {"Init", "Bind", "Connect", "InitTask", "PreRun", "ConditionalRun", "Run", "PostRun", "ResetTask", "Reset"};
    if (fail && r.chance(4, 5)) { p.throwHook = r.pick(hooks); p.throwAt = 1 + static_cast<int>(r.below(p.throwHook == "ConditionalRun" ? 4 : 2)); p.throwKind = r.chance(1, 6); }
    bool errInject = fail && (p.throwHook.empty() || r.chance(1, 6));
    int budget = 6 + static_cast<int>(r.below(40));
    int errAt = errInject ? static_cast<int>(r.below(static_cast<uint64_t>(budget))) : -1;
    bool noise = r.chance(1, 3);
    int earlyReset = static_cast<int>(r.below(3));   // 0: rarely reset before ready, 2: often
    vp::perturb(r.chance(2, 3) ? 1 + static_cast<unsigned>(r.below(3)) : 0, r.next());
    vp::resetScheduleHash();

    ProgOptions cfg;
    string session = tx::newSession();
    configure(cfg, p, session);
    vp::phase(fmt("walk %s %s", p.transport.c_str(), p.addr.c_str()));
    uint64_t h = vp::hash(p.transport + p.addr + p.throwHook);
    map<string, uint64_t> kinds;
    set<string> used{session};
    {
        auto dp = make_unique<Dev>(p);
        Dev& d = *dp;
        d.SetConfig(cfg);
        d.take();
        Outcome out;
        atomic<bool> done{false};
        thread runner([&] {
            try { d.RunStateMachine(); }
            catch (const HookError& e) { out.threw = true; out.isHook = true; out.what = e.what(); }
            catch (const exception& e) { out.threw = true; out.what = e.what(); }
            catch (int) { out.threw = true; out.isHook = true; out.isInt = true; }
            done = true;
        });
        atomic<bool> stopNoise{false};
        vp::Rng nr(r.next());
        thread noisy;
        if (noise) {
            noisy = thread([&] {
                while (!stopNoise && !done) {
                    Transition t = external[nr.below(external.size())];
                    if (t != Transition::End) { d.ChangeState(t); }
                    vp::sleepUs(nr.below(3000));
                }
            });
        }
        int steps = 0;
        bool errored = false;
        int drawn = 0;
        double tEnd = vp::now() + 60;
        // walk until the budget is used, then head for the exit
        while (!done) {
            if (vp::now() > tEnd) { vp::violation("stuck", fmt("device does not reach its end, state %s", GetStateName(d.GetCurrentState()).c_str())); giveUp(); }
            if (++drawn % 64 == 0) { vp::sleepUs(50); }
            State s = d.GetCurrentState();
            if (s == State::Error || s == State::Exiting) { vp::sleepUs(200); continue; }
            if (steps >= budget && noise && !stopNoise) { stopNoise = true; noisy.join(); continue; }
            if (errAt >= 0 && steps == errAt && !errored) {
                vp::sleepUs(r.below(2000));
                bool ok = d.ChangeState(Transition::ErrorFound);
                VP_CHECK(ok || d.GetCurrentState() == State::Error || done, "error-refused", "ErrorFound was refused in state %s", GetStateName(s).c_str());
                errored = true;
                double t0 = vp::now();
                while (!done) { vp::sleepUs(200); if (vp::now() - t0 > 20) { vp::violation("error-ignored", fmt("ErrorFound requested in state %s, device still %s after 20 s", GetStateName(s).c_str(), GetStateName(d.GetCurrentState()).c_str())); giveUp(); } }
                continue;
            }
            vector<Transition> c;
            bool ending = steps >= budget;
            for (auto t : external) {
                if (!legalFrom(s, t)) { continue; }
                if (t == Transition::End && !ending) { continue; }
                if (s == State::Idle && t == Transition::InitDevice && ending) { continue; }
                if (t == Transition::ResetDevice && (s == State::Initialized || s == State::Bound) && !ending && !r.chance(earlyReset == 0 ? 1 : earlyReset * 2, 8)) { continue; }
                if (ending && s == State::Ready && t == Transition::Run) { continue; }
                if (ending && s == State::DeviceReady && t == Transition::InitTask) { continue; }
                c.push_back(t);
            }
            if (c.empty()) { vp::sleepUs(200); continue; }
            Transition t = r.pick(c);
            if (s == State::Running) { vp::sleepUs(r.chance(1, 3) ? 0 : r.below(8000)); }
            if (d.ChangeState(t)) {
                ++steps;
                h = vp::mix(h, static_cast<uint64_t>(t));
                vp::count("transitions");
                if (t == Transition::Stop) {
                    kinds[kindName[static_cast<int>(d.kind)]]++;
                    waitLeave(d, State::Running, 20, "stop-ignored", string("stop while running (") + kindName[static_cast<int>(d.kind)] + ", " + p.transport + ")");
                } else if (r.chance(1, 2)) { vp::sleepUs(r.below(800)); }
            } else { vp::sleepUs(100); }
        }
        if (noise && !stopNoise) { stopNoise = true; noisy.join(); }
        runner.join();
        d.joinLate();
        used.insert(d.sessions.begin(), d.sessions.end());
        vector<string> path = checkLog(d, out.threw);
        bool threwHook = false;
        for (auto& e : d.log) { threwHook |= e.kind == '!'; }
        string last = path.empty() ? "" : path.back();
        if (threwHook) {
            VP_CHECK(out.isHook, "error-report", "hook %s threw, but the runner got '%s'", p.throwHook.c_str(), out.what.c_str());
            VP_CHECK(out.isInt == (p.throwKind == 1), "error-report", "wrong exception type reported");
            if (p.throwKind == 0) { VP_CHECK(out.what == "planned failure in " + p.throwHook, "error-report", "runner got '%s'", out.what.c_str()); }
            VP_CHECK(d.GetCurrentState() == State::Error, "error-state", "after a throwing hook the device is in %s", d.GetCurrentStateName().c_str());
            vp::count("throw_" + p.throwHook);
        } else if (errored) {
            VP_CHECK(last == "ERROR" && out.threw, "error-end", "error was requested; last state %s, exception %d", last.c_str(), out.threw);
            vp::count("errors_injected");
        } else {
            VP_CHECK(last == "EXITING" && !out.threw, "clean-end", "no error was injected; last state %s, exception '%s'", last.c_str(), out.what.c_str());
        }
        ownQueue(d, path);
        VP_CHECK(d.GetCurrentState() == (last == "ERROR" ? State::Error : State::Exiting), "final-state", "final state %s", d.GetCurrentStateName().c_str());
        vp::count("cycles", static_cast<uint64_t>(d.cycles.load()));
        vp::count("pings", static_cast<uint64_t>(d.pings.load()));
        vp::count("hook_events", d.log.size());
        for (auto& k : kinds) { vp::count("stopped_" + k.first, k.second); }
        for (auto& k : d.calls) { vp::count("hook_" + k.first, static_cast<uint64_t>(k.second)); }
        vp::evaluated(h, d.cycles > 0);
        string pth;
        for (auto& s : path) { pth += s + " "; }
        vp::sample(fmt("%s %s nsub=%d throw=%s@%d: ", p.transport.c_str(), p.addr.c_str(), p.nsub, p.throwHook.c_str(), p.throwAt) + pth);
        vp::phase("destroy");
    }
    vp::interleaving(vp::scheduleHash());
    vp::perturb(0, 0);
    for (auto& s : used) {
        auto left = tx::shmObjects(shmem::makeShmIdStr(s));
        VP_CHECK(left.empty(), "session-left", "device destroyed, but %s is still there", left[0].c_str());
    }
}

// stop requested at the very moment the device starts running: no run kind may miss it
void stop(uint64_t, vp::Rng& r)
{
    Plan p;
    p.seed = r.next();
    p.transport = r.chance(1, 2) ? "zeromq" : "shmem";
    p.addr = "inproc";
    ProgOptions cfg;
    string session = tx::newSession();
    configure(cfg, p, session);
    vp::phase("stop");
    {
        Dev d(p);
        d.SetConfig(cfg);
        thread runner([&] { try { d.RunStateMachine(); } catch (const exception& e) { vp::violation("stop-exception", string("device failed: ") + e.what()); giveUp(); } });
        auto go = [&](Transition t, State target) {
            double t0 = vp::now();
            while (!d.ChangeState(t)) { vp::sleepUs(50); if (vp::now() - t0 > 30) { vp::violation("stuck", fmt("%s not accepted in %s", GetTransitionName(t).c_str(), d.GetCurrentStateName().c_str())); giveUp(); } }
            while (d.notified != target) { vp::sleepUs(20); if (vp::now() - t0 > 30) { vp::violation("stuck", fmt("%s does not reach %s", GetTransitionName(t).c_str(), GetStateName(target).c_str())); giveUp(); } }
        };
        go(Transition::InitDevice, State::InitializingDevice);
        go(Transition::CompleteInit, State::Initialized);
        go(Transition::Bind, State::Bound);
        go(Transition::Connect, State::DeviceReady);
        int rounds = static_cast<int>(vp::optU("rounds", 30));
        uint64_t h = vp::hash(p.transport);
        for (int i = 0; i < rounds; ++i) {
            go(Transition::InitTask, State::Ready);
            d.kind = static_cast<RunKind>(r.below(static_cast<uint64_t>(RunKind::N)));
            vp::phase(fmt("stop %s %s", kindName[static_cast<int>(d.kind)], p.transport.c_str()));
            vp::resetScheduleHash();
            vp::perturb(1 + static_cast<unsigned>(r.below(4)), r.next());
            bool wait = r.chance(1, 4);
            int nst = 1 + static_cast<int>(r.below(3));
            vector<thread> ts;
            atomic<int> granted{0};
            vp::Barrier b(static_cast<unsigned>(nst) + 1);
            for (int k = 0; k < nst; ++k) {
                ts.emplace_back([&, us = static_cast<long>(wait ? r.below(3000) : r.below(30))] {
                    b.wait();
                    double t0 = vp::now();
                    while (d.GetCurrentState() == State::Ready && vp::now() - t0 < 10) { if (wait) { std::this_thread::yield(); } }
                    vp::sleepUs(us);
                    if (d.ChangeState(Transition::Stop)) { ++granted; }
                });
            }
            b.wait();
            d.ChangeState(Transition::Run);
            for (auto& t : ts) { t.join(); }
            // whoever stopped it, it has to come back
            double t0 = vp::now();
            while (true) {
                State n = d.notified;
                if (n == State::Ready && d.GetCurrentState() == State::Ready && !d.NewStatePending()) { lock_guard<mutex> l(d.m); bool ran = false; for (size_t k = d.log.size(); k-- > 0;) { if (d.log[k].kind == 'S' && d.log[k].name == "INITIALIZING TASK") { break; } if (d.log[k].kind == '-' && d.log[k].name == "PostRun") { ran = true; } } if (ran) { break; } }
                vp::sleepUs(100);
                if (vp::now() - t0 > 15) {
                    vp::violation("stop-ignored", fmt("stop granted %d times right after Run (%s, %s), device is %s", granted.load(), kindName[static_cast<int>(d.kind)], p.transport.c_str(), d.GetCurrentStateName().c_str()));
                    giveUp();
                }
                if (granted == 0 && d.GetCurrentState() == State::Running) { if (d.ChangeState(Transition::Stop)) { ++granted; } }
            }
            vp::perturb(0, 0);
            vp::interleaving(vp::scheduleHash());
            vp::count(string("stopped_") + kindName[static_cast<int>(d.kind)]);
            h = vp::mix(h, static_cast<uint64_t>(d.kind));
            d.kind = RunKind::Return;
            go(Transition::ResetTask, State::DeviceReady);
        }
        go(Transition::ResetDevice, State::Idle);
        go(Transition::End, State::Exiting);
        runner.join();
        checkLog(d, false);
        vp::evaluated(vp::mix(h, p.seed));
        vp::sample(fmt("%s: %d runs stopped at random points", p.transport.c_str(), rounds));
    }
}

// connecting: address arrives late, never arrives, or the device is interrupted while waiting for it
void connecting(uint64_t i, vp::Rng& r)
{
    Plan p;
    p.seed = r.next();
    p.transport = r.chance(1, 2) ? "zeromq" : "shmem";
    p.addr = r.chance(1, 2) ? "ipc" : "inproc";
    p.lateAddress = true;
    int variant = static_cast<int>(i % 4);
    ProgOptions cfg;
    string session = tx::newSession();
    configure(cfg, p, session);
    int timeout = 1 + static_cast<int>(r.below(2));
    cfg.SetProperty<int>("init-timeout", variant == 0 ? timeout : 60);
    vp::phase(fmt("connecting variant %d", variant));
    Dev d(p);
    d.SetConfig(cfg);
    d.setAddresses = variant == 2;
    atomic<bool> corrected{false};
    const string wrong = r.chance(1, 2) ? "tcp://no-such-host.invalid:5555" : "";
    string what;
    atomic<bool> done{false};
    thread runner([&] { try { d.RunStateMachine(); } catch (const exception& e) { what = e.what(); } done = true; });
    auto go = [&](Transition t, State target) {
        double t0 = vp::now();
        while (!d.ChangeState(t)) { vp::sleepUs(50); }
        while (d.notified != target) { vp::sleepUs(20); if (vp::now() - t0 > 30) { vp::violation("stuck", fmt("%s does not reach %s", GetTransitionName(t).c_str(), GetStateName(target).c_str())); giveUp(); } }
    };
    go(Transition::InitDevice, State::InitializingDevice);
    go(Transition::CompleteInit, State::Initialized);
    go(Transition::Bind, State::Bound);
    double t0 = vp::now();
    vector<string> eps;
    if (variant == 3) { eps = d.endpoints(); for (int k = 0; k < p.nsub; ++k) { cfg.SetProperty<string>(fmt("chans.in.%d.address", k), wrong.empty() ? eps[k] + ",tcp://no-such-host.invalid:5555" : wrong); } }
    d.ChangeState(Transition::Connect);
    if (variant == 3) {   // first an address that cannot be connected, then a good one
        vp::sleepUs(r.chance(1, 5) ? r.below(60000) : 80000 + r.below(200000));
        VP_CHECK(d.notified != State::DeviceReady, "wrong-address", "an address that does not resolve counted as connected");
        for (int k = 0; k < p.nsub; ++k) { cfg.SetProperty<string>(fmt("chans.in.%d.address", k), eps[k]); }
        corrected = true;
        vp::count("corrected_connects");
    }
    if (variant == 0) {   // never: gives up after init-timeout
        while (!done) { vp::sleepMs(2); if (vp::now() - t0 > timeout + 20) { vp::violation("init-timeout", "device still connecting long after init-timeout"); giveUp(); } }
        double dt = vp::now() - t0;
        VP_CHECK(dt >= timeout * 0.9, "init-timeout", "gave up after %.2f s, init-timeout is %d s", dt, timeout);
        VP_CHECK(d.GetCurrentState() == State::Error && !what.empty(), "init-timeout", "state %s, exception '%s' after the timeout", d.GetCurrentStateName().c_str(), what.c_str());
        vp::count("init_timeouts");
    } else if (variant == 1) {   // an error ends the waiting
        vp::sleepUs(r.below(150000));
        d.ChangeState(Transition::ErrorFound);
        t0 = vp::now();
        while (!done) { vp::sleepMs(1); if (vp::now() - t0 > 20) { vp::violation("error-ignored", "ErrorFound did not end waiting for an address"); giveUp(); } }
        VP_CHECK(d.GetCurrentState() == State::Error, "error-state", "state %s", d.GetCurrentStateName().c_str());
        vp::count("interrupted_connects");
    } else {   // provided late
        while (d.notified != State::DeviceReady) { vp::sleepUs(200); if (vp::now() - t0 > 30) { vp::violation("late-address", "address was provided, device does not become ready"); giveUp(); } }
        d.kind = RunKind::Return;
        go(Transition::InitTask, State::Ready);
        go(Transition::ResetTask, State::DeviceReady);
        go(Transition::ResetDevice, State::Idle);
        go(Transition::End, State::Exiting);
        VP_CHECK(d.pings > 0, "late-address", "no data through the late connected channel");
        vp::count("late_connects");
    }
    runner.join();
    d.joinLate();
    vp::evaluated(vp::mix(vp::hash(p.transport + p.addr), p.seed));
}

} // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    fair::Logger::SetConsoleSeverity(getenv("VP_LOG") ? getenv("VP_LOG") : "nolog");
    vp::watchdog();
    auto& m = vp::S().mode;
    if (m == "walk") { vp::forCases(20, walk); }
    else if (m == "stop") { vp::forCases(4, stop); }
    else if (m == "connecting") { vp::forCases(6, connecting); }
    else { return 3; }
    return vp::finish();
}
