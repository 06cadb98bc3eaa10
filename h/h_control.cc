// C15: device control through PluginServices (linearizable take/steal/release/change, waiters) and the
// built-in controller in complete device processes driven by signals, an operator and failing hooks.
#include "tx.h"

#include <fairmq/Device.h>
#include <fairmq/DeviceRunner.h>
#include <fairmq/Plugin.h>
#include <fairmq/PluginServices.h>

#include <condition_variable>
#include <sys/wait.h>
#include <termios.h>

using namespace fair::mq;
using namespace std;
using vp::fmt;
using Tr = fair::mq::Transition;
using St = fair::mq::State;

namespace
{
const vector<Tr> kAll = {Tr::InitDevice, Tr::CompleteInit, Tr::Bind, Tr::Connect, Tr::InitTask, Tr::Run, Tr::Stop, Tr::ResetTask, Tr::ResetDevice};

// ------------------------------------------------------------------ svc: linearizability of control
struct Op
{
    enum Kind { Take, Steal, Release, Change, Get, Wait } k;
    int who = 0;         // controller
    int res = 0;         // Take/Change: 0 refused with the control error, 1 ok; Release: 0 error, 1 ok; Get: who or -1
    uint64_t a = 0, b = 0;
};
const char* kn[] = {"take", "steal", "release", "change", "get", "wait"};
string show(const vector<Op>& h)
{
    vector<Op> s = h;
    sort(s.begin(), s.end(), [](const Op& x, const Op& y) { return x.a < y.a; });
    string o;
    for (auto& p : s) { o += fmt("[%llu,%llu]%s(%c)=%d ", (unsigned long long)p.a, (unsigned long long)p.b, kn[p.k], 'A' + p.who, p.res); }
    return o;
}
// state: holder (-1 none). Returns false when the op is not possible there.
bool apply(const Op& o, int& holder)
{
    switch (o.k) {
        case Op::Take:
        case Op::Change:
            if (holder == -1 || holder == o.who) { if (!o.res) { return false; } holder = o.who; return true; }
            return o.res == 0;
        case Op::Steal: holder = o.who; return true;
        case Op::Release:
            if (holder == o.who) { if (!o.res) { return false; } holder = -1; }
            return true;   // by someone else: no effect, reported or not
        case Op::Get: return holder == o.res;
        case Op::Wait: return holder == -1;
    }
    return false;
}
bool linearizable(const vector<Op>& h, int init)
{
    size_t n = h.size();
    set<pair<uint64_t, int>> seen;
    function<bool(uint64_t, int)> go = [&](uint64_t done, int holder) {
        if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) { return true; }
        if (!seen.insert({done, holder}).second) { return false; }
        uint64_t minEnd = ~0ull;
        for (size_t i = 0; i < n; ++i) { if (!(done >> i & 1)) { minEnd = min(minEnd, h[i].b); } }
        for (size_t i = 0; i < n; ++i) {
            if ((done >> i & 1) || h[i].a > minEnd) { continue; }
            int x = holder;
            if (apply(h[i], x) && go(done | 1ull << i, x)) { return true; }
        }
        return false;
    };
    return go(0, init);
}

struct QuietDevice : Device
{
    QuietDevice() { SetTransport("zeromq"); }
    void Run() override { while (!NewStatePending()) { vp::sleepUs(100); } }
};
struct Wrap : Plugin
{
    using Plugin::Plugin;
};

int unwoken = 0;
void svcCase(uint64_t, vp::Rng& r)
{
    if (unwoken > 10) { return; }
    vp::phase("svc");
    ProgOptions cfg;
    cfg.SetProperty<string>("id", "ctl");
    cfg.SetProperty<string>("transport", "zeromq");
    cfg.SetProperty<string>("session", "none");
    cfg.SetProperty<int>("init-timeout", 10);
    QuietDevice dev;
    dev.SetConfig(cfg);
    atomic<uint64_t> granted{0};
    dev.SubscribeToNewTransition("vp", [&](Tr t) { if (t != Tr::Auto) { ++granted; } });
    thread runner([&] { dev.RunStateMachine(); });
    PluginServices svc(cfg, dev);
    int nCtl = 2 + r.below(3);
    vector<unique_ptr<Wrap>> wraps;
    for (int i = 0; i < nCtl; ++i) { wraps.push_back(make_unique<Wrap>(string(1, 'A' + i), tools::Version{1, 0, 0}, "m", "h", &svc)); }
    auto nameOf = [](int i) { return string(1, 'A' + i); };

    int rounds = 3 + r.below(3);
    uint64_t allTrue = 0;
    int holder = -1;
    for (int round = 0; round < rounds; ++round) {
        int nThr = 2 + r.below(3), nWait = r.below(4);
        int perThr = nThr == 2 ? 8 : nThr == 3 ? 6 : 5;
        vector<vector<Op>> plan(nThr);
        vector<vector<Tr>> trs(nThr);
        bool sticky = r.chance(1, 2);   // every thread its own name, or any
        for (int t = 0; t < nThr; ++t) {
            for (int k = 0; k < perThr; ++k) {
                Op o;
                int x = r.below(20);
                o.k = x < 5 ? Op::Take : x < 7 ? Op::Steal : x < 12 ? Op::Release : x < 16 ? Op::Change : Op::Get;
                o.who = sticky ? t % nCtl : static_cast<int>(r.below(nCtl));
                plan[t].push_back(o);
                trs[t].push_back(r.pick(kAll));
            }
        }
        bool wrapped = r.chance(1, 2);
        atomic<uint64_t> clk{0};
        atomic<uint64_t> trues{0};
        uint64_t g0 = granted.load();
        vector<Op> waits(nWait);
        atomic<int> waiting{0};
        vp::perturb(r.below(3) ? 2 + r.below(3) : 0, r.next());
        vp::resetScheduleHash();
        vector<thread> ws;
        for (int w = 0; w < nWait; ++w) {
            uint64_t us = r.below(400);
            ws.emplace_back([&, w, us] {
                vp::sleepUs(us);
                waits[w].k = Op::Wait;
                waits[w].a = ++clk;
                svc.WaitForReleaseDeviceControl();
                waits[w].b = ++clk;
                ++waiting;
            });
        }
        vector<vector<uint64_t>> pauses(nThr, vector<uint64_t>(perThr));
        for (auto& v : pauses) { for (auto& u : v) { u = r.below(3) ? 0 : r.below(150); } }
        vp::runThreads(nThr, [&](unsigned t) {
            for (int k = 0; k < perThr; ++k) {
                Op& o = plan[t][k];
                vp::sleepUs(pauses[t][k]);
                o.a = ++clk;
                try {
                    string n = nameOf(o.who);
                    o.res = 1;
                    switch (o.k) {
                        case Op::Take: if (wrapped) { wraps[o.who]->TakeDeviceControl(); } else { svc.TakeDeviceControl(n); } break;
                        case Op::Steal: if (wrapped) { wraps[o.who]->StealDeviceControl(); } else { svc.StealDeviceControl(n); } break;
                        case Op::Release: svc.ReleaseDeviceControl(n); break;
                        case Op::Change: if (wrapped ? wraps[o.who]->ChangeDeviceState(trs[t][k]) : svc.ChangeDeviceState(n, trs[t][k])) { ++trues; } break;
                        case Op::Get: { auto c = svc.GetDeviceController(); o.res = c ? (*c)[0] - 'A' : -1; break; }
                        default: break;
                    }
                } catch (PluginServices::DeviceControlError&) { o.res = 0; }
                catch (exception& e) { vp::violation("svc:exception", fmt("%s threw %s", kn[o.k], e.what())); }
                o.b = ++clk;
                VP_CHECK(o.k != Op::Steal || o.res == 1, "svc:steal-refused", "stealing control was refused");
            }
        });
        // whoever holds control now releases it once: everybody waiting has to wake up
        auto c = svc.GetDeviceController();
        vector<Op> h;
        for (auto& p : plan) { h.insert(h.end(), p.begin(), p.end()); }
        bool anew = r.chance(1, 2);
        if (!c && nWait && anew) { Op o; o.k = Op::Take; o.who = 0; o.a = ++clk; svc.TakeDeviceControl("A"); o.res = 1; o.b = ++clk; h.push_back(o); c = string("A"); }
        if (c) {
            if (r.chance(2, 3)) { vp::sleepUs(r.below(2000)); }   // usually everyone is waiting by now
            Op o;
            o.k = Op::Release;
            o.who = (*c)[0] - 'A';
            o.a = ++clk;
            svc.ReleaseDeviceControl(*c);
            o.res = 1;
            o.b = ++clk;
            h.push_back(o);
        }
        double t0 = vp::now();
        while (waiting.load() < nWait && vp::now() - t0 < (unwoken ? 0.5 : 8)) { vp::sleepUs(200); vp::tick(); }
        if (waiting.load() < nWait) {
            ++unwoken;
            vp::violation("svc:waiter-not-woken", fmt("%d of %d waiting for the release of control were not woken by it", nWait - waiting.load(), nWait));
            while (waiting.load() < nWait) { svc.StealDeviceControl("A"); svc.ReleaseDeviceControl("A"); vp::sleepUs(200); vp::tick(); }
        } else { h.insert(h.end(), waits.begin(), waits.end()); }
        for (auto& w : ws) { w.join(); }
        vp::perturb(0, 0);
        vp::interleaving(vp::scheduleHash());
        if (h.size() <= 60) { VP_CHECK((linearizable(h, holder)), "svc:control-history", "no order of these operations explains their results (start: none): %s", show(h).c_str()); }
        holder = -1;
        { auto g = svc.GetDeviceController(); VP_CHECK(!g, "svc:released", "control is held by %s after the holder released it", g ? g->c_str() : ""); }
        uint64_t g1 = granted.load();
        allTrue += trues.load();
        VP_CHECK(g1 - g0 == trues.load(), "svc:requests", "%llu transitions were granted but %llu requests reported it: a refused request changed something", (unsigned long long)(g1 - g0), (unsigned long long)trues.load());
        uint64_t hh = 0;
        for (auto& o : h) { hh = vp::mix(hh, o.k * 100 + o.who * 10 + o.res + 1); }
        vp::evaluated(hh);
        vp::count("control operations", h.size());
        vp::count("control waits", nWait);
    }
    // sequential: a refused request changes nothing at all
    svc.StealDeviceControl("A");
    for (int k = 0; k < 4; ++k) {
        uint64_t g0 = granted.load();
        St before = svc.GetCurrentDeviceState();
        bool refused = false;
        try { svc.ChangeDeviceState("B", r.pick(kAll)); } catch (PluginServices::DeviceControlError&) { refused = true; }
        VP_CHECK(refused && granted.load() == g0, "svc:foreign-request", "a request by B while A holds control was %s in %s", refused ? "refused but carried out" : "accepted", GetStateName(before).c_str());
        refused = false;
        try { svc.TakeDeviceControl("B"); } catch (PluginServices::DeviceControlError&) { refused = true; }
        auto c = svc.GetDeviceController();
        VP_CHECK(refused && c && *c == "A", "svc:foreign-take", "taking control from its holder was %s, controller is %s", refused ? "refused" : "accepted", c ? c->c_str() : "nobody");
        try { svc.ReleaseDeviceControl("B"); } catch (PluginServices::DeviceControlError&) {}
        c = svc.GetDeviceController();
        VP_CHECK(c && *c == "A", "svc:foreign-release", "control held by A was released by B");
        svc.TakeDeviceControl("A");
    }
    // bring it down as the holder
    double t0 = vp::now();
    while (svc.GetCurrentDeviceState() != St::Exiting && vp::now() - t0 < 20) {
        for (Tr t : {Tr::End, Tr::CompleteInit, Tr::Stop, Tr::ResetTask, Tr::ResetDevice}) { svc.ChangeDeviceState("A", t); }
        vp::sleepUs(300);
        vp::tick();
    }
    VP_CHECK(svc.GetCurrentDeviceState() == St::Exiting, "svc:end", "device does not come to EXITING");
    runner.join();
    dev.UnsubscribeFromNewTransition("vp");
}

// ------------------------------------------------------------------ run: complete device processes
enum class RunK { Return, CondCount, Loop, Wait, N };
const vector<string> kHooks = {"Init", "Bind", "Connect", "InitTask", "PreRun", "Run", "PostRun", "ResetTask", "Reset"};

struct Plan
{
    string control = "static";
    RunK kind = RunK::Loop;
    int condN = 0;
    map<string, int> sleepMs;          // hook -> time spent in it
    string throwHook;
    string raiseAt;                    // hook or state in which the process signals itself
    int raiseSig = 0;
    bool raiseFromState = false;
    int killAfterMs = -1, killSig = 0; // sent by the parent
    int term2AfterMs = -1;             // a second SIGTERM
    string drv;                        // "", first, late: another plugin drives / steals
    int drvStealAfterMs = -1;
    int drvPark = 0;                   // it drives only that many steps and stays there, holding control
    bool catchSignals = true;
    bool stuckConnect = false;
    int perturb = 0, bombs = 0;
    // operator
    bool tty = false;
    bool eofAtStart = false;
    vector<pair<string, string>> cmds; // characters written at once, state awaited afterwards ("" none)
    bool eofAfter = false;
    bool quit = false;                 // cmds end with 'q'
    int runs = 1;                      // expected number of RUNNING entries (interactive without failure), -1 unknown
    string str() const
    {
        string s = fmt("control=%s run=%d/%d throw=%s raise=%d@%s kill=%d@%dms", control.c_str(), static_cast<int>(kind), condN, throwHook.c_str(), raiseSig, raiseAt.c_str(), killSig, killAfterMs);
        if (!drv.empty()) { s += " drv=" + drv; }
        if (drvPark) { s += fmt(" parked-after=%d", drvPark); }
        if (stuckConnect) { s += " stuck-connect"; }
        for (auto& c : cmds) { string v; for (char x : c.first) { v += x == '\n' ? string("\\n") : string(1, x); } s += " '" + v + "'"; }
        if (eofAfter || eofAtStart) { s += " eof"; }
        if (tty) { s += " tty"; }
        return s;
    }
    bool ends() const { return raiseSig || killSig || quit || (control == "static" && (kind == RunK::Return || kind == RunK::CondCount)); }
};

Plan makePlan(uint64_t seed, uint64_t i)
{
    vp::Rng r(seed, i + 77);
    Plan p;
    int x = r.below(100);
    p.control = x < 40 ? "static" : x < 50 ? "gui" : x < 80 ? (r.chance(1, 2) ? "interactive" : "dynamic") : x < 86 ? "none" : x < 90 ? "bogus" : "static";
    bool fast = vp::optU("fast", 0);
    if (fast) { p.control = r.pick(vector<string>{"static", "gui", "bogus"}); }
    bool inter = p.control == "interactive" || p.control == "dynamic";
    p.kind = static_cast<RunK>(r.below(static_cast<uint64_t>(RunK::N)));
    p.condN = 1 + r.below(4);
    for (auto& h : kHooks) {
        if (r.chance(1, 3)) { p.sleepMs[h] = r.below(12); }
        if (r.chance(1, 12)) { p.sleepMs[h] = 60 + r.below(100); }
    }
    p.perturb = r.below(4) ? 1 + r.below(3) : 0;
    p.bombs = r.chance(1, 2) ? 1 + r.below(4) : 0;
    vector<string> states = {"INITIALIZING DEVICE", "INITIALIZED", "BINDING", "BOUND", "CONNECTING", "DEVICE READY", "INITIALIZING TASK", "READY", "RUNNING"};
    if (p.control == "static" && (p.kind == RunK::Return || p.kind == RunK::CondCount)) { for (auto s : {"RESETTING TASK", "RESETTING DEVICE"}) { states.push_back(s); } }
    if (r.chance(1, 12) && p.control != "none") { p.stuckConnect = true; }
    if (r.chance(1, 6) && p.control != "none") { p.throwHook = r.pick(kHooks); }
    int sig = r.chance(1, 2) ? SIGINT : SIGTERM;
    if (inter) {
        switch (r.below(7)) {
            case 0: p.cmds = {{"q", ""}}; p.quit = true; break;
            case 1: {   // a walk; every command is followed by its state
                string at = "RUNNING";
                p.kind = RunK::Loop;
                int n = 2 + r.below(8);
                for (int k = 0; k < n; ++k) {
                    if (r.chance(1, 4)) { p.cmds.push_back({string(1, r.pick(string("hcpz?"))), ""}); continue; }
                    if (at == "RUNNING") { p.cmds.push_back({"s", at = "READY"}); }
                    else if (at == "READY") { if (r.chance(1, 2)) { p.cmds.push_back({"r", at = "RUNNING"}); ++p.runs; } else { p.cmds.push_back({"t", at = "DEVICE READY"}); } }
                    else if (at == "DEVICE READY") { if (r.chance(1, 2)) { p.cmds.push_back({"j", at = "READY"}); } else { p.cmds.push_back({"d", at = "IDLE"}); } }
                    else if (at == "IDLE") { p.cmds.push_back({"i", at = "INITIALIZED"}); }
                    else if (at == "INITIALIZED") { if (r.chance(3, 4)) { p.cmds.push_back({"b", at = "BOUND"}); } else { p.cmds.push_back({"d", at = "IDLE"}); } }
                    else if (at == "BOUND") { if (r.chance(3, 4)) { p.cmds.push_back({"x", at = "DEVICE READY"}); } else { p.cmds.push_back({"d", at = "IDLE"}); } }
                }
                p.cmds.push_back({"q", ""});
                p.quit = true;
                break;
            }
            case 2: p.kind = RunK::Loop; p.cmds = {{r.chance(1, 2) ? "sq" : "chq", ""}}; p.quit = true; break;   // typed ahead
            case 3: p.cmds = {{r.chance(1, 2) ? "\n" : "c\n", ""}}; p.killSig = sig; p.killAfterMs = 150 + r.below(150); break;
            case 4: p.kind = RunK::Return; p.cmds = {{"", "READY"}, {"r", ""}}; p.runs = 2; p.eofAfter = true; p.killSig = sig; p.killAfterMs = 200 + r.below(100); break;
            case 5: p.eofAtStart = true; p.killSig = sig; p.killAfterMs = 100 + r.below(100); break;
            default: p.killSig = sig; p.killAfterMs = r.below(250); break;
        }
        p.tty = r.chance(1, 2) && !p.eofAfter && !p.eofAtStart;
        if (r.chance(1, 6)) {   // a signal at any point as well
            p.raiseSig = SIGTERM; p.raiseFromState = r.chance(1, 2); p.raiseAt = p.raiseFromState ? r.pick(states) : r.pick(kHooks); p.runs = -1;
            if (p.killSig) { p.killSig = SIGTERM; }
        }
    } else if (p.control == "none" || p.control == "gui" || r.chance(2, 3)) {
        if (r.chance(1, 3)) { p.killSig = sig; p.killAfterMs = r.below(300); }
        else {
            p.raiseSig = sig;
            p.raiseFromState = r.chance(1, 2);
            p.raiseAt = p.control == "none" ? "" : p.raiseFromState ? r.pick(states) : r.pick(vector<string>(kHooks.begin(), kHooks.begin() + 6));
            if (p.control == "none") { p.killSig = sig; p.killAfterMs = r.below(100); p.raiseSig = 0; }
            else if (r.chance(1, 2)) {
                // the shutdown begins up to 100 ms later: let states change at that moment
                string h = p.raiseFromState ? r.pick(kHooks) : p.raiseAt;
                p.sleepMs[h] = 90 + r.below(20);
            }
        }
        if (r.chance(1, 5) && (p.killSig == SIGTERM || p.raiseSig == SIGTERM)) { p.term2AfterMs = r.below(200); }
    }
    if (!inter && !p.ends()) {
        if (p.kind == RunK::Loop || p.kind == RunK::Wait || p.control != "static") { p.killSig = sig; p.killAfterMs = r.below(300); }
    }
    if (p.control == "bogus" && (p.kind == RunK::Return || p.kind == RunK::CondCount)) { p.raiseSig = p.killSig = 0; p.raiseAt.clear(); p.term2AfterMs = -1; }
    if (p.control == "static" && !p.killSig && !p.raiseSig && r.chance(1, 3)) { p.catchSignals = false; }
    if (!inter && p.control != "none" && (fast || r.chance(1, 4))) {
        p.drv = r.chance(1, 2) ? "first" : "late";
        // somebody else holds control: only a signal ends the device
        if (!p.killSig && !p.raiseSig) { p.killSig = sig; p.killAfterMs = 100 + r.below(200); p.catchSignals = true; }
        if (p.drv == "late") { p.drvStealAfterMs = r.below(40); if (!p.killSig && p.raiseSig) { p.killSig = p.raiseSig; p.raiseSig = 0; p.raiseAt.clear(); p.killAfterMs = 150; } }
        if (p.raiseSig) { p.killSig = p.raiseSig; p.raiseSig = 0; p.raiseAt.clear(); p.killAfterMs = r.below(200); }
        p.term2AfterMs = -1;
        // states change all the time while the shutdown begins
        if (fast || r.chance(1, 2)) { p.sleepMs.clear(); p.kind = RunK::Return; p.perturb = r.below(2); p.bombs = 8; p.throwHook.clear(); p.stuckConnect = false; if (p.drv == "first" && p.killAfterMs < 100) { p.killAfterMs += 100; } }
    }
    if (!p.drv.empty() && r.chance(2, 5)) { p.drvPark = 1 + r.below(6); if (r.chance(1, 3)) { p.drvPark = 1; } }
    if (p.control == "none" && p.drv.empty()) { p.throwHook.clear(); }
    // what is never reached may not be waited for
    if (p.raiseSig && !p.killSig) { p.killSig = 0; }
    return p;
}

// ---- child side
int gLog = -1;
void rec(const string& s)
{
    string l = s + "\n";
    if (::write(gLog, l.data(), l.size()) < 0) {}
}
Plan gPlan;

struct Boom : runtime_error { using runtime_error::runtime_error; };

struct CDev : Device
{
    int cond = 0;
    atomic<bool> raised{false};
    CDev()
    {
        SubscribeToStateChange("vp", [this](St s) {
            rec("S " + GetStateName(s));
            if (s == St::Running) { vp::lateThreads(); }
            if (gPlan.raiseSig && gPlan.raiseFromState && gPlan.raiseAt == GetStateName(s)) { raise(); }
        });
    }
    ~CDev() override { UnsubscribeFromStateChange("vp"); }
    void raise()
    {
        if (raised.exchange(true)) { return; }
        rec(fmt("SIG %d", gPlan.raiseSig));
        kill(getpid(), gPlan.raiseSig);
    }
    void hook(const string& n)
    {
        if (gPlan.raiseSig && !gPlan.raiseFromState && gPlan.raiseAt == n) { raise(); }
        auto it = gPlan.sleepMs.find(n);
        if (it != gPlan.sleepMs.end()) { vp::sleepMs(it->second); }
        if (gPlan.throwHook == n) { rec("THROW " + n); throw Boom("planned failure in " + n); }
    }
    void Init() override { hook("Init"); }
    void Bind() override { hook("Bind"); }
    void Connect() override { hook("Connect"); }
    void InitTask() override { cond = 0; hook("InitTask"); }
    void PreRun() override { hook("PreRun"); }
    bool ConditionalRun() override
    {
        if (gPlan.kind != RunK::CondCount) { return false; }
        vp::sleepMs(1);
        return ++cond < gPlan.condN;
    }
    void Run() override
    {
        hook("Run");
        switch (gPlan.kind) {
            case RunK::Loop: while (!NewStatePending()) { vp::sleepUs(300); } break;
            case RunK::Wait: WaitFor(chrono::hours(1)); break;
            case RunK::CondCount: while (!NewStatePending() && ConditionalRun()) {} break;
            default: break;
        }
    }
    void PostRun() override { hook("PostRun"); }
    void ResetTask() override { hook("ResetTask"); }
    void Reset() override { hook("Reset"); }
};

// a plugin that is instantiated last: from here on signals are handled
struct Up : Plugin
{
    Up(const string& n, const Plugin::Version v, const string& m, const string& h, PluginServices* s) : Plugin(n, v, m, h, s) { rec("UP"); }
};
// a plugin that drives the device (or steals control from the built-in controller)
struct Drv : Plugin
{
    thread t;
    atomic<bool> stop{false};
    Drv(const string& n, const Plugin::Version v, const string& m, const string& h, PluginServices* s) : Plugin(n, v, m, h, s)
    {
        if (gPlan.drv == "first") { TakeDeviceControl(); }
        t = thread([this] {
            if (gPlan.drv == "late") {
                for (int i = 0; i < gPlan.drvStealAfterMs && !stop; ++i) { vp::sleepMs(1); }
                try { StealDeviceControl(); rec("STOLEN"); } catch (PluginServices::DeviceControlError&) { rec("STEALFAIL"); }
            }
            try {
                // upwards, whatever the state
                int steps = 0;
                while (!stop) {
                    if (gPlan.drvPark) {
                        const vector<Tr> up = {Tr::InitDevice, Tr::CompleteInit, Tr::Bind, Tr::Connect, Tr::InitTask, Tr::Run};
                        const vector<St> at = {St::InitializingDevice, St::Initialized, St::Bound, St::DeviceReady, St::Ready, St::Running};
                        if (steps < gPlan.drvPark && ChangeDeviceState(up[steps])) { ++steps; }
                        if (steps > 0 && steps < gPlan.drvPark && GetCurrentDeviceState() != at[steps - 1]) { vp::sleepUs(200); }
                        if (steps == gPlan.drvPark) { rec("PARKED"); ++steps; }
                        if (steps >= gPlan.drvPark || steps == 0) { vp::sleepMs(1); }
                        if (GetCurrentDeviceState() == St::Exiting || GetCurrentDeviceState() == St::Error) { ReleaseDeviceControl(); break; }
                        continue;
                    }
                    for (Tr x : {Tr::InitDevice, Tr::CompleteInit, Tr::Bind, Tr::Connect, Tr::InitTask, Tr::Run}) { ChangeDeviceState(x); }
                    vp::sleepMs(1);
                    if (GetCurrentDeviceState() == St::Exiting || GetCurrentDeviceState() == St::Error) { ReleaseDeviceControl(); break; }
                }
            } catch (PluginServices::DeviceControlError&) { rec("DRVOUT"); }
        });
    }
    ~Drv() override { stop = true; t.join(); }
};
REGISTER_FAIRMQ_PLUGIN(Up, vpup, (Plugin::Version{1, 0, 0}), "m", "h", fair::mq::Plugin::NoProgramOptions)
REGISTER_FAIRMQ_PLUGIN(Drv, vpdrv, (Plugin::Version{1, 0, 0}), "m", "h", fair::mq::Plugin::NoProgramOptions)

int child()
{
    gLog = open(vp::optS("log", "/dev/null").c_str(), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
    gPlan = makePlan(vp::optU("pseed", 1), vp::optU("pcase", 0));
    vp::perturb(gPlan.perturb, vp::optU("pseed", 1) * 131 + vp::optU("pcase", 0));
    if (gPlan.bombs) { vp::bombs(gPlan.bombs, vp::optU("pseed", 1) * 977 + vp::optU("pcase", 0), gPlan.bombs == 8 ? 5 : 6, gPlan.bombs == 8 ? 16 : 64, gPlan.bombs == 8 ? 15000 : 60000, gPlan.bombs == 8 ? 3 : gPlan.bombs / 3); }
    vector<string> a = {"vpdevice", "--id", "dev", "--transport", "zeromq", "--control", gPlan.control, "--color", "false", "--severity", "nolog", "--session", "vpctl",
                        "--catch-signals", gPlan.catchSignals ? "1" : "0", "--init-timeout", gPlan.stuckConnect ? "1" : "30"};
    if (gPlan.stuckConnect) { for (auto x : {"--channel-config", "name=data,type=pull,method=connect,transport=zeromq"}) { a.push_back(x); } }
    vector<char*> v;
    for (auto& x : a) { v.push_back(const_cast<char*>(x.c_str())); }
    int rc = 0;
    {
        DeviceRunner runner(static_cast<int>(v.size()), v.data());
        runner.AddHook<hooks::LoadPlugins>([](DeviceRunner& d) { if (!gPlan.drv.empty()) { d.fPluginManager.LoadPlugin("s:vpdrv"); } });
        runner.AddHook<hooks::SetCustomCmdLineOptions>([](DeviceRunner& d) { d.fPluginManager.LoadPlugin("s:vpup"); });
        runner.AddHook<hooks::InstantiateDevice>([](DeviceRunner& d) { d.fDevice = make_unique<CDev>(); });
        rc = runner.RunWithExceptionHandlers();
        rec(fmt("RET %d", rc));
        if (runner.fDevice) { rec("LAST " + GetStateName(runner.fDevice->GetCurrentState())); }
    }
    rec("GONE");
    return rc;
}

// ---- parent side
const map<string, set<string>> kNext = {
    {"IDLE", {"INITIALIZING DEVICE", "EXITING"}}, {"INITIALIZING DEVICE", {"INITIALIZED"}}, {"INITIALIZED", {"BINDING", "RESETTING DEVICE"}}, {"BINDING", {"BOUND"}},
    {"BOUND", {"CONNECTING", "RESETTING DEVICE"}}, {"CONNECTING", {"DEVICE READY"}}, {"DEVICE READY", {"INITIALIZING TASK", "RESETTING DEVICE"}}, {"INITIALIZING TASK", {"READY"}},
    {"READY", {"RUNNING", "RESETTING TASK"}}, {"RUNNING", {"READY"}}, {"RESETTING TASK", {"DEVICE READY"}}, {"RESETTING DEVICE", {"IDLE"}}, {"ERROR", {"EXITING"}}, {"EXITING", {}}};

vector<string> lines(const string& f)
{
    vector<string> r;
    FILE* p = fopen(f.c_str(), "r");
    char b[600];
    while (p && fgets(b, sizeof b, p)) { b[strcspn(b, "\n")] = 0; r.push_back(b); }
    if (p) { fclose(p); }
    return r;
}
bool has(const vector<string>& l, const string& s) { return find(l.begin(), l.end(), s) != l.end(); }
string join(const vector<string>& l)
{
    string s;
    size_t n = l.size();
    for (size_t i = 0; i < n; ++i) {
        if (n > 50 && i == 25) { s += fmt(" > (%zu more)", n - 50); i = n - 25; }
        s += (s.empty() ? "" : " > ") + l[i];
    }
    return s;
}

atomic<int> hangs{0};
void runCase(uint64_t c, const char* self, uint64_t seed)
{
    Plan p = makePlan(seed, c);
    string d = tx::scratch(), log = d + fmt("/log%llu", (unsigned long long)c), out = d + fmt("/out%llu", (unsigned long long)c);
    unlink(log.c_str());
    bool inter = p.control == "interactive" || p.control == "dynamic";
    int in[2] = {-1, -1};
    if (inter && !p.eofAtStart) {
        if (p.tty) {
            in[1] = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
            if (in[1] >= 0 && grantpt(in[1]) == 0 && unlockpt(in[1]) == 0) { in[0] = open(ptsname(in[1]), O_RDWR | O_NOCTTY | O_CLOEXEC); }
            if (in[0] < 0) { if (in[1] >= 0) { close(in[1]); } p.tty = false; vp::count("no pty"); }
        }
        if (!p.tty && pipe2(in, O_CLOEXEC) != 0) { return; }
    }
    vector<string> args = {self, "--mode=child", "--out=" + vp::S().out + ".child", "--log=" + log, fmt("--pseed=%llu", (unsigned long long)seed), fmt("--pcase=%llu", (unsigned long long)c), fmt("--fast=%d", static_cast<int>(vp::optU("fast", 0)))};
    vector<char*> v;
    for (auto& x : args) { v.push_back(const_cast<char*>(x.c_str())); }
    v.push_back(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        signal(SIGPIPE, SIG_DFL);
        int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(o, 1);
        dup2(o, 2);
        int i = in[0] >= 0 ? in[0] : open("/dev/null", O_RDONLY);
        dup2(i, 0);
        execv(self, v.data());
        _exit(99);
    }
    if (in[0] >= 0) { close(in[0]); }
    string desc = fmt("case %llu: ", (unsigned long long)c) + p.str();
    int st = 0;
    bool ended = false, signalled = false;
    auto poll = [&] { if (!ended && waitpid(pid, &st, WNOHANG) == pid) { ended = true; } return ended; };
    auto upto = [&](function<bool()> f, double lim) { double t = vp::now(); while (!poll() && !f()) { if (vp::now() - t > lim) { return false; } vp::sleepMs(2); vp::tick(); } return true; };
    auto stateCount = [&](const string& s) { auto l = lines(log); return count(l.begin(), l.end(), "S " + s); };
    double t0 = vp::now();
    bool up = upto([&] { return has(lines(log), "UP"); }, 40);
    size_t outBefore = 0;
    // a failing or stuck device never gets there
    bool fails = !p.throwHook.empty() || p.stuckConnect || (p.raiseSig != 0);
    if (up && !ended) {
        if (inter && !fails) {
            bool ran = upto([&] { return stateCount("RUNNING") > 0; }, 30);
            VP_CHECK(ran, "run:startup", "the interactive controller did not bring the device into RUNNING: %s; %s", join(lines(log)).c_str(), desc.c_str());
        }
        map<string, size_t> seen;
        auto last = [&] { auto l = lines(log); string s; for (auto& x : l) { if (x.rfind("S ", 0) == 0) { s = x.substr(2); } } return s; };
        if (inter && !p.eofAtStart) {
            for (auto& k : p.cmds) {
                // the controller works through its commands one by one
                if (fails) { vp::sleepMs(30); }
                if (!k.first.empty() && ::write(in[1], k.first.data(), k.first.size()) < 0) {}
                if (!k.second.empty() && !fails) {
                    bool ok = upto([&] { return last() == k.second; }, 20);
                    VP_CHECK(ok && !ended, "run:command", "operator command '%s' did not bring the device to %s: %s; %s", k.first.c_str(), k.second.c_str(), join(lines(log)).c_str(), desc.c_str());
                    if (!ok || ended) { break; }
                } else if (!p.quit) { vp::sleepMs(20); }
            }
            if (p.eofAfter) { if (!fails) { upto([&] { return stateCount("RUNNING") >= p.runs && last() == "READY"; }, 10); } close(in[1]); in[1] = -1; }
        }
        if (p.killSig) {
            double t1 = vp::now();
            struct stat sb{};
            if (p.eofAtStart || p.eofAfter) { vp::sleepMs(20); stat(out.c_str(), &sb); outBefore = sb.st_size; }
            while (!poll() && vp::now() - t1 < p.killAfterMs / 1000.0) { vp::sleepMs(1); }
            if (p.eofAtStart || p.eofAfter) {
                stat(out.c_str(), &sb);
                VP_CHECK(sb.st_size - outBefore < 8000, "run:eof-spam", "the controller keeps executing commands after the end of its input: %zu bytes of output within %d ms; %s", (size_t)(sb.st_size - outBefore), p.killAfterMs, desc.c_str());
            }
            if (!ended) { kill(pid, p.killSig); signalled = true; }
        }
        if (p.term2AfterMs >= 0) {
            double t1 = vp::now();
            while (!poll() && vp::now() - t1 < p.term2AfterMs / 1000.0) { vp::sleepMs(1); }
            // only once the first one is known to be handled
            if (!ended && (signalled || has(lines(log), fmt("SIG %d", SIGTERM)))) { kill(pid, SIGTERM); }
        }
    }
    // some plans raise in a state that a failure kept from being reached; the failure ends those. A plan
    // whose self-signal point is not part of its path gets a signal now.
    bool limitReached = !upto([&] { return false; }, p.raiseSig && !signalled ? 3.0 : 30.0);
    if (limitReached && p.raiseSig && !signalled) {
        if (!has(lines(log), fmt("SIG %d", p.raiseSig))) { vp::count("self-signal not reached"); kill(pid, SIGTERM); signalled = true; }
        limitReached = !upto([&] { return false; }, 30);
    }
    auto l = lines(log);
    if (limitReached) {
        if (getenv("VP_GDB")) { if (system(fmt("gdb -p %d -batch -ex 'thread apply all bt 14' 2>/dev/null 1>&2", pid).c_str())) {} }
        ++hangs;
        vp::violation("run:hang", fmt("the device process does not end: %s; %s", join(l).c_str(), desc.c_str()));
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        if (in[1] >= 0) { close(in[1]); }
        return;
    }
    if (in[1] >= 0) { close(in[1]); }
    vector<string> path;
    bool threw = false, legal = true;
    for (auto& x : l) {
        if (x.rfind("S ", 0) == 0) {
            string s = x.substr(2);
            if (!path.empty() && s != "ERROR") { auto it = kNext.find(path.back()); legal = legal && it != kNext.end() && it->second.count(s); }
            path.push_back(s);
        }
        if (x.rfind("THROW", 0) == 0) { threw = true; }
    }
    bool err = threw || (p.stuckConnect && has(path, "CONNECTING"));
    string all = join(l);
    VP_CHECK(legal, "run:path", "illegal state sequence: %s; %s", all.c_str(), desc.c_str());
    string tail;
    for (auto& o : lines(out)) {
        bool top = o.find("ERROR: Addr") != string::npos || o.find("terminate called") != string::npos || o.find("what()") != string::npos || o.find("WARNING: Thread") != string::npos || o.find("runtime error") != string::npos;
        bool frame = !tail.empty() && o.find("    #") != string::npos && (o.find("/fairmq/") != string::npos || o.find("h_control") != string::npos);
        if ((top || frame) && tail.size() < 1500) { tail += o + " | "; }
    }
    if (!tail.empty()) { vp::violation("run:sanitizer", tail + all + "; " + desc); return; }
    if (!WIFEXITED(st)) {
        vp::violation("run:died", fmt("the device process died from signal %d: %s; %s; %s", WTERMSIG(st), tail.c_str(), all.c_str(), desc.c_str()));
        return;
    }
    int rc = WEXITSTATUS(st);
    if (err) {
        VP_CHECK(rc == 1 && !path.empty() && has(path, "ERROR"), "run:failure", "a failing device ended with exit code %d, %s; %s", rc, all.c_str(), desc.c_str());
    } else {
        VP_CHECK(rc == 0 && !path.empty() && path.back() == "EXITING" && !has(path, "ERROR"), "run:shutdown", "exit code %d, states %s; %s", rc, all.c_str(), desc.c_str());
        size_t n = path.size();
        // the way down: through the reset states
        VP_CHECK(n >= 2 && path[n - 2] == "IDLE" && (n < 4 || path[n - 3] == "RESETTING DEVICE"), "run:way-down", "states %s; %s", all.c_str(), desc.c_str());
        VP_CHECK(has(l, "RET 0") && has(l, "LAST EXITING") && has(l, "GONE"), "run:return", "the runner did not return in order: %s; %s", all.c_str(), desc.c_str());
        if (!p.killSig && !p.raiseSig && p.drv.empty() && !inter) {
            vector<string> want = {"INITIALIZING DEVICE", "INITIALIZED", "BINDING", "BOUND", "CONNECTING", "DEVICE READY", "INITIALIZING TASK", "READY", "RUNNING", "READY", "RESETTING TASK", "DEVICE READY", "RESETTING DEVICE", "IDLE", "EXITING"};
            vector<string> got = path;
            if (!got.empty() && got[0] == "IDLE") { got.erase(got.begin()); }
            VP_CHECK(got == want, "run:static-path", "without any interference the device went through %s; %s", join(got).c_str(), desc.c_str());
        }
        if (inter && p.runs >= 0 && !p.throwHook.size() && !p.stuckConnect) {
            int n2 = count(path.begin(), path.end(), "RUNNING");
            VP_CHECK(n2 == p.runs, "run:runs", "the device was run %d times, requested were %d: %s; %s", n2, p.runs, all.c_str(), desc.c_str());
        }
    }
    VP_CHECK(!has(l, "STEALFAIL"), "run:steal", "stealing control was refused: %s", desc.c_str());
    double took = vp::now() - t0;
    uint64_t h = vp::hash(all + desc);
    vp::evaluated(h, path.size() > 1);
    vp::count(err ? "failed devices" : signalled || p.raiseSig ? "signalled devices" : "devices");
    vp::count("states passed", path.size());
    vp::sample(fmt("%s: %s (%.1f s)", desc.c_str(), all.c_str(), took));
    unlink(log.c_str());
    unlink(out.c_str());
}
}   // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    fair::Logger::SetConsoleSeverity(getenv("VP_LOG") ? getenv("VP_LOG") : "nolog");
    auto& s = vp::S();
    if (s.mode == "child") { return child(); }
    s.stallLimit = 100;
    signal(SIGPIPE, SIG_IGN);
    vp::watchdog();
    if (s.mode == "svc") {
        vp::forCases(40, svcCase);
    } else if (s.mode == "run") {
        // several devices at once: most of their time is waiting
        char self[600];
        ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
        self[k > 0 ? k : 0] = 0;
        uint64_t n = s.cases ? s.cases : 60;
        uint64_t seed = s.seed * 1000 + vp::optU("part", 0);
        atomic<uint64_t> next{0};
        vp::phase("run");
        vector<thread> ts;
        for (unsigned t = 0; t < vp::optU("jobs", 6); ++t) {
            ts.emplace_back([&] {
                while (true) {
                    uint64_t i = next++;
                    if (i >= n || vp::timeUp() || hangs > 2) { break; }
                    if (s.only >= 0 && static_cast<uint64_t>(s.only) != i) { continue; }
                    vp::noteCase(static_cast<int64_t>(i));
                    runCase(i, self, seed);
                }
            });
        }
        for (auto& t : ts) { t.join(); }
    }
    return vp::finish();
}
