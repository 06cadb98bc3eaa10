// C08 / C09: StateMachine against the documented state graph; notifications; StateQueue.
#include "vp.h"

#include <fairmq/StateMachine.h>
#include <fairmq/StateQueue.h>
#include <fairmq/States.h>

#include <algorithm>
#include <deque>
#include <memory>

using namespace fair::mq;
using St = State;
using Tr = Transition;

namespace
{

// the documented graph (docs/Device.md): the reference, not taken from the code
struct Edge { St from; Tr t; St to; };
const std::vector<Edge> kGraph{
    {St::Idle, Tr::InitDevice, St::InitializingDevice}, {St::Idle, Tr::End, St::Exiting},
    {St::InitializingDevice, Tr::CompleteInit, St::Initialized},
    {St::Initialized, Tr::Bind, St::Binding}, {St::Initialized, Tr::ResetDevice, St::ResettingDevice},
    {St::Binding, Tr::Auto, St::Bound},
    {St::Bound, Tr::Connect, St::Connecting}, {St::Bound, Tr::ResetDevice, St::ResettingDevice},
    {St::Connecting, Tr::Auto, St::DeviceReady},
    {St::DeviceReady, Tr::InitTask, St::InitializingTask}, {St::DeviceReady, Tr::ResetDevice, St::ResettingDevice},
    {St::InitializingTask, Tr::Auto, St::Ready},
    {St::Ready, Tr::Run, St::Running}, {St::Ready, Tr::ResetTask, St::ResettingTask},
    {St::Running, Tr::Stop, St::Ready},
    {St::ResettingTask, Tr::Auto, St::DeviceReady}, {St::ResettingDevice, Tr::Auto, St::Idle}};
const std::vector<Tr> kTrans{Tr::Auto, Tr::InitDevice, Tr::CompleteInit, Tr::Bind, Tr::Connect, Tr::InitTask, Tr::Run, Tr::Stop, Tr::ResetTask, Tr::ResetDevice, Tr::End, Tr::ErrorFound};
const std::vector<St> kStates{St::Undefined, St::Ok, St::Error, St::Idle, St::InitializingDevice, St::Initialized, St::Binding, St::Bound, St::Connecting, St::DeviceReady, St::InitializingTask, St::Ready, St::Running,
                              St::ResettingTask, St::ResettingDevice, St::Exiting};
const std::vector<St> kWalk{St::Idle, St::InitializingDevice, St::Initialized, St::Binding, St::Bound, St::Connecting, St::DeviceReady, St::InitializingTask, St::Ready, St::Running, St::ResettingTask, St::ResettingDevice, St::Exiting};

// legal target or Undefined
St target(St s, Tr t)
{
    if (t == Tr::ErrorFound) { return St::Error; }
    if (s == St::Error) { return St::Undefined; }
    for (auto& e : kGraph) { if (e.from == s && e.t == t) { return e.to; } }
    return St::Undefined;
}
std::vector<Tr> legal(St s)
{
    std::vector<Tr> r;
    for (auto& e : kGraph) { if (e.from == s) { r.push_back(e.t); } }
    return r;
}
std::vector<Tr> pathTo(St goal)
{
    std::map<St, std::vector<Tr>> seen{{St::Idle, {}}};
    std::deque<St> q{St::Idle};
    while (!q.empty()) {
        St s = q.front();
        q.pop_front();
        if (s == goal) { return seen[s]; }
        for (auto& e : kGraph) {
            if (e.from == s && !seen.count(e.to)) { auto p = seen[s]; p.push_back(e.t); seen[e.to] = p; q.push_back(e.to); }
        }
    }
    return {};
}
const char* sn(St s)
{
    static std::map<St, std::string> c;
    static std::mutex m;
    std::lock_guard<std::mutex> l(m);
    auto it = c.find(s);
    if (it == c.end()) { it = c.emplace(s, GetStateName(s)).first; }
    return it->second.c_str();
}
std::string tn(Tr t) { return GetTransitionName(t); }

std::atomic<uint64_t> gClk{1};

struct Ev { uint64_t at; int kind; int v; };   // kind 0 granted transition, 1 prep(state), 2 change(state), 3 handle begin, 4 handle end
struct Driven
{
    StateMachine sm;
    std::mutex m;
    std::vector<Ev> log;
    std::thread th;
    std::atomic<bool> ended{false};
    std::atomic<bool> threw{false};
    std::string what;
    std::function<void(St)> onHandle, onChange;
    void rec(int kind, int v) { std::lock_guard<std::mutex> l(m); log.push_back({gClk++, kind, v}); }
    Driven()
    {
        sm.SubscribeToNewTransition("mon", [this](const Tr t) { rec(0, static_cast<int>(t)); });
        sm.SubscribeToStateChange("0-mon", [this](const St s) { rec(2, static_cast<int>(s)); if (onChange) { onChange(s); } });
        sm.PrepareState([this](const St s) { rec(1, static_cast<int>(s)); });
        sm.HandleStates([this](const St s) { rec(3, static_cast<int>(s)); try { if (onHandle) { onHandle(s); } } catch (...) { rec(5, 0); rec(4, static_cast<int>(s)); throw; } rec(4, static_cast<int>(s)); });
    }
    void start()
    {
        sm.Start();
        th = std::thread([this] {
            try { sm.ProcessWork(); } catch (const std::exception& e) { threw = true; what = e.what(); }
            ended = true;
        });
    }
    std::vector<St> states() { std::lock_guard<std::mutex> l(m); std::vector<St> r; for (auto& e : log) { if (e.kind == 2) { r.push_back(static_cast<St>(e.v)); } } return r; }
    std::vector<Tr> grants() { std::lock_guard<std::mutex> l(m); std::vector<Tr> r; for (auto& e : log) { if (e.kind == 0) { r.push_back(static_cast<Tr>(e.v)); } } return r; }
    // the state was entered, its callbacks and handler have run and nothing is pending
    bool waitState(St s, size_t nStates, double limit = 20)
    {
        double t0 = vp::now();
        while (vp::now() - t0 < limit) {
            {
                std::lock_guard<std::mutex> l(m);
                size_t n = 0, h = 0;
                St last = St::Undefined;
                for (auto& e : log) { if (e.kind == 2) { ++n; last = static_cast<St>(e.v); } if (e.kind == 4) { ++h; } }
                // IDLE at start has no handler call
                if (n >= nStates && last == s && (h + 1 >= n || s == St::Error)) { return true; }
            }
            vp::tick();
            vp::sleepUs(30);
        }
        return false;
    }
    ~Driven() { finish(); }
    // must run before anything the handlers refer to goes away
    void finish()
    {
        if (th.joinable()) {
            if (!ended) { sm.ChangeState(Tr::ErrorFound); }
            th.join();
        }
    }
};

std::string str(const std::vector<St>& v) { std::string s; for (auto x : v) { s += std::string(sn(x)) + " > "; } return s.substr(0, 500); }

// is the observed state sequence the one the granted transitions dictate?
void checkPath(const char* where, const std::vector<Tr>& grants, const std::vector<St>& states, bool handlerThrew, bool complete)
{
    std::vector<St> want{St::Idle};
    St cur = St::Idle;
    for (size_t i = 0; i < grants.size(); ++i) {
        St n = target(cur, grants[i]);
        VP_CHECK(n != St::Undefined, "fsm:illegal-transition-granted", "%s: %s granted in state %s; states so far %s", where, tn(grants[i]).c_str(), sn(cur), str(want).c_str());
        if (n == St::Undefined) { return; }
        if (cur == St::Error) { continue; }
        want.push_back(n);
        cur = n;
    }
    std::vector<St> got = states;
    if (got == want) { return; }
    // an error overtakes a state that was granted but not yet entered
    bool err = !want.empty() && want.back() == St::Error;
    if (err && want.size() >= 2) {
        std::vector<St> w2(want.begin(), want.end() - 2);
        w2.push_back(St::Error);
        if (got == w2) { return; }
    }
    // an error reported after the machine has finished has nobody to carry it out
    if (err && want.size() >= 2 && want[want.size() - 2] == St::Exiting && got.size() + 1 == want.size() && std::equal(got.begin(), got.end(), want.begin())) { return; }
    bool ok = false;
    if (!complete) { ok = got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()); }
    std::string key = "fsm:path";
    if (!ok && err && std::count(got.begin(), got.end(), St::Error) > 1) { key = handlerThrew ? "fsm:error-notified-twice-after-throw" : "fsm:error-notified-twice"; }
    VP_CHECK(ok, key, "%s: granted transitions dictate %s but the states seen are %s", where, str(want).c_str(), str(got).c_str());
}

// every (state, transition) pair, each from a fresh machine, plus what follows it
void tableCase(uint64_t i, vp::Rng& r)
{
    size_t nT = kTrans.size();
    std::vector<St> from = kWalk;
    from.push_back(St::Error);
    St s = from[(i / nT) % from.size()];
    Tr t = kTrans[i % nT];
    vp::phase(vp::fmt("table %s x %s", sn(s), tn(t).c_str()));
    Driven d;
    d.start();
    size_t n = 1;
    bool ok = d.waitState(St::Idle, 1);
    std::vector<Tr> path = s == St::Error ? pathTo(r.pick(std::vector<St>{St::Idle, St::Running, St::Bound, St::InitializingTask})) : pathTo(s);
    if (s == St::Error) { path.push_back(Tr::ErrorFound); }
    St cur = St::Idle;
    for (auto p : path) {
        bool g = r.chance(1, 2) ? d.sm.ChangeState(p) : d.sm.ChangeState(tn(p));
        VP_CHECK(g, "fsm:legal-transition-refused", "%s refused in %s", tn(p).c_str(), sn(cur));
        cur = target(cur, p);
        ++n;
        ok = ok && d.waitState(cur, n);
        VP_CHECK(ok, "fsm:granted-but-not-carried-out", "%s granted but %s not reached", tn(p).c_str(), sn(cur));
        if (!ok) { return; }
    }
    if (cur == St::Exiting || cur == St::Error) { while (!d.ended) { vp::sleepUs(30); } }
    VP_CHECK(d.sm.GetCurrentState() == s && d.sm.GetCurrentStateName() == GetStateName(s), "fsm:current-state", "GetCurrentState %s in %s", sn(d.sm.GetCurrentState()), sn(s));
    VP_CHECK(!d.sm.NewStatePending(), "fsm:pending", "pending reported in quiescent state %s", sn(s));
    bool g = d.sm.ChangeState(t);
    St to = target(s, t);
    if (!(s == St::Error && t == Tr::ErrorFound)) {
        VP_CHECK(g == (to != St::Undefined), g ? (s == St::Error ? "fsm:granted-in-error-state" : "fsm:illegal-transition-granted") : "fsm:legal-transition-refused", "%s in %s returned %d", tn(t).c_str(), sn(s), g);
    }
    if (g && to != St::Undefined && s != St::Exiting && s != St::Error) {
        ++n;
        VP_CHECK(d.waitState(to, n), "fsm:granted-but-not-carried-out", "%s granted in %s but %s not reached", tn(t).c_str(), sn(s), sn(to));
        VP_CHECK(d.sm.GetCurrentState() == to, "fsm:wrong-target", "%s in %s led to %s", tn(t).c_str(), sn(s), sn(d.sm.GetCurrentState()));
    } else if (!g) {
        // refused: nothing may have changed, and legal requests still work
        vp::sleepUs(200);
        VP_CHECK(d.sm.GetCurrentState() == s && !d.sm.NewStatePending(), "fsm:refused-but-changed", "%s refused in %s but the state is now %s (pending %d)", tn(t).c_str(), sn(s), sn(d.sm.GetCurrentState()), d.sm.NewStatePending());
        auto l = legal(s);
        if (!l.empty()) {
            Tr t2 = r.pick(l);
            VP_CHECK(d.sm.ChangeState(t2), "fsm:legal-transition-refused", "%s refused in %s after a refused %s", tn(t2).c_str(), sn(s), tn(t).c_str());
            ++n;
            VP_CHECK(d.waitState(target(s, t2), n), "fsm:granted-but-not-carried-out", "%s granted in %s but not carried out", tn(t2).c_str(), sn(s));
        }
    }
    vp::sleepUs(100);
    if (s != St::Exiting) { checkPath("table", d.grants(), d.states(), false, true); }
    vp::evaluated(i % (from.size() * nT));
    vp::sample(vp::fmt("%s x %s -> %s", sn(s), tn(t).c_str(), g ? "granted" : "refused"));
}

void namesCase(uint64_t, vp::Rng& r)
{
    static const std::vector<std::string> sName{"UNDEFINED", "OK", "ERROR", "IDLE", "INITIALIZING DEVICE", "INITIALIZED", "BINDING", "BOUND", "CONNECTING", "DEVICE READY", "INITIALIZING TASK", "READY", "RUNNING", "RESETTING TASK", "RESETTING DEVICE", "EXITING"};
    static const std::vector<std::string> tName{"AUTO", "INIT DEVICE", "COMPLETE INIT", "BIND", "CONNECT", "INIT TASK", "RUN", "STOP", "RESET TASK", "RESET DEVICE", "END", "ERROR FOUND"};
    for (size_t i = 0; i < kStates.size(); ++i) {
        VP_CHECK(GetStateName(kStates[i]) == sName[i], "names:state-name", "%zu: %s", i, GetStateName(kStates[i]).c_str());
        St b = St::Undefined;
        try { b = GetState(sName[i]); } catch (const std::exception&) { vp::violation("names:state-unknown", sName[i]); }
        VP_CHECK(b == kStates[i], "names:state-inverse", "%s", sName[i].c_str());
        std::ostringstream os;
        os << kStates[i];
        VP_CHECK(os.str() == sName[i], "names:state-stream", "%s", os.str().c_str());
    }
    for (size_t i = 0; i < kTrans.size(); ++i) {
        VP_CHECK(GetTransitionName(kTrans[i]) == tName[i], "names:transition-name", "%zu: %s", i, GetTransitionName(kTrans[i]).c_str());
        Tr b = Tr::Auto;
        try { b = GetTransition(tName[i]); } catch (const std::exception&) { vp::violation("names:transition-unknown", tName[i]); }
        VP_CHECK(b == kTrans[i], "names:transition-inverse", "%s", tName[i].c_str());
        std::ostringstream os;
        os << kTrans[i];
        VP_CHECK(os.str() == tName[i], "names:transition-stream", "%s", os.str().c_str());
    }
    // unknown names: mutations of known ones
    for (int k = 0; k < 200; ++k) {
        bool st = r.chance(1, 2);
        std::string s = st ? r.pick(sName) : r.pick(tName);
        unsigned w = r.below(7);
        size_t p = r.below(s.size());
        if (w == 0) { s.erase(p, 1); } else if (w == 1) { s.insert(p, 1, static_cast<char>('A' + r.below(26))); } else if (w == 2) { s[p] = static_cast<char>(s[p] ^ 0x20); }
        else if (w == 3) { s += ' '; } else if (w == 4) { s.clear(); } else if (w == 5) { for (auto& c : s) { if (c == ' ') { c = '_'; } } } else { s = " " + s; }
        bool kS = std::find(sName.begin(), sName.end(), s) != sName.end(), kT = std::find(tName.begin(), tName.end(), s) != tName.end();
        bool okS = true, okT = true;
        try { GetState(s); } catch (const std::out_of_range&) { okS = false; } catch (const std::exception&) { okS = false; }
        try { GetTransition(s); } catch (const std::exception&) { okT = false; }
        VP_CHECK(okS == kS, "names:unknown-state-accepted", "'%s'", s.c_str());
        VP_CHECK(okT == kT, "names:unknown-transition-accepted", "'%s'", s.c_str());
        bool okC = true;
        if (!kT) { StateMachine sm; sm.Start(); try { okC = sm.ChangeState(s); } catch (const std::exception&) { okC = false; } VP_CHECK(!okC && sm.GetCurrentState() == St::Idle && !sm.NewStatePending(), "names:unknown-transition-changes-state", "'%s'", s.c_str()); }
        vp::evaluated(vp::hash(s));
    }
    vp::sample("all state/transition names, streams, inverses and 200 mutated names");
}

// concurrent requests from several threads, state handlers and callbacks
void concCase(uint64_t ci, vp::Rng& r)
{
    const unsigned T = static_cast<unsigned>(r.range(2, 5)), ops = static_cast<unsigned>(r.range(15, 60));
    const bool withError = r.chance(1, 3), withThrow = !withError && r.chance(1, 3), nested = r.chance(1, 2);
    uint64_t cs = r.next();
    struct Req { uint64_t b, e; Tr t; bool granted; };
    std::vector<std::vector<Req>> reqs(T + 2);
    vp::Rng hr(cs, 99);
    std::atomic<bool> stop{false};
    std::atomic<int> throwIn{withThrow ? static_cast<int>(hr.range(3, 15)) : -1};
    std::atomic<bool> didThrow{false};
    vp::Rng nr(cs, 77);
    Driven d;
    auto request = [&](std::vector<Req>& v, Tr t) { Req q{gClk++, 0, t, false}; q.granted = d.sm.ChangeState(t); q.e = gClk++; v.push_back(q); vp::tick(); return q.granted; };
    d.onHandle = [&](St s) {
        if (throwIn >= 0 && s != St::Exiting && --throwIn == 0) { didThrow = true; throw std::runtime_error("handler"); }
        if (hr.chance(1, 4)) { vp::sleepUs(hr.below(300)); }
        auto l = legal(s);
        if (!l.empty() && l[0] == Tr::Auto) { request(reqs[T], Tr::Auto); }                                        // as Device does
        else if (!l.empty() && s != St::Idle && hr.chance(1, 3)) { request(reqs[T], hr.pick(l)); }
    };
    if (nested) { d.onChange = [&](St s) { if (nr.chance(1, 5)) { auto l = legal(s); if (!l.empty() && s != St::Idle) { request(reqs[T + 1], nr.pick(l)); } } if (s == St::Error) { request(reqs[T + 1], Tr::Stop); } }; }
    vp::resetScheduleHash();
    vp::perturb(static_cast<unsigned>(r.range(0, 3)), r.next());
    vp::phase("conc");
    d.start();
    vp::runThreads(T, [&](unsigned t) {
        vp::Rng q(cs, t + 1);
        for (unsigned i = 0; i < ops && !stop; ++i) {
            Tr x;
            if (q.chance(3, 4)) { auto l = legal(d.sm.GetCurrentState()); x = l.empty() ? q.pick(kTrans) : q.pick(l); } else { x = q.pick(kTrans); }
            if (x == Tr::End && !q.chance(1, 10)) { x = Tr::InitDevice; }
            if (x == Tr::ErrorFound && !(withError && i > ops / 2)) { x = Tr::Stop; }
            request(reqs[t], x);
            if (q.chance(1, 3)) { vp::sleepUs(q.below(150)); }
        }
    });
    // settle
    vp::phase("conc-settle");
    double t0 = vp::now();
    while (!d.ended && vp::now() - t0 < 20) {
        if (!d.sm.NewStatePending()) {
            St cur = d.sm.GetCurrentState();
            size_t n = d.states().size();
            vp::sleepUs(3000);
            if (!d.sm.NewStatePending() && d.sm.GetCurrentState() == cur && d.states().size() == n) {
                std::lock_guard<std::mutex> l(d.m);
                size_t c = 0, h = 0, g = 0;
                for (auto& e : d.log) { c += e.kind == 2; h += e.kind == 4; g += e.kind == 0; }
                if (h + 1 >= c && g + 1 == c) { break; }
            }
        }
        vp::sleepUs(100);
    }
    if (!d.ended && (d.sm.GetCurrentState() == St::Exiting || d.sm.GetCurrentState() == St::Error)) { while (!d.ended) { vp::sleepUs(50); } }
    vp::perturb(0, 0);
    auto grants = d.grants();
    auto states = d.states();
    checkPath(didThrow ? "throw" : "conc", grants, states, didThrow, true);
    VP_CHECK(!d.threw || (!states.empty() && states.back() == St::Error), "fsm:threw-without-error", "ProcessWork threw '%s' but the last state is %s", d.what.c_str(), states.empty() ? "none" : sn(states.back()));
    if (didThrow) { VP_CHECK(d.threw && states.back() == St::Error, "fsm:handler-exception-swallowed", "handler threw, ProcessWork threw %d, last state %s", d.threw.load(), sn(states.back())); }
    // granted counts
    std::map<Tr, long> byRet, byCb;
    size_t nReq = 0, nGr = 0;
    for (auto& v : reqs) { for (auto& q : v) { ++nReq; if (q.granted) { ++nGr; ++byRet[q.t]; } } }
    for (auto t : grants) { ++byCb[t]; }
    for (auto t : kTrans) {
        if (t == Tr::ErrorFound) { VP_CHECK((byRet[t] > 0) <= (byCb[t] > 0), "fsm:error-lost", "ErrorFound granted but never applied"); continue; }
        VP_CHECK(byRet[t] == byCb[t], states.back() == St::Error && byRet[t] > byCb[t] ? "fsm:granted-in-error-state" : "fsm:grant-count", "%s: %ld requests reported granted, %ld applied (final state %s)", tn(t).c_str(), byRet[t], byCb[t], sn(states.back()));
    }
    // every refusal needs a reason at some instant of the call
    {
        std::lock_guard<std::mutex> l(d.m);
        // stable windows: from the change callback (pending was cleared before) to the next grant
        struct W { uint64_t b, e; St s; };
        std::vector<W> ws;
        uint64_t wb = 0;
        St cur = St::Idle;
        bool open = false;
        long nGrant = 0, nState = 0;
        for (auto& e : d.log) {
            nGrant += e.kind == 0;
            nState += e.kind == 2;
            if (e.kind == 2) { wb = e.at; cur = static_cast<St>(e.v); open = nGrant == nState - 1; }   // (the next one may be pending already)
            else if ((e.kind == 0 || e.kind == 5) && open) {   // (a throwing handler moves to ERROR before anyone is told)
                ws.push_back({wb, e.at, cur}); open = false; }
        }
        if (open) { ws.push_back({wb, ~0ull, cur}); }
        size_t judged = 0;
        for (auto& v : reqs) {
            for (auto& q : v) {
                if (q.granted) { continue; }
                for (auto& w : ws) {
                    if (q.b > w.b && q.e < w.e) {
                        ++judged;
                        VP_CHECK(target(w.s, q.t) == St::Undefined || w.s == St::Error, "fsm:legal-transition-refused", "%s refused in %s with nothing pending", tn(q.t).c_str(), sn(w.s));
                    }
                }
            }
        }
        vp::count("refusals_judged", judged);
    }
    vp::count("requests", nReq);
    vp::count("granted", nGr);
    vp::count("states_entered", states.size());
    uint64_t h = ci;
    for (auto s : states) { h = vp::mix(h, static_cast<uint64_t>(s)); }
    d.finish();
    vp::interleaving(vp::scheduleHash());
    vp::evaluated(vp::mix(h, vp::scheduleHash()), nGr > 0);
    vp::sample(vp::fmt("%u threads, %zu requests, %zu granted, ends in %s%s: %s", T, nReq, nGr, sn(states.back()), didThrow ? " (handler threw)" : "", str(states).c_str()));
}

// ------------------------------------------------------------------ C09: notifications
void notifyCase(uint64_t ci, vp::Rng& r)
{
    Driven d;
    struct Sub { std::atomic<uint64_t> sb{0}, se{0}, ub{~0ull}, ue{~0ull}; std::mutex m; std::vector<std::pair<uint64_t, int>> seen; bool trans = false; int group = 0; };
    std::vector<std::unique_ptr<Sub>> subs(400);
    std::atomic<size_t> nSubs{0};
    std::atomic<bool> stop{false};
    uint64_t cs = r.next();
    auto add = [&](const std::string& key, bool trans, int group) {
        size_t id = nSubs++;
        auto& s = subs[id] = std::make_unique<Sub>();
        Sub* p = s.get();
        p->trans = trans;
        p->group = group;
        p->sb = gClk++;
        if (trans) { d.sm.SubscribeToNewTransition(key, [p](const Tr t) { std::lock_guard<std::mutex> l(p->m); p->seen.push_back({gClk++, static_cast<int>(t)}); }); }
        else { d.sm.SubscribeToStateChange(key, [p](const St t) { std::lock_guard<std::mutex> l(p->m); p->seen.push_back({gClk++, static_cast<int>(t)}); }); }
        p->se = gClk++;
        return id;
    };
    auto rem = [&](size_t id, const std::string& key) {
        Sub* p = subs[id].get();
        p->ub = gClk++;
        if (p->trans) { d.sm.UnsubscribeFromNewTransition(key); } else { d.sm.UnsubscribeFromStateChange(key); }
        p->ue = gClk++;
    };
    // permanent subscribers, with numeric prefixes: those are notified in numeric order
    std::vector<size_t> ordered;
    std::vector<int> groups{5, 1, 3, 10, 2};
    r.shuffle(groups);
    for (int g : groups) { ordered.push_back(add(std::to_string(g) + "-perm", false, g)); }
    add("perm-t", true, 0);
    std::thread handler;
    vp::resetScheduleHash();
    vp::perturb(static_cast<unsigned>(r.range(0, 3)), r.next());
    vp::phase("notify");
    d.start();
    const unsigned T = static_cast<unsigned>(r.range(1, 3));
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < T; ++t) {
        ts.emplace_back([&, t] {
            vp::Rng q(cs, t + 1);
            std::map<std::string, size_t> mine;
            std::map<std::string, std::vector<size_t>> under;   // all that were subscribed under a key
            int n = 0;
            while (!stop && n < 60) {
                std::string key = (q.chance(1, 3) ? std::to_string(q.below(8)) : std::string()) + "s" + std::to_string(t) + "." + std::to_string(q.below(3));
                bool trans = q.chance(1, 3);
                std::string mk = key + (trans ? "T" : "S");
                auto it = mine.find(mk);
                if (it == mine.end()) { mine[mk] = add(key, trans, static_cast<int>(strtol(key.c_str(), nullptr, 10))); under[mk].push_back(mine[mk]); }
                else if (q.chance(1, 5)) {
                    // under a key in use: until the key is unsubscribed, the earlier one is not judged
                    subs[it->second]->ub = gClk++;
                    it->second = add(key, trans, static_cast<int>(strtol(key.c_str(), nullptr, 10)));
                    under[mk].push_back(it->second);
                } else {
                    rem(it->second, key);
                    for (size_t id : under[mk]) { subs[id]->ue = subs[it->second]->ue.load(); }
                    under.erase(mk);
                    mine.erase(it);
                }
                if (q.chance(1, 8)) { d.sm.UnsubscribeFromStateChange("never-there"); }
                ++n;
                vp::sleepUs(q.below(250));
                vp::tick();
            }
        });
    }
    // walk the graph
    struct Chg { uint64_t b, e; Tr t; };
    std::vector<Chg> calls;
    St cur = St::Idle;
    size_t n = 1;
    d.waitState(cur, n);
    int steps = static_cast<int>(r.range(8, 30));
    bool bad = false;
    for (int i = 0; i < steps; ++i) {
        auto l = legal(cur);
        if (l.empty()) { break; }
        Tr t = r.pick(l);
        if (t == Tr::End) { t = Tr::InitDevice; }
        Chg c{gClk++, 0, t};
        bool g = d.sm.ChangeState(t);
        c.e = gClk++;
        if (!g) { vp::violation("fsm:legal-transition-refused", vp::fmt("%s in %s", tn(t).c_str(), sn(cur))); bad = true; break; }
        calls.push_back(c);
        cur = target(cur, t);
        ++n;
        if (!d.waitState(cur, n)) { vp::violation("fsm:granted-but-not-carried-out", vp::fmt("%s", tn(t).c_str())); bad = true; break; }
    }
    bool viaError = r.chance(1, 4);
    if (!bad && viaError) {
        Chg c{gClk++, 0, Tr::ErrorFound};
        d.sm.ChangeState(Tr::ErrorFound);
        c.e = gClk++;
        calls.push_back(c);
        while (!d.ended) { vp::sleepUs(30); }
    }
    stop = true;
    for (auto& t : ts) { t.join(); }
    vp::perturb(0, 0);
    d.finish();
    // reconstruct the change windows: prep .. handle begin (the initial IDLE has neither: skipped)
    struct Win { uint64_t b, e; St s; };
    std::vector<Win> wins;
    {
        std::lock_guard<std::mutex> l(d.m);
        for (size_t i = 0; i < d.log.size(); ++i) {
            if (d.log[i].kind == 1) { for (size_t k = i; k < d.log.size(); ++k) { if (d.log[k].kind == 3) { wins.push_back({d.log[i].at, d.log[k].at, static_cast<St>(d.log[i].v)}); break; } } }
        }
    }
    size_t notified = 0, judged = 0;
    size_t ns = nSubs.load();
    for (size_t id = 0; id < ns; ++id) {
        Sub& s = *subs[id];
        notified += s.seen.size();
        if (!s.trans) {
            size_t accounted = 0;
            for (auto& w : wins) {
                int k = 0;
                for (auto& x : s.seen) { if (x.first > w.b && x.first < w.e) { ++k; ++accounted; VP_CHECK(x.second == static_cast<int>(w.s), "notify:wrong-state", "told %s while entering %s", sn(static_cast<St>(x.second)), sn(w.s)); } }
                bool must = s.se < w.b && s.ub > w.e, mustNot = s.ue < w.b || s.sb > w.e;
                judged += must || mustNot;
                VP_CHECK(!must || k == 1, k ? "notify:state-told-twice" : "notify:state-missed", "subscriber was told of %s %d times", sn(w.s), k);
                VP_CHECK(k <= 1, "notify:state-told-twice", "subscriber was told of %s %d times", sn(w.s), k);
                VP_CHECK(!mustNot || k == 0, "notify:unsubscribed-told", "told of %s while not subscribed", sn(w.s));
            }
            // outside of any window: only the initial IDLE
            size_t outside = s.seen.size() - accounted;
            VP_CHECK(outside <= 1 || viaError, "notify:extra", "%zu notifications outside of state changes", outside);
            if (viaError) { size_t e = 0; for (auto& x : s.seen) { e += x.second == static_cast<int>(St::Error); } VP_CHECK(e <= 1, "fsm:error-notified-twice", "subscriber told of ERROR %zu times", e); }
        } else {
            for (auto& c : calls) {
                int k = 0;
                for (auto& x : s.seen) { if (x.first > c.b && x.first < c.e) { ++k; VP_CHECK(x.second == static_cast<int>(c.t), "notify:wrong-transition", "told %d during %s", x.second, tn(c.t).c_str()); } }
                bool must = s.se < c.b && s.ub > c.e, mustNot = s.ue < c.b || s.sb > c.e;
                judged += must || mustNot;
                VP_CHECK(!must || k == 1, k ? "notify:transition-told-twice" : "notify:transition-missed", "subscriber was told of %s %d times", tn(c.t).c_str(), k);
                VP_CHECK(!mustNot || k == 0, "notify:unsubscribed-told", "told of transition %s while not subscribed", tn(c.t).c_str());
            }
        }
    }
    // numeric prefix order among the permanent ones, per change
    for (auto& w : wins) {
        std::vector<std::pair<uint64_t, int>> o;
        for (size_t id : ordered) { for (auto& x : subs[id]->seen) { if (x.first > w.b && x.first < w.e) { o.push_back({x.first, subs[id]->group}); } } }
        std::sort(o.begin(), o.end());
        for (size_t i = 1; i < o.size(); ++i) { VP_CHECK(o[i - 1].second <= o[i].second, "notify:priority-order", "subscriber with prefix %d told before prefix %d", o[i - 1].second, o[i].second); }
    }
    vp::count("state_changes", wins.size());
    vp::count("notifications", notified);
    vp::count("subscriptions", ns);
    vp::count("judged_pairs", judged);
    vp::interleaving(vp::scheduleHash());
    vp::evaluated(vp::mix(vp::scheduleHash(), ci), notified > 0);
    vp::sample(vp::fmt("%zu subscriptions over %zu state changes: %zu notifications, %zu judged pairs, ends in %s", ns, wins.size(), notified, judged, sn(d.sm.GetCurrentState())));
}

// waiting for pending states
void pendingCase(uint64_t ci, vp::Rng& r)
{
    Driven d;
    std::atomic<bool> hold{true};
    std::atomic<bool> inHandler{false};
    d.onHandle = [&](St) { inHandler = true; while (hold) { vp::sleepUs(20); } inHandler = false; };
    vp::phase("pending");
    d.start();
    d.waitState(St::Idle, 1);
    VP_CHECK(!d.sm.NewStatePending(), "pending:reported-without-request", "in IDLE");
    int ms = static_cast<int>(r.pick(std::vector<int>{0, 1, 5, 20, 40}));
    double t0 = vp::now();
    bool p = d.sm.WaitForPendingStateFor(ms);
    double dt = vp::now() - t0;
    VP_CHECK(!p, "pending:reported-without-request", "WaitForPendingStateFor(%d) returned true with nothing requested", ms);
    VP_CHECK(dt >= ms * 1e-3 - 0.0005, "pending:gave-up-early", "WaitForPendingStateFor(%d) gave up after %.1f ms", ms, dt * 1e3);
    VP_CHECK(dt < ms * 1e-3 + 5, "pending:gave-up-late", "WaitForPendingStateFor(%d) gave up after %.1f ms", ms, dt * 1e3);
    // INITIALIZING DEVICE is being handled (held): the next request stays pending and must be seen by all waiters
    d.sm.ChangeState(Tr::InitDevice);
    while (!inHandler) { vp::sleepUs(20); }
    unsigned W = static_cast<unsigned>(r.range(1, 4));
    std::atomic<unsigned> woke{0}, trues{0};
    vp::perturb(static_cast<unsigned>(r.range(0, 3)), r.next());
    std::vector<std::thread> ts;
    std::vector<bool> timed(W);
    for (unsigned i = 0; i < W; ++i) {
        timed[i] = r.chance(1, 2);
        bool td = timed[i];
        long delay = r.below(600);
        ts.emplace_back([&, td, delay] { vp::sleepUs(delay); if (td) { if (d.sm.WaitForPendingStateFor(30000)) { ++trues; } } else { d.sm.WaitForPendingState(); ++trues; } ++woke; vp::tick(); });
    }
    vp::sleepUs(r.below(1200));
    bool viaError = r.chance(1, 4);
    double tg = vp::now();
    bool g = d.sm.ChangeState(viaError ? Tr::ErrorFound : Tr::CompleteInit);
    VP_CHECK(g, "fsm:legal-transition-refused", "request refused while its predecessor's handler runs");
    VP_CHECK(d.sm.NewStatePending(), "pending:not-reported", "granted but not pending although the handler still runs");
    VP_CHECK(!d.sm.ChangeState(Tr::Bind), "fsm:granted-while-pending", "second request granted while one is pending");
    for (auto& t : ts) { t.join(); }
    VP_CHECK(trues == W, "pending:waiter-not-woken", "%u of %u waiters saw the pending state", trues.load(), W);
    VP_CHECK(vp::now() - tg < 20, "pending:waiter-woken-late", "%.1f s", vp::now() - tg);
    VP_CHECK(d.sm.WaitForPendingStateFor(0), "pending:not-reported", "WaitForPendingStateFor(0) with a pending state");
    hold = false;
    vp::perturb(0, 0);
    if (!viaError) { d.waitState(St::Initialized, 3); VP_CHECK(!d.sm.NewStatePending(), "pending:reported-after-entry", "still pending after the state was entered"); }
    d.finish();
    vp::count("waiters", W);
    vp::evaluated(vp::mix(vp::mix(ci, W), ms + (viaError ? 1000 : 0)));
    vp::sample(vp::fmt("%u waiters, timeout %d ms waited %.2f ms", W, ms, dt * 1e3));
}

// ------------------------------------------------------------------ C09: state queue
const std::vector<St> kQ{St::Idle, St::InitializingDevice, St::Initialized, St::Bound, St::DeviceReady, St::Ready, St::Running, St::ResettingTask, St::Exiting};

// single-threaded against a deque
void queueModelCase(uint64_t, vp::Rng& r)
{
    StateQueue q;
    std::deque<St> m;
    uint64_t h = 0;
    std::string tr;
    bool flag = false;
    int ops = static_cast<int>(r.range(5, 50));
    vp::phase("queue-model");
    for (int i = 0; i < ops; ++i) {
        unsigned w = r.below(20);
        h = vp::mix(h, w);
        if (w < 6) { St s = r.chance(1, 12) ? St::Error : r.pick(kQ); q.Push(s); m.push_back(s); tr += vp::fmt("push(%s) ", sn(s)); }
        else if (w == 6) { St s = r.pick(kQ); bool called = false; q.Push(s, [&] { called = true; flag = !flag; }); m.push_back(s); VP_CHECK(called, "queue:signal-not-run", "Push(state, signal)"); }
        else if (w == 7) { bool called = false; q.Notify([&] { called = true; }); VP_CHECK(called, "queue:signal-not-run", "Notify"); }
        else if (w == 8) { bool called = false; q.Locked([&] { called = true; }); VP_CHECK(called, "queue:signal-not-run", "Locked"); }
        else if (w == 9) { q.Clear(); m.clear(); tr += "clear "; }
        else {
            bool err = false, got = false;
            St s = St::Undefined;
            std::string op;
            bool expectErr = !m.empty() && m.front() == St::Error;
            try {
                if (w < 14) { op = "next(0ms)"; auto x = q.WaitForNext(std::chrono::milliseconds(r.chance(1, 8) ? 2 : 0)); got = x.first; s = x.second; }
                else if (w < 16) { if (m.empty()) { continue; } op = "next"; s = q.WaitForNext(); got = true; }
                else if (w < 18) { op = "next-or-custom"; auto x = q.WaitForNextOrCustom([] { return true; }); got = x.first; s = x.second; }
                else if (w < 19) { op = "custom"; auto x = q.WaitForCustom([] { return true; }); got = x.first; s = x.second; }
                else {
                    // a later occurrence is waited for, skipping the ones before it; an error in between is reported
                    std::vector<St> cand;
                    for (auto x : m) { if (x != St::Error) { cand.push_back(x); } }
                    if (cand.empty()) { continue; }
                    St goal = r.pick(cand);
                    op = vp::fmt("wait(%s)", sn(goal));
                    bool custom = r.chance(1, 2);
                    expectErr = false;
                    std::deque<St> m2 = m;
                    while (!m2.empty()) { St x = m2.front(); if (x == St::Error) { expectErr = true; break; } m2.pop_front(); if (x == goal) { break; } }
                    try { if (custom) { q.WaitForStateOrCustom(goal, [] { return false; }); } else { q.WaitForState(goal); } } catch (const DeviceErrorState&) { err = true; }
                    VP_CHECK(err == expectErr, expectErr ? "queue:error-not-reported" : "queue:error-without-error", "%s; history %s", op.c_str(), tr.c_str());
                    m = m2;
                    tr += op + " ";
                    vp::count("waits");
                    continue;
                }
            } catch (const DeviceErrorState&) { err = true; }
            tr += op + (err ? "!error " : got ? std::string("=") + sn(s) + " " : "=none ");
            VP_CHECK(err == expectErr, expectErr ? "queue:error-not-reported" : "queue:error-without-error", "%s; history %s", op.c_str(), tr.substr(0, 800).c_str());
            if (!err && !expectErr) {
                VP_CHECK(got == !m.empty(), got ? "queue:state-from-nowhere" : "queue:state-not-delivered", "%s; history %s", op.c_str(), tr.substr(0, 800).c_str());
                if (got && !m.empty()) { VP_CHECK(s == m.front(), "queue:order", "%s delivered %s instead of %s; history %s", op.c_str(), sn(s), sn(m.front()), tr.substr(0, 800).c_str()); m.pop_front(); }
                if (!got) { VP_CHECK(s == St::Ok, "queue:timeout-value", "a timeout returned state %s", sn(s)); }
            }
            vp::count("waits");
        }
    }
    vp::evaluated(vp::mix(h, vp::hash(tr)));
    vp::sample(tr);
}

// producers and consumers
void queueConcCase(uint64_t ci, vp::Rng& r)
{
    StateQueue q;
    const unsigned P = static_cast<unsigned>(r.range(1, 3)), C = static_cast<unsigned>(r.chance(1, 2) ? 1 : r.range(2, 3));
    const unsigned N = static_cast<unsigned>(r.range(5, 40));
    const bool withError = r.chance(1, 2);
    uint64_t cs = r.next();
    // with one producer the complete order is known; with several, per-state counts
    std::vector<std::vector<St>> prod(P), got(C);
    std::atomic<unsigned> taken{0};
    std::atomic<unsigned> errors{0}, alive{C};
    const unsigned total = P * N;
    std::atomic<bool> done{false};
    vp::resetScheduleHash();
    vp::perturb(static_cast<unsigned>(r.range(0, 3)), r.next());
    vp::phase(withError ? "queue-conc-error" : "queue-conc");
    std::atomic<unsigned> producersLeft{P};
    std::atomic<unsigned> blocked{0};
    vp::runThreads(P + C, [&](unsigned id) {
        vp::Rng x(cs, id + 1);
        if (id < P) {
            for (unsigned i = 0; i < N; ++i) {
                St s = P == 1 ? x.pick(kQ) : kQ[id * 3 + x.below(3)];   // producers use disjoint states: per-producer order is checkable
                prod[id].push_back(s);
                if (x.chance(1, 6)) { q.Push(s, [] {}); } else { q.Push(s); }
                if (x.chance(1, 4)) { vp::sleepUs(x.below(150)); }
                vp::tick();
            }
            if (--producersLeft == 0) {
                if (withError) { q.Push(St::Error); }
                else { q.Notify([&] { done = true; }); for (unsigned k = 0; k < C + 4; ++k) { q.Notify([] {}); } }
            }
        } else {
            auto& g = got[id - P];
            try {
                for (;;) {
                    std::pair<bool, St> v{false, St::Ok};
                    unsigned w = x.below(3);
                    if (withError) {
                        if (w == 0) { v = {true, q.WaitForNext()}; }
                        else if (w == 1) { v = q.WaitForNext(std::chrono::milliseconds(20000)); }
                        else { v = q.WaitForNextOrCustom([] { return false; }); }
                    } else {
                        if (w == 0 && C == 1 && taken < total) { v = {true, q.WaitForNext()}; }
                        else if (w == 1) { v = q.WaitForNext(std::chrono::milliseconds(x.below(5))); }
                        else { v = q.WaitForNextOrCustom([&] { return done.load(); }); }
                    }
                    if (v.first) { g.push_back(v.second); ++taken; }
                    else if (done && !withError) { break; }
                    vp::tick();
                }
            } catch (const DeviceErrorState&) {
                ++errors;
                // from now on every wait reports the error
                int again = 0;
                try { q.WaitForNext(); } catch (const DeviceErrorState&) { ++again; }
                try { q.WaitForNext(std::chrono::milliseconds(1)); } catch (const DeviceErrorState&) { ++again; }
                try { q.WaitForState(St::Running); } catch (const DeviceErrorState&) { ++again; }
                try { q.WaitForNextOrCustom([] { return false; }); } catch (const DeviceErrorState&) { ++again; }
                VP_CHECK(again == 4, "queue:error-reported-once", "only %d of 4 further waits report the error", again);
            }
        }
    });
    vp::perturb(0, 0);
    unsigned n = 0;
    std::map<St, long> bal;
    for (auto& p : prod) { for (auto s : p) { ++bal[s]; } }
    for (auto& g : got) { n += g.size(); for (auto s : g) { --bal[s]; } }
    VP_CHECK(n == total, n < total ? "queue:state-lost" : "queue:state-duplicated", "%u pushed, %u delivered", total, n);
    for (auto& b : bal) { VP_CHECK(b.second == 0, "queue:state-mixed-up", "%s: %ld", sn(b.first), b.second); }
    if (withError) { VP_CHECK(errors == C, "queue:error-not-reported", "%u of %u consumers saw the error", errors.load(), C); }
    // per producer order as seen by a single consumer
    if (C == 1) {
        for (unsigned p = 0; p < P; ++p) {
            std::vector<St> f;
            for (auto s : got[0]) { if (P == 1 || std::find(kQ.begin() + p * 3, kQ.begin() + p * 3 + 3, s) != kQ.begin() + p * 3 + 3) { f.push_back(s); } }
            VP_CHECK(f == prod[p], "queue:order", "states of one producer were delivered out of order");
        }
    }
    vp::count("pushed", total);
    vp::interleaving(vp::scheduleHash());
    vp::evaluated(vp::mix(vp::scheduleHash(), ci));
    vp::sample(vp::fmt("%u producers x %u states, %u consumers, %s: all delivered once", P, N, C, withError ? "then ERROR" : "then custom stop"));
}

// timing and wake-up of single waiters of every kind
void queueWaitCase(uint64_t ci, vp::Rng& r)
{
    StateQueue q;
    unsigned kind = static_cast<unsigned>(std::min<uint64_t>(r.below(12), 9));
    vp::phase(vp::fmt("queue-wait-%u", kind));
    std::atomic<bool> flag{false};
    std::atomic<int> result{0};
    double t0 = vp::now(), dt = 0;
    std::string note;
    std::atomic<bool> started{false};
    vp::perturb(static_cast<unsigned>(r.range(0, 3)), r.next());
    auto spawn = [&](std::function<void()> f) { return std::thread([&, f] { started = true; f(); dt = vp::now() - t0; vp::tick(); }); };
    long lead = static_cast<long>(r.below(1500));
    switch (kind) {
        case 0: {   // timeout
            int ms = static_cast<int>(r.range(1, 15));
            auto x = q.WaitForNext(std::chrono::milliseconds(ms));
            dt = vp::now() - t0;
            VP_CHECK(!x.first && x.second == St::Ok, "queue:state-from-nowhere", "%s", sn(x.second));
            VP_CHECK(dt >= ms * 1e-3 - 0.0005, "queue:timeout-early", "%d ms timeout after %.2f ms", ms, dt * 1e3);
            VP_CHECK(dt < 10, "queue:timeout-late", "%d ms timeout after %.2f ms", ms, dt * 1e3);
            break;
        }
        case 1: { auto th = spawn([&] { auto x = q.WaitForNext(std::chrono::seconds(30)); result = x.first && x.second == St::Ready ? 1 : 2; }); vp::sleepUs(lead); q.Push(St::Ready); th.join(); VP_CHECK(result == 1 && dt < 20, "queue:waiter-not-woken", "timed wait: result %d after %.1f s", result.load(), dt); break; }
        case 2: { auto th = spawn([&] { q.WaitForState(St::Running); result = 1; }); vp::sleepUs(lead); q.Push(St::Ready); q.Push(St::Idle); if (r.chance(1, 2)) { vp::sleepUs(300); } q.Push(St::Running); th.join(); break; }
        case 3: { auto th = spawn([&] { auto x = q.WaitForNextOrCustom([&] { return flag.load(); }); result = x.first ? 2 : 1; }); vp::sleepUs(lead); q.Notify([&] { flag = true; }); th.join(); VP_CHECK(result == 1, "queue:state-from-nowhere", "custom condition"); break; }
        case 4: { auto th = spawn([&] { auto x = q.WaitForCustom([&] { return flag.load(); }); result = x.first && x.second == St::Bound ? 1 : 2; }); vp::sleepUs(lead); q.Push(St::Bound); vp::sleepUs(500); int early = result; q.Notify([&] { flag = true; }); th.join(); VP_CHECK(early == 0, "queue:custom-woke-early", "WaitForCustom returned before its condition held"); VP_CHECK(result == 1, "queue:state-not-delivered", "WaitForCustom did not return the queued state"); break; }
        case 5: { auto th = spawn([&] { q.WaitForStateOrCustom(St::Running, [&] { return flag.load(); }); result = 1; }); vp::sleepUs(lead); q.Push(St::Idle); vp::sleepUs(r.below(500)); q.Notify([&] { flag = true; }); th.join(); break; }
        case 6: { auto th = spawn([&] { try { q.WaitForState(St::Running); result = 2; } catch (const DeviceErrorState&) { result = 1; } }); vp::sleepUs(lead); q.Push(St::Idle); q.Push(St::Error); th.join(); VP_CHECK(result == 1, "queue:error-not-reported", "WaitForState"); break; }
        case 7: {   // a predicate object that owns its condition (std::function) is usable for the whole wait
            std::function<bool()> pred = [&] { return flag.load(); };
            auto th = spawn([&] { try { q.WaitForStateOrCustom(St::Running, pred); result = 1; } catch (const std::bad_function_call&) { result = 2; } });
            vp::sleepUs(lead); q.Push(St::Idle); q.Push(St::Bound); q.Push(St::Running); th.join();
            VP_CHECK(result == 1, "queue:predicate-moved-from", "WaitForStateOrCustom with a std::function predicate threw bad_function_call");
            break;
        }
        case 8: {   // several waiters for different things: each is woken by what it waits for
            std::atomic<int> a{0}, b{0};
            std::thread t1([&] { try { q.WaitForCustom([&] { return flag.load(); }); } catch (const DeviceErrorState&) {} a = 1; });
            std::thread t2([&] { try { q.WaitForState(St::Running); b = 1; } catch (const DeviceErrorState&) { b = 1; } });
            vp::sleepUs(lead + 500);
            if (r.chance(1, 2)) { q.Push(r.chance(1, 2) ? St::Running : St::Error); double w = vp::now(); while (!b && vp::now() - w < 60) { vp::sleepUs(50); } q.Notify([&] { flag = true; }); }
            else { q.Notify([&] { flag = true; }); double w = vp::now(); while (!a && vp::now() - w < 60) { vp::sleepUs(50); } q.Push(St::Running); }
            t1.join();
            t2.join();
            break;
        }
        case 9: {   // a signal given while a waiter is looking at its condition is not lost, and never runs at the same time as the condition
            const unsigned how = static_cast<unsigned>(r.below(3)), via = static_cast<unsigned>(r.below(3));
            bool cond = false;                          // guarded by the queue alone, as the plugins use it
            std::atomic<int> inside{0}, overlap{0}, looked{0};
            const uint64_t ps = r.next();
            const long slow = static_cast<long>(r.below(400));
            auto enter = [&] { if (inside.fetch_add(1) != 0) { ++overlap; } };
            auto pred = [&] { enter(); bool v = cond; vp::sleepUs(slow); ++looked; --inside; return v; };
            auto th = spawn([&] {
                if (how == 0) { q.WaitForCustom(pred); }
                else if (how == 1) { q.WaitForNextOrCustom(pred); }
                else { q.WaitForStateOrCustom(St::Running, pred); }
                result = 1;
            });
            while (!started) { vp::sleepUs(5); }
            vp::Rng x(ps, 0);
            vp::sleepUs(x.below(static_cast<uint64_t>(slow) + 60));
            auto sig = [&] { enter(); cond = true; vp::sleepUs(x.below(100)); --inside; };
            if (via == 0) { q.Notify(sig); }
            else if (via == 1) { q.Push(St::Ready, sig); if (how == 1) { q.Notify([] {}); } }
            else { q.Locked(sig); q.Notify([] {}); }
            double w = vp::now();
            while (!result && vp::now() - w < 20) { vp::sleepUs(20); }
            VP_CHECK(result == 1, "queue:signal-lost", "wait kind %u was not woken by a signal given (%s) while it was checking its condition", how, via == 0 ? "Notify" : via == 1 ? "Push" : "Locked");
            for (int k = 0; k < 2000 && !result; ++k) { q.Notify([] {}); vp::sleepUs(500); }
            th.join();
            VP_CHECK(overlap == 0, "queue:signal-not-exclusive", "signal and condition ran at the same time");
            vp::count("signal-races");
            break;
        }
    }
    vp::perturb(0, 0);
    vp::evaluated(vp::mix(vp::mix(ci, kind), static_cast<uint64_t>(lead)));
    vp::sample(vp::fmt("wait kind %u, lead %ld us, result %d", kind, lead, result.load()));
}

}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    vp::watchdog();
    auto& m = vp::S().mode;
    if (m == "table") { vp::forCases((kWalk.size() + 1) * kTrans.size(), tableCase); }
    else if (m == "names") { vp::forCases(3, namesCase); }
    else if (m == "conc") { vp::forCases(80, concCase); }
    else if (m == "notify") { vp::forCases(60, notifyCase); }
    else if (m == "pending") { vp::forCases(60, pendingCase); }
    else if (m == "qmodel") { vp::forCases(500, queueModelCase); }
    else if (m == "qconc") { vp::forCases(100, queueConcCase); }
    else if (m == "qwait") { vp::forCases(150, queueWaitCase); }
    return vp::finish();
}
