// C23: rate logs and the run rate of a device.
// Oracle: the lines a device logs are captured as they are written; multiplied by the time since the channel's previous
// line they must give the traffic of that period as counted by the test itself. Traffic is produced between the ticks of
// the logger, so that what a line has to report is known exactly.
#include "tx.h"

#include <fairmq/Device.h>
#include <fairmq/StateMachine.h>

using namespace fair::mq;
using namespace std;
using vp::fmt;

namespace
{

struct Tally { uint64_t mIn = 0, bIn = 0, mOut = 0, bOut = 0; };

struct Line { double t; double mIn, mbIn, mOut, mbOut; Tally c; bool calm; State st; };

struct Chan
{
    string name;      // "x[0]"
    int interval = 0;
    Tally c;
    vector<Line> lines;
};

struct Dut;
mutex gM;                       // guards gByName, tallies and lines
map<string, pair<Dut*, Chan*>> gByName;
atomic<uint64_t> gStray{0};

struct Dut : Device
{
    vp::Rng r{1};
    string in, out;
    int nsub = 1;
    bool multi = false;
    string desc;
    vector<unique_ptr<Chan>> chans;   // out 0..n-1, in 0..n-1
    atomic<double> lastTick{0}, lastTraffic{0};
    atomic<bool> busy{false};
    vector<int> inFlight;
    double runStart = 0;
    uint64_t moved = 0;
    atomic<bool> initTraffic{false};

    Chan& oc(int i) { return *chans[i]; }
    Chan& ic(int i) { return *chans[nsub + i]; }

    void burst(bool all)
    {
        busy = true;
        for (int i = 0; i < nsub; ++i) {
            unsigned n = r.chance(1, 6) ? 0 : 1 + r.below(15);
            for (unsigned k = 0; k < n; ++k) {
                uint64_t sz = 0;
                int64_t ret;
                if (multi) {
                    Parts p;
                    unsigned np = 1 + r.below(4);
                    for (unsigned j = 0; j < np; ++j) { size_t s = r.below(9000); sz += s; p.AddPart(NewMessageFor(out, i, s)); }
                    ret = Send(p, out, i, 5000);
                } else {
                    auto m = NewMessageFor(out, i, r.below(20000));
                    sz = m->GetSize();
                    ret = Send(m, out, i, 5000);
                }
                if (ret < 0) { if (!NewStatePending()) { vp::violation("rates:setup", "cannot send: " + to_string(ret)); } busy = false; return; }
                lock_guard<mutex> l(gM);
                ++oc(i).c.mOut;
                oc(i).c.bOut += sz;
                ++inFlight[i];
                ++moved;
            }
            unsigned take = all ? inFlight[i] : r.below(inFlight[i] + 1);
            for (unsigned k = 0; k < take; ++k) {
                int64_t ret;
                if (multi) { Parts p; ret = Receive(p, in, i, 5000); }
                else { auto m = NewMessageFor(in, i); ret = Receive(m, in, i, 5000); }
                if (ret < 0) { if (!NewStatePending()) { vp::violation("rates:setup", "cannot receive: " + to_string(ret)); } busy = false; return; }
                lock_guard<mutex> l(gM);
                ++ic(i).c.mIn;
                ic(i).c.bIn += static_cast<uint64_t>(ret);
                --inFlight[i];
            }
        }
        lastTraffic = vp::now();
        busy = false;
    }
    void InitTask() override { if (initTraffic) { burst(true); burst(true); } }
    void PreRun() override
    {
        lock_guard<mutex> l(gM);
        // what was moved before does not count
        for (auto& c : chans) {
            auto& s = GetChannel(c->name.substr(0, c->name.find('[')), c->name[c->name.find('[') + 1] - '0');
            VP_CHECK(s.GetMessagesRx() == c->c.mIn && s.GetBytesRx() == c->c.bIn && s.GetMessagesTx() == c->c.mOut && s.GetBytesTx() == c->c.bOut, "rates:counters", "%s: counters differ from the traffic (%s)", c->name.c_str(), desc.c_str());
            c->lines.clear();
            c->lines.push_back({vp::now(), 0, 0, 0, 0, c->c, true, State::Running});
        }
        lastTick = vp::now();
        runStart = vp::now();
    }
    void Run() override
    {
        uint64_t done = 0;
        while (!NewStatePending()) {
            // the logger looks at whole seconds after the start of the run, or after it looked last
            double since = vp::now() - lastTick;
            double ph = since - floor(since);
            uint64_t slot = static_cast<uint64_t>((vp::now() - runStart) * 8);
            if (ph > 0.3 && ph < 0.6 && slot != done) { done = slot; burst(false); }
            WaitFor(chrono::milliseconds(20));
            vp::tick();
        }
    }
};

void sink(int sev, const string& s)
{
    if (sev != static_cast<int>(fair::Severity::info)) { return; }
    size_t a = s.find("]: in: ");
    if (a == string::npos) { return; }
    size_t b = s.find_first_not_of(' ');
    string name = s.substr(b, a + 1 - b);
    Line l{};
    l.t = vp::now();
    char e = 0;
    if (sscanf(s.c_str() + a + 3, "in: %lf (%lf MB) out: %lf (%lf MB%c", &l.mIn, &l.mbIn, &l.mOut, &l.mbOut, &e) != 5 || e != ')') { vp::violation("rates:format", "cannot read the line '" + s + "'"); return; }
    lock_guard<mutex> g(gM);
    auto it = gByName.find(name);
    if (it == gByName.end()) { ++gStray; return; }
    Dut& d = *it->second.first;
    Chan& c = *it->second.second;
    l.c = c.c;
    l.calm = !d.busy && l.t - d.lastTraffic > 0.1;
    l.st = d.GetCurrentState();
    d.lastTick = l.t;
    c.lines.push_back(l);
}

// the lines of one run
void judge(Dut& d, double ended)
{
    lock_guard<mutex> g(gM);
    for (auto& cp : d.chans) {
        auto& c = *cp;
        auto& L = c.lines;
        string who = fmt("%s every %d s (%s)", c.name.c_str(), c.interval, d.desc.c_str());
        double ran = ended - d.runStart;
        if (c.interval == 0) { VP_CHECK(L.size() == 1, "rates:unasked", "%zu lines for a channel without rate logging: %s", L.size() - 1, who.c_str()); continue; }
        // one per interval, and possibly one when the run ends early
        size_t atMost = static_cast<size_t>(ran / c.interval + 1.2) + 1, atLeast = static_cast<size_t>(max(0.0, (ran * 0.7 - 0.3) / c.interval));
        VP_CHECK(L.size() - 1 <= atMost && L.size() - 1 >= atLeast, "rates:count", "%zu lines in %.2f s: %s", L.size() - 1, ran, who.c_str());
        double sum[4] = {0, 0, 0, 0};
        bool calm = true;
        for (size_t i = 1; i < L.size(); ++i) {
            double dt = L[i].t - L[i - 1].t;
            VP_CHECK(L[i].st == State::Running, "rates:state", "a line was logged in state %s: %s", GetStateName(L[i].st).c_str(), who.c_str());
            if (i + 1 < L.size()) { VP_CHECK(dt > c.interval * 0.85, "rates:interval", "lines %.3f s apart: %s", dt, who.c_str()); }
            double x[4] = {static_cast<double>(L[i].c.mIn - L[i - 1].c.mIn), (L[i].c.bIn - L[i - 1].c.bIn) / 1e6, static_cast<double>(L[i].c.mOut - L[i - 1].c.mOut), (L[i].c.bOut - L[i - 1].c.bOut) / 1e6};
            double y[4] = {L[i].mIn, L[i].mbIn, L[i].mOut, L[i].mbOut};
            for (int k = 0; k < 4; ++k) { sum[k] += y[k] * dt; }
            calm = calm && L[i].calm && L[i - 1].calm;
            if (!L[i].calm || !L[i - 1].calm) { vp::count("lines_during_traffic"); continue; }
            if (dt < 0.05) { vp::count("lines_too_close"); continue; }
            vp::count("lines_judged");
            static const char* what[] = {"messages in", "MB in", "messages out", "MB out"};
            for (int k = 0; k < 4; ++k) {
                double want = x[k] / dt;
                if (x[k] == 0) { VP_CHECK(y[k] == 0, "rates:value", "%s: %g/s logged, nothing moved: %s", what[k], y[k], who.c_str()); continue; }
                VP_CHECK(fabs(y[k] - want) <= want * (0.12 + 0.02 / dt), "rates:value", "%s: %g/s logged, %g moved in %.3f s is %g/s: %s", what[k], y[k], x[k], dt, want, who.c_str());
            }
            // all rates of a line are over the same time
            double len[4];
            int nl = 0;
            for (int k = 0; k < 4; ++k) { if (x[k] > 0 && y[k] > 0) { len[nl++] = x[k] / y[k]; } }
            for (int k = 1; k < nl; ++k) { VP_CHECK(fabs(len[k] - len[0]) < 2e-4 * len[0], "rates:value", "the rates of one line do not fit together: %g msg %g MB in, %g msg %g MB out for %g %g %g %g: %s", y[0], y[1], y[2], y[3], x[0], x[1], x[2], x[3], who.c_str()); }
        }
        if (L.size() > 1) {
            double all[4] = {static_cast<double>(L.back().c.mIn - L[0].c.mIn), (L.back().c.bIn - L[0].c.bIn) / 1e6, static_cast<double>(L.back().c.mOut - L[0].c.mOut), (L.back().c.bOut - L[0].c.bOut) / 1e6};
            if (calm) { for (int k = 0; k < 4; ++k) { VP_CHECK(fabs(sum[k] - all[k]) <= 0.12 * all[k] + 1e-9, "rates:sum", "the lines add up to %g, %g were moved: %s", sum[k], all[k], who.c_str()); } }
        }
    }
}

void deviceCase(uint64_t i, vp::Rng& r, ProgOptions& cfg, Dut& d)
{
    d.r = vp::Rng(r.next());
    d.nsub = 1 + static_cast<int>(r.below(3));
    d.multi = r.chance(1, 2);
    d.inFlight.assign(d.nsub, 0);
    string tr = r.chance(1, 2) ? "zeromq" : "shmem";
    string tag = fmt("%llux%llu", (unsigned long long)vp::S().seed, (unsigned long long)i);
    d.out = "out" + tag;
    d.in = (r.chance(1, 2) ? "in" : "longer-name-in") + tag;
    cfg.SetProperty<string>("id", "rates" + tag);
    cfg.SetProperty<string>("transport", tr);
    cfg.SetProperty<string>("session", tx::newSession());
    cfg.SetProperty<size_t>("shm-segment-size", 4u << 20);
    d.desc = tr + fmt(", %d sub-channels, %s, intervals", d.nsub, d.multi ? "multi-part" : "single");
    bool any = false;
    for (int side = 0; side < 2; ++side) {
        for (int k = 0; k < d.nsub; ++k) {
            string key = "chans." + (side == 0 ? d.out : d.in) + fmt(".%d.", k);
            cfg.SetProperty<string>(key + "type", side == 0 ? "push" : "pull");
            cfg.SetProperty<string>(key + "method", side == 0 ? "bind" : "connect");
            cfg.SetProperty<string>(key + "address", "inproc://r" + tag + fmt("_%d", k));
            cfg.SetProperty<string>(key + "transport", "default");
            int n = r.pick(vector<int>{0, 1, 1, 2, 2, 3});
            if (side == 1 && k == d.nsub - 1 && !any) { n = 2; }
            any = any || n > 0;
            if (n == 1 && r.chance(1, 2)) { } else { cfg.SetProperty<int>(key + "rateLogging", n); }   // 1 is the default
            auto c = make_unique<Chan>();
            c->name = (side == 0 ? d.out : d.in) + fmt("[%d]", k);
            c->interval = n;
            d.desc += fmt(" %d", n);
            d.chans.push_back(move(c));
        }
    }
    d.initTraffic = r.chance(1, 2);
    { lock_guard<mutex> l(gM); for (auto& c : d.chans) { gByName[c->name] = {&d, c.get()}; } }
    d.SetTransport(tr);
    d.SetConfig(cfg);
    thread t([&] { try { d.RunStateMachine(); } catch (exception& e) { vp::violation("rates:setup", string("device failed: ") + e.what()); } });
    auto go = [&](Transition x, State s) { d.ChangeStateOrThrow(x); d.WaitForState(s); };
    go(Transition::InitDevice, State::InitializingDevice);
    go(Transition::CompleteInit, State::Initialized);
    go(Transition::Bind, State::Bound);
    go(Transition::Connect, State::DeviceReady);
    go(Transition::InitTask, State::Ready);
    for (int c = 0; c < 2; ++c) {
        go(Transition::Run, State::Running);
        double secs = c == 0 ? 5.2 + 0.1 * r.below(14) : 1.3 + 0.1 * r.below(20);
        vp::sleepMs(static_cast<long>(secs * 1000));
        double t0 = vp::now();
        d.ChangeStateOrThrow(Transition::Stop);
        d.WaitForState(State::Ready);
        double el = vp::now() - t0;
        VP_CHECK(el < 6, "rates:stop", "leaving RUNNING took %.2f s (%s)", el, d.desc.c_str());
        judge(d, vp::now());
        { lock_guard<mutex> l(gM); for (auto& x : d.chans) { x->lines.clear(); } }
        vp::sleepMs(static_cast<long>(r.below(100)));
    }
    go(Transition::ResetTask, State::DeviceReady);
    { lock_guard<mutex> l(gM); for (auto& c : d.chans) { VP_CHECK(c->lines.empty(), "rates:state", "a line was logged after RUNNING (%s)", d.desc.c_str()); } }
    go(Transition::ResetDevice, State::Idle);
    go(Transition::End, State::Exiting);
    t.join();
    vp::count("messages_moved", d.moved);
    vp::evaluated(vp::mix(vp::hash(d.desc), d.moved), d.moved > 0);
    vp::sample(d.desc + fmt(": %llu messages", (unsigned long long)d.moved), 4);
    { lock_guard<mutex> l(gM); for (auto& c : d.chans) { gByName.erase(c->name); } }
}

// several devices at once: each is mostly asleep
void logCase(uint64_t i, vp::Rng& r)
{
    unsigned n = static_cast<unsigned>(vp::optU("devices", 10));
    vector<uint64_t> seeds(n);
    for (auto& s : seeds) { s = r.next(); }
    vp::phase("rate logs of several devices");
    vp::runThreads(n, [&](unsigned k) {
        vp::Rng q(seeds[k]);
        ProgOptions cfg;
        Dut d;
        deviceCase(i * 100 + k, q, cfg, d);
    });
    VP_CHECK(gStray == 0, "rates:stray", "%llu lines for channels that do not exist (any more)", (unsigned long long)gStray.load());
}

// ---------------------------------------------------------------- the rate of the conditional loop
struct Loop : Device
{
    atomic<uint64_t> n{0};
    long bodyUs = 0;
    bool ConditionalRun() override { ++n; if (bodyUs) { vp::sleepUs(bodyUs); } vp::tick(); return true; }
};

void loopCase(uint64_t i, vp::Rng& r)
{
    unsigned nd = 8;
    vector<uint64_t> seeds(nd);
    for (auto& s : seeds) { s = r.next(); }
    vp::phase("rate of the conditional loop");
    vp::runThreads(nd, [&](unsigned k) {
        vp::Rng q(seeds[k]);
        ProgOptions cfg;
        Loop d;
        const vector<float> rates{0.f, 0.f, 5.f, 20.f, 100.f, 500.f, 2.5f};
        cfg.SetProperty<string>("id", fmt("loop%llu_%u", (unsigned long long)i, k));
        cfg.SetProperty<string>("session", tx::newSession());
        d.SetConfig(cfg);
        thread t([&] { try { d.RunStateMachine(); } catch (exception& e) { vp::violation("rates:setup", string("device failed: ") + e.what()); } });
        auto go = [&](Transition x, State s) { d.ChangeStateOrThrow(x); d.WaitForState(s); };
        const int cycles = q.chance(1, 4) ? 1 : 2;
        float before = -1;
        for (int cycle = 0; cycle < cycles; ++cycle) {
        // every initialization takes the rate configured by then
        float rate = q.pick(rates);
        while (rate == before) { rate = q.pick(rates); }
        d.bodyUs = q.chance(1, 3) ? static_cast<long>(q.below(8000)) : 0;
        cfg.SetProperty<float>("rate", rate);
        string desc = fmt("rate %g, body %ld us", rate, d.bodyUs) + (cycle ? fmt(", initialized again, rate %g before", before) : "");
        before = rate;
        go(Transition::InitDevice, State::InitializingDevice);
        go(Transition::CompleteInit, State::Initialized);
        go(Transition::Bind, State::Bound);
        go(Transition::Connect, State::DeviceReady);
        go(Transition::InitTask, State::Ready);
        double secs = cycles == 1 ? 2.5 : 1.4;
        uint64_t n0 = d.n;
        double t0 = vp::now();
        go(Transition::Run, State::Running);
        vp::sleepMs(static_cast<long>(secs * 1000));
        double t1 = vp::now();
        d.ChangeStateOrThrow(Transition::Stop);
        d.WaitForState(State::Ready);
        double t2 = vp::now();
        uint64_t n = d.n - n0;
        // a loop that fell behind may catch up what it missed, never more
        if (rate > 0) {
            VP_CHECK(n <= rate * (t2 - t0) * 1.08 + 3, "rates:loop", "%llu runs in %.2f s (%s)", (unsigned long long)n, t2 - t0, desc.c_str());
            double possible = d.bodyUs ? min<double>(rate, 1e6 / (d.bodyUs + 1500.0)) : rate;
            VP_CHECK(n >= possible * (t1 - t0) * 0.35 - 2, "rates:loop", "only %llu runs in %.2f s (%s)", (unsigned long long)n, t1 - t0, desc.c_str());
        } else {
            VP_CHECK(n > (d.bodyUs ? 1e6 / (d.bodyUs + 4000.0) : 5000.0) * (t1 - t0) * 0.1, "rates:loop", "only %llu runs in %.2f s without a limit (%s)", (unsigned long long)n, t1 - t0, desc.c_str());
        }
        VP_CHECK(t2 - t1 < 5, "rates:stop", "leaving RUNNING took %.2f s (%s)", t2 - t1, desc.c_str());
        go(Transition::ResetTask, State::DeviceReady);
        go(Transition::ResetDevice, State::Idle);
        vp::count("loop_runs", n);
        vp::evaluated(vp::mix(vp::hash(desc), n), n > 0);
        vp::sample(desc + fmt(": %llu runs in %.2f s", (unsigned long long)n, t1 - t0), 4);
        }
        d.ChangeStateOrThrow(Transition::End);
        d.WaitForState(State::Exiting);
        t.join();
    });
}

} // namespace

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    auto& m = vp::S().mode;
    vp::watchdog();
    // Boost.MSM fills a static table (shared by all state machines) on first use, without synchronization
    { StateMachine warm; warm.ChangeState(Transition::InitDevice); }
    if (m == "log") {
        fair::Logger::Threshold() = static_cast<int>(fair::Severity::info);
        fair::Logger::Sink() = sink;
        vp::forCases(1, logCase);
        fair::Logger::Sink() = nullptr;
    }
    else if (m == "loop") { vp::forCases(1, loopCase); }
    else { return 2; }
    return vp::finish();
}
