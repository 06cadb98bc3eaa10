// C19: tools - semaphore, instance limiter, uuid, rate limiter (on virtual time), execute, version, strings, network.
#include "vp.h"

#include <fairmq/tools/Exceptions.h>
#include <fairmq/tools/InstanceLimit.h>
#include <fairmq/tools/Network.h>
#include <fairmq/tools/Process.h>
#include <fairmq/tools/RateLimit.h>
#include <fairmq/tools/Semaphore.h>
#include <fairmq/tools/Strings.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/tools/Version.h>

#include <arpa/inet.h>
#include <cmath>
#include <fstream>
#include <ifaddrs.h>
#include <iostream>
#include <memory>
#include <netinet/in.h>
#include <regex>
#include <set>
#include <sys/wait.h>
#include <time.h>

using namespace fair::mq::tools;

// ------------------------------------------------------------------ virtual time (rate limiter)
static bool gVirtual = false;
static int64_t gNow = 0;           // ns
static int64_t gOversleepPct = 0;  // sleeps take this much longer
static int64_t gOversleepNs = 0;
static uint64_t gSleeps = 0;

extern "C" std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
extern "C" std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{
    if (gVirtual) { return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(gNow)); }
    return __real__ZNSt6chrono3_V212steady_clock3nowEv();
}
extern "C" int __real_nanosleep(const timespec*, timespec*);
extern "C" int __wrap_nanosleep(const timespec* a, timespec* b)
{
    static thread_local bool mainThread = getpid() == static_cast<pid_t>(gettid());
    if (gVirtual && mainThread) {
        int64_t ns = a->tv_sec * 1000000000LL + a->tv_nsec;
        gNow += ns + ns * gOversleepPct / 100 + gOversleepNs;
        ++gSleeps;
        return 0;
    }
    return __real_nanosleep(a, b);
}
extern "C" int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
extern "C" int __wrap_clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b)
{
    if (gVirtual && getpid() == static_cast<pid_t>(gettid())) {
        int64_t ns = a->tv_sec * 1000000000LL + a->tv_nsec;
        if (f & TIMER_ABSTIME) { gNow = std::max(gNow, ns + gOversleepNs); } else { gNow += ns + gOversleepNs; }
        ++gSleeps;
        return 0;
    }
    return __real_clock_nanosleep(c, f, a, b);
}

namespace
{

// ------------------------------------------------------------------ semaphore
template<typename Sem>
void semCase(Sem& s, std::vector<Sem*> handles, size_t init, vp::Rng& r, const char* what)
{
    const unsigned T = static_cast<unsigned>(r.range(2, 7));
    // every wait can be satisfied: waits <= init + signals in total
    std::vector<unsigned> waits(T), signals(T);
    size_t W = 0, G = 0;
    for (unsigned t = 0; t < T; ++t) {
        if (r.chance(1, 2)) { waits[t] = static_cast<unsigned>(r.range(0, 25)); } else { signals[t] = static_cast<unsigned>(r.range(0, 25)); }
        W += waits[t];
        G += signals[t];
    }
    unsigned extra = static_cast<unsigned>(r.below(3));
    while (init + G < W + extra) { unsigned t = r.below(T); if (waits[t] == 0) { ++signals[t]; ++G; } else if (r.chance(1, 2)) { --waits[t]; --W; } }
    std::atomic<size_t> begun{0}, passed{0}, ended{0};
    vp::resetScheduleHash();
    vp::perturb(static_cast<unsigned>(r.range(0, 3)), r.next());
    uint64_t cs = r.next();
    vp::phase(what);
    vp::runThreads(T, [&](unsigned t) {
        vp::Rng q(cs, t + 1);
        Sem& h = *handles[t % handles.size()];
        for (unsigned i = 0; i < waits[t]; ++i) {
            h.Wait();
            size_t p = ++passed, b = begun.load();
            VP_CHECK(p <= init + b, "semaphore:too-many-passed", "%zu waits passed with initial count %zu and %zu signals", p, init, b);
            vp::tick();
        }
        for (unsigned i = 0; i < signals[t]; ++i) {
            if (q.chance(1, 6)) { vp::sleepUs(q.below(200)); }
            ++begun;
            h.Signal();
            ++ended;
            if (q.chance(1, 5)) {
                size_t c = h.GetCount();
                VP_CHECK(c <= init + begun.load(), "semaphore:count-too-high", "GetCount %zu > %zu", c, init + begun.load());
            }
            vp::tick();
        }
    });
    vp::perturb(0, 0);
    size_t want = init + G - W;
    for (auto h : handles) { VP_CHECK(h->GetCount() == want, "semaphore:final-count", "%s: count %zu, expected %zu = %zu + %zu - %zu", what, h->GetCount(), want, init, G, W); }
    // the remaining count lets exactly that many pass without blocking
    for (size_t i = 0; i < want; ++i) { s.Wait(); vp::tick(); }
    VP_CHECK(s.GetCount() == 0, "semaphore:final-count", "count %zu after consuming everything", s.GetCount());
    // and the next wait blocks until the next signal
    if (r.chance(1, 4)) {
        std::atomic<int> st{0};
        std::thread th([&] { s.Wait(); st = 1; });
        vp::sleepMs(3);
        VP_CHECK(st == 0, "semaphore:too-many-passed", "wait passed at count 0 without signal");
        s.Signal();
        th.join();
    }
    vp::interleaving(vp::scheduleHash());
    vp::count("waits", W);
    vp::count("signals", G);
    vp::evaluated(vp::mix(vp::scheduleHash(), vp::mix(W, G)), W > 0);
    vp::sample(vp::fmt("%s: %u threads, initial %zu, %zu signals, %zu waits", what, T, init, G, W));
}

void semaphoreMode(uint64_t, vp::Rng& r)
{
    size_t init = r.chance(1, 3) ? 0 : r.below(12);
    if (r.chance(1, 2)) {
        if (init == 0 && r.chance(1, 2)) { Semaphore s; semCase<Semaphore>(s, {&s}, 0, r, "Semaphore()"); }
        else { Semaphore s(init); VP_CHECK(s.GetCount() == init, "semaphore:initial-count", "%zu != %zu", s.GetCount(), init); semCase<Semaphore>(s, {&s}, init, r, "Semaphore(n)"); }
    } else {
        std::unique_ptr<SharedSemaphore> a = init == 0 && r.chance(1, 2) ? std::make_unique<SharedSemaphore>() : std::make_unique<SharedSemaphore>(init);
        VP_CHECK(a->GetCount() == init, "semaphore:initial-count", "%zu != %zu", a->GetCount(), init);
        SharedSemaphore b(*a), c(b);
        SharedSemaphore d(5);
        if (r.chance(1, 2)) { d = *a; semCase<SharedSemaphore>(b, {a.get(), &b, &c, &d}, init, r, "SharedSemaphore"); }
        else { semCase<SharedSemaphore>(b, {a.get(), &b, &c}, init, r, "SharedSemaphore"); VP_CHECK(d.GetCount() == 5, "semaphore:unrelated-shared", "an unrelated semaphore changed to %zu", d.GetCount()); }
        a.reset();
        b.Signal();
        VP_CHECK(c.GetCount() == 1, "semaphore:shared-after-destroy", "count not shared after one handle is gone: %zu", c.GetCount());
    }
}

// ------------------------------------------------------------------ instance limiter
struct TagA { friend std::ostream& operator<<(std::ostream& o, const TagA&) { return o << "A"; } };
struct TagB { friend std::ostream& operator<<(std::ostream& o, const TagB&) { return o << "B"; } };

template<typename Tag, int Max>
struct LimitProbe
{
    std::vector<std::unique_ptr<InstanceLimiter<Tag, Max>>> live;
    void step(vp::Rng& r, const char* what)
    {
        if (r.chance(3, 5)) {
            bool ok = true;
            try { live.push_back(std::make_unique<InstanceLimiter<Tag, Max>>()); } catch (const std::runtime_error&) { ok = false; }
            if (ok) { VP_CHECK(static_cast<int>(live.size()) <= Max, "limiter:too-many", "%s<%d> admitted %zu instances", what, Max, live.size()); }
            else { VP_CHECK(static_cast<int>(live.size()) >= Max, "limiter:refused-free-slot", "%s<%d> refused with %zu instances", what, Max, live.size()); }
        } else if (!live.empty()) {
            std::swap(live[r.below(live.size())], live.back());
            live.pop_back();
        }
        if (!live.empty()) { VP_CHECK(live.front()->GetCount() == static_cast<int>(live.size()), "limiter:count", "GetCount %d with %zu instances", live.front()->GetCount(), live.size()); }
    }
};

void limiterMode(uint64_t, vp::Rng& r)
{
    LimitProbe<TagA, 1> a1;
    LimitProbe<TagA, 3> a3;
    LimitProbe<TagB, 1> b1;
    LimitProbe<TagB, 7> b7;
    uint64_t h = 0;
    int n = static_cast<int>(r.range(5, 120));
    for (int i = 0; i < n; ++i) {
        unsigned w = r.below(4);
        h = vp::mix(h, w);
        if (w == 0) { a1.step(r, "A"); } else if (w == 1) { a3.step(r, "A"); } else if (w == 2) { b1.step(r, "B"); } else { b7.step(r, "B"); }
    }
    vp::evaluated(vp::mix(h, a1.live.size() + 10 * a3.live.size() + 100 * b1.live.size() + 1000 * b7.live.size()));
    vp::sample(vp::fmt("limiters after %d steps hold %zu/1 %zu/3 %zu/1 %zu/7", n, a1.live.size(), a3.live.size(), b1.live.size(), b7.live.size()));
}

// ------------------------------------------------------------------ uuid
void uuidMode(uint64_t, vp::Rng& r)
{
    const unsigned T = static_cast<unsigned>(r.range(1, 6)), N = static_cast<unsigned>(r.range(20, 300));
    std::vector<std::vector<std::string>> ids(T);
    std::vector<std::vector<size_t>> hs(T);
    vp::runThreads(T, [&](unsigned t) {
        for (unsigned i = 0; i < N; ++i) { ids[t].push_back(Uuid()); if (i % 4 == 0) { hs[t].push_back(UuidHash()); } vp::tick(); }
    });
    // and from forked processes (a generator state must not be inherited)
    std::vector<std::string> forked;
    for (int c = 0; c < 2; ++c) {
        int p[2];
        if (pipe(p)) { break; }
        pid_t pid = fork();
        if (pid == 0) {
            std::string o;
            for (int i = 0; i < 5; ++i) { o += Uuid() + "\n"; }
            if (write(p[1], o.data(), o.size()) < 0) {}
            _exit(0);
        }
        close(p[1]);
        std::string o;
        char b[512];
        ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0) { o.append(b, n); }
        close(p[0]);
        waitpid(pid, nullptr, 0);
        std::istringstream is(o);
        std::string l;
        while (std::getline(is, l)) { forked.push_back(l); }
    }
    for (int i = 0; i < 5; ++i) { forked.push_back(Uuid()); }
    static std::set<std::string> all;
    static std::set<size_t> allh;
    ids.push_back(forked);
    size_t n = 0;
    auto wellFormed = [](const std::string& u) {
        if (u.size() != 36) { return false; }
        for (size_t i = 0; i < 36; ++i) {
            if (i == 8 || i == 13 || i == 18 || i == 23) { if (u[i] != '-') { return false; } }
            else if (!isxdigit(static_cast<unsigned char>(u[i]))) { return false; }
        }
        return u[14] == '4' && strchr("89abAB", u[19]) != nullptr;
    };
    for (auto& v : ids) {
        for (auto& u : v) {
            ++n;
            VP_CHECK(wellFormed(u), "uuid:malformed", "'%s' is not a random (version 4) UUID", u.c_str());
            VP_CHECK(all.insert(u).second, "uuid:repeated", "'%s' was generated twice", u.c_str());
        }
    }
    for (auto& v : hs) { for (auto x : v) { VP_CHECK(allh.insert(x).second, "uuid:hash-repeated", "%zu was generated twice", x); } }
    vp::count("uuids", n);
    vp::evaluated(vp::hash(ids[0][0]));
    vp::sample(vp::fmt("%zu ids from %u threads and 2 forked processes, e.g. %s", n, T, ids[0][0].c_str()));
}

// ------------------------------------------------------------------ rate limiter
// virtual time: the loop body advances the clock, sleeping advances the clock
void rateMode(uint64_t, vp::Rng& r)
{
    static const std::vector<double> rates{0.1, 0.25, 0.4, 0.5, 0.7, 0.9, 1.0, 1.5, 3, 10, 42, 100, 250, 999, 1000, 1234.5, 5000, 20000, 100000, 1e6, 1e7, 0, -5};
    double rate = r.chance(2, 3) ? r.pick(rates) : std::pow(10.0, -1.0 + 7.0 * (r.below(10000) / 10000.0));
    double eff = rate <= 0 ? 1e9 : rate;
    double period = 1e9 / eff;   // ns
    static const std::vector<double> loads{0, 0.001, 0.1, 0.5, 0.8, 0.95, 1.2, 2, 5};
    double load = r.pick(loads);
    unsigned shape = r.below(4);   // constant, jitter, slow start then fast, alternating phases
    gOversleepPct = r.chance(1, 3) ? r.below(10) : 0;
    gOversleepNs = r.chance(1, 2) ? r.below(80000) : 0;
    gVirtual = true;
    gNow = 1000000000LL * static_cast<int64_t>(r.range(1, 1000000));
    gSleeps = 0;
    vp::phase("rate");
    auto bodyNs = [&](uint64_t i, uint64_t n) -> double {
        switch (shape) {
            case 1: return period * load * (0.5 + r.below(1000) / 1000.0);
            case 2: return i < n / 8 ? period * 3 : period * load;
            case 3: return (i / std::max<uint64_t>(1, n / 10)) % 2 ? period * load : period * load * 0.3;
            default: return period * load;
        }
    };
    RateLimiter lim(static_cast<float>(rate));
    // run long enough in virtual time for the long-term rate to be meaningful: >= 60 periods and >= 40 control steps
    uint64_t n = static_cast<uint64_t>(std::max(400.0, std::min(400000.0, eff * 6.0)));
    double acc = 0;
    std::vector<double> t;
    t.reserve(n + 1);
    t.push_back(static_cast<double>(gNow));
    int64_t start = gNow;
    for (uint64_t i = 0; i < n; ++i) {
        acc += bodyNs(i, n);
        int64_t whole = static_cast<int64_t>(acc);
        gNow += whole;
        acc -= static_cast<double>(whole);
        lim.maybe_sleep();
        t.push_back(static_cast<double>(gNow));
        if ((i & 0xfff) == 0) { vp::tick(); }
    }
    gVirtual = false;
    // long-term: the second half of the run (after the controller settled), and it must have covered enough virtual time
    double wnd = (t[n] - t[n / 2]) * 1e-9, got = (n - n / 2) / std::max(1e-12, wnd);
    bool meaningful = wnd >= 40 * period * 1e-9 && (wnd >= 1.5 || n == 400000 ? wnd >= 0.4 : false);
    double total = (t[n] - static_cast<double>(start)) * 1e-9;
    if (meaningful && rate > 0) {
        if (shape != 3 || load <= 0.8) VP_CHECK(got <= eff * 1.03, shape == 2 ? "rate:too-fast-after-slow-phase" : "rate:too-fast", "requested %g Hz, long-term %g Hz (body %g of a period, shape %u, %llu iterations in %.2f s, %llu sleeps)", eff, got, load, shape,
                 static_cast<unsigned long long>(n), total, static_cast<unsigned long long>(gSleeps));
        double avgLoad = load * (shape == 3 ? 1.0 : shape == 1 ? 1.0 : 1.0);
        if (avgLoad <= 0.8 && shape != 2) {
            VP_CHECK(got >= eff * (shape == 1 ? 0.9 : 0.95), "rate:too-slow", "requested %g Hz, long-term only %g Hz (body %g of a period, shape %u, %.2f s)", eff, got, load, shape, total);
        } else if (load >= 1.2 && shape == 0) {
            // body alone is slower than the rate: the limiter must not add noticeable delay
            VP_CHECK(got >= (eff / load) * 0.96, "rate:needless-delay", "body allows %g Hz, long-term only %g Hz", eff / load, got);
        }
        vp::count("rates_judged");
    }
    vp::count("iterations", n);
    vp::count("sleeps", gSleeps);
    vp::evaluated(vp::mix(vp::mix(static_cast<uint64_t>(eff * 1000), static_cast<uint64_t>(load * 1000)), shape + 10 * gOversleepNs), meaningful);
    vp::sample(vp::fmt("%g Hz, body %g periods, shape %u: %g Hz over %.1f virtual s", rate, load, shape, got, total));
}
// a small run on the real clock: guards against the virtual clock being bypassed
void rateRealMode(uint64_t i, vp::Rng& r)
{
    std::vector<double> rates{50, 200, 1000, 5000};
    double rate = rates[i % rates.size()];
    double t0 = vp::now();
    RateLimiter lim(static_cast<float>(rate));
    uint64_t n = static_cast<uint64_t>(rate * 1.6), half = n / 2;
    double th = 0;
    volatile uint64_t x = 0;
    for (uint64_t k = 0; k < n; ++k) {
        if (k == half) { th = vp::now(); }
        for (int z = 0; z < static_cast<int>(r.below(50)); ++z) { x = x + z; }
        lim.maybe_sleep();
        vp::tick();
    }
    double got = (n - half) / (vp::now() - th);
    // only the upper side is judged: a loaded machine can only make the loop slower
    VP_CHECK(got <= rate * 1.15, "rate:too-fast", "requested %g Hz, got %g Hz on the real clock", rate, got);
    vp::evaluated(static_cast<uint64_t>(rate));
    vp::sample(vp::fmt("real clock: %g Hz requested, %g Hz over the second half, %.2f s", rate, got, vp::now() - t0));
}

// ------------------------------------------------------------------ execute
int childMain()
{
    // --child=1 with what to print, in "out" (blocks separated by ','): oN = stdout line of N chars, eN = stderr line, O/E same without newline,
    // i = echo one stdin line, s = wait for signal, then exit code
    std::string spec = vp::optS("spec", "");
    int code = static_cast<int>(vp::optU("code", 0));
    std::istringstream is(spec);
    std::string tok;
    unsigned no = 0, ne = 0;
    while (std::getline(is, tok, ',')) {
        char k = tok[0];
        size_t n = tok.size() > 1 ? strtoul(tok.c_str() + 1, nullptr, 10) : 0;
        auto content = [&](char c, unsigned i) { std::string s = std::string(1, c) + std::to_string(i) + ":"; s += std::string(n, static_cast<char>('a' + i % 26)); return s; };
        if (k == 'o') { std::string l = content('O', no++) + "\n"; fwrite(l.data(), 1, l.size(), stdout); }
        else if (k == 'O') { std::string l = content('O', no++); fwrite(l.data(), 1, l.size(), stdout); }
        else if (k == 'n') { fputs("\n", stdout); }
        else if (k == 'p') { fputs("O\n", stdout); }
        else if (k == 'P') { fputs("O", stdout); }
        else if (k == 'q') { fputs("E\n", stderr); }
        else if (k == 'Q') { fputs("E", stderr); }
        else if (k == 'e') { std::string l = content('E', ne++) + "\n"; fwrite(l.data(), 1, l.size(), stderr); }
        else if (k == 'E') { std::string l = content('E', ne++); fwrite(l.data(), 1, l.size(), stderr); }
        else if (k == 'f') { fflush(stdout); fflush(stderr); vp::sleepUs(n); }
        else if (k == 'i') { std::string l; std::getline(std::cin, l); std::string m = "in:" + l + "\n"; fwrite(m.data(), 1, m.size(), stdout); }
        else if (k == 's') { fflush(stdout); fflush(stderr); for (int z = 0; z < 60; ++z) { vp::sleepMs(500); } }
    }
    fflush(stdout);
    fflush(stderr);
    _exit(code);
}

std::string self() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); return n > 0 ? std::string(b, n) : ""; }

void execCase(uint64_t, vp::Rng& r, bool slow)
{
    std::string spec, prefix = r.chance(1, 3) ? "" : "[p" + std::to_string(r.below(100)) + "] ", input;
    std::vector<std::string> wantOut, wantErr;
    unsigned no = 0, ne = 0;
    int code = static_cast<int>(r.pick(std::vector<int>{0, 0, 1, 2, 7, 42, 127, 200, 255})), sig = -1;
    auto content = [&](char c, unsigned i, size_t n) { return std::string(1, c) + std::to_string(i) + ":" + std::string(n, static_cast<char>('a' + i % 26)); };
    auto add = [&](const std::string& t) { if (!spec.empty()) { spec += ","; } spec += t; };
    int k = static_cast<int>(r.range(0, slow ? 5 : 30));
    static const std::vector<size_t> lens{0, 1, 5, 80, 511, 512, 513, 1023, 4096, 5000, 65536, 70000};
    for (int i = 0; i < k; ++i) {
        size_t n = r.pick(lens);
        unsigned w = r.below(13);
        if (w == 12) { bool o = r.chance(1, 2); add(o ? "p" : "q"); (o ? wantOut : wantErr).push_back(o ? "O" : "E"); }
        else if (w < 6) { add("o" + std::to_string(n)); wantOut.push_back(content('O', no++, n)); }
        else if (w < 9) { add("e" + std::to_string(n)); wantErr.push_back(content('E', ne++, n)); }
        else if (w == 9) { add("n"); wantOut.push_back(""); }
        else { add("f" + std::to_string(r.below(2000))); }
    }
    bool unterminatedOut = false, unterminatedErr = false;
    if (slow) {
        unsigned kind = r.below(3);
        if (kind != 1) {
            input = "hello" + std::to_string(r.below(1000)) + std::string(r.below(3000), 'x');
            add("i");
            wantOut.push_back("in:" + input);
            if (r.chance(1, 2)) { add("i"); std::string l2 = "second"; wantOut.push_back("in:" + l2); input += "\n" + l2; }
            input += "\n";
        }
        if (kind != 0) { sig = r.chance(1, 2) ? SIGTERM : SIGKILL; add("s"); code = sig; }
    }
    if (sig == -1) {
        if (r.chance(1, 6)) { add("P"); wantOut.push_back("O"); unterminatedOut = true; }
        else if (r.chance(1, 3)) { size_t n = r.pick(lens); add("O" + std::to_string(n)); wantOut.push_back(content('O', no++, n)); unterminatedOut = true; }
        if (r.chance(1, 8)) { add("Q"); wantErr.push_back("E"); unterminatedErr = true; }
        else if (r.chance(1, 5)) { size_t n = r.pick(lens); add("E" + std::to_string(n)); wantErr.push_back(content('E', ne++, n)); unterminatedErr = true; }
    }
    std::string cmd = self() + " --child=1 --code=" + std::to_string(code) + " --spec=" + spec;
    std::ostringstream cap;
    auto old = std::cout.rdbuf(cap.rdbuf());
    vp::phase(slow ? "execute-input-signal" : "execute");
    std::string exc;
    execute_result res{"", -1};
    double t0 = vp::now();
    try { res = execute(cmd, prefix, input, sig); } catch (const std::exception& e) { exc = e.what(); }
    std::cout.rdbuf(old);
    double dt = vp::now() - t0;
    VP_CHECK(exc.empty(), "execute:threw", "%s", exc.c_str());
    VP_CHECK(res.exit_code == code, sig == -1 ? "execute:exit-code" : "execute:signal-exit-code", "exit code %d, expected %d", res.exit_code, code);
    VP_CHECK(cap.str() == res.console_out, "execute:console-differs", "text printed (%zu bytes) differs from text captured (%zu bytes)", cap.str().size(), res.console_out.size());
    if (sig != -1) { VP_CHECK(dt < 25, "execute:signal-not-delivered", "child ended after %.1f s", dt); }
    std::istringstream is(res.console_out);
    std::string l;
    std::vector<std::string> out, err;
    size_t ln = 0;
    bool exitSeen = false;
    while (std::getline(is, l)) {
        ++ln;
        VP_CHECK(l.compare(0, prefix.size(), prefix) == 0, "execute:prefix-missing", "line %zu '%s' lacks prefix '%s'", ln, l.substr(0, 60).c_str(), prefix.c_str());
        l = l.size() >= prefix.size() ? l.substr(prefix.size()) : l;
        if (ln == 1) { VP_CHECK(l == cmd, "execute:command-line", "first line is not the command"); continue; }
        if (ln == 2 && l.find("fair::mq::tools::execute: pid: ") == 0) { continue; }
        if (l == "fair::mq::tools::execute: exit code: " + std::to_string(code)) { exitSeen = true; continue; }
        if (l.compare(0, 7, "error: ") == 0) { err.push_back(l.substr(7)); } else { out.push_back(l); }
    }
    VP_CHECK(exitSeen, "execute:exit-line", "no exit code line");
    auto cmp = [&](const std::vector<std::string>& got, const std::vector<std::string>& want, const char* st, bool unterminated) {
        if (got == want) { return; }
        bool onlyLast = unterminated && got.size() + 1 == want.size() && std::equal(got.begin(), got.end(), want.begin());
        if (onlyLast) { vp::violation(std::string("execute:unterminated-last-line-lost:") + st, vp::fmt("the last line (%zu bytes, not newline-terminated) of %s is missing from the captured output; spec %s", want.back().size(), st, spec.c_str())); return; }
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i]) { ++i; }
        vp::violation(std::string("execute:output:") + st, vp::fmt("%s: %zu lines, expected %zu; first difference at line %zu ('%s' vs '%s'); spec %s", st, got.size(), want.size(), i,
            i < got.size() ? got[i].substr(0, 40).c_str() : "<none>", i < want.size() ? want[i].substr(0, 40).c_str() : "<none>", spec.c_str()));
    };
    cmp(out, wantOut, "stdout", unterminatedOut);
    cmp(err, wantErr, "stderr", unterminatedErr);
    vp::count("lines", out.size() + err.size());
    vp::evaluated(vp::mix(vp::hash(spec), code));
    vp::sample(vp::fmt("prefix '%s' exit %d input %zu bytes sig %d: %zu stdout + %zu stderr lines in %.2f s", prefix.c_str(), code, input.size(), sig, out.size(), err.size(), dt));
}

// ------------------------------------------------------------------ version, strings, network, scope guard
void miscMode(uint64_t i, vp::Rng& r)
{
    auto comp = [&]() -> int { return r.chance(3, 4) ? static_cast<int>(r.range(0, 3)) : r.chance(1, 2) ? static_cast<int>(r.range(0, 100000)) : static_cast<int>(r.pick(std::vector<int>{0, INT32_MAX, 255, 256, 65536, 9, 10})); };
    for (int k = 0; k < 50; ++k) {
        Version a{comp(), comp(), comp()};
        Version b = r.chance(1, 4) ? a : r.chance(1, 3) ? Version{a.fkMajor, a.fkMinor, comp()} : r.chance(1, 2) ? Version{a.fkMajor, comp(), comp()} : Version{comp(), comp(), comp()};
        int c = a.fkMajor != b.fkMajor ? (a.fkMajor < b.fkMajor ? -1 : 1) : a.fkMinor != b.fkMinor ? (a.fkMinor < b.fkMinor ? -1 : 1) : a.fkPatch != b.fkPatch ? (a.fkPatch < b.fkPatch ? -1 : 1) : 0;
        bool ok = (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0) && (a == b) == (c == 0) && (a != b) == (c != 0);
        std::string s = ToString(a);
        VP_CHECK(ok, "version:comparison", "%s vs %s", s.c_str(), ToString(b).c_str());
        VP_CHECK(s == std::to_string(a.fkMajor) + "." + std::to_string(a.fkMinor) + "." + std::to_string(a.fkPatch), "version:print", "%s", s.c_str());
        vp::evaluated(vp::mix(vp::mix(vp::mix(vp::mix(vp::mix(a.fkMajor, a.fkMinor), a.fkPatch), b.fkMajor), b.fkMinor), b.fkPatch));
    }
    auto rs = [&](size_t m) { std::string s; size_t n = r.below(m + 1); for (size_t k = 0; k < n; ++k) { s += r.chance(1, 12) ? '\0' : static_cast<char>('a' + r.below(2)); } return s; };
    for (int k = 0; k < 60; ++k) {
        std::string s = rs(6), t = rs(4);
        bool st = t.size() <= s.size() && s.substr(0, t.size()) == t, en = t.size() <= s.size() && s.substr(s.size() - t.size()) == t;
        VP_CHECK(StrStartsWith(s, t) == st, "strings:starts-with", "('%s','%s') -> %d", s.c_str(), t.c_str(), !st);
        VP_CHECK(StrEndsWith(s, t) == en, "strings:ends-with", "('%s','%s') -> %d", s.c_str(), t.c_str(), !en);
        vp::evaluated(vp::mix(vp::hash(s), vp::hash(t)), !t.empty());
    }
    {
        int a = static_cast<int>(r.range(-1000, 1000));
        std::string s = rs(8);
        VP_CHECK(ToString() == "" && ToString(a) == std::to_string(a) && ToString("x", a, ' ', s, "y") == "x" + std::to_string(a) + " " + s + "y", "strings:to-string", "%d '%s'", a, s.c_str());
        std::vector<std::string> av;
        size_t n = 1 + r.below(6);
        for (size_t k = 0; k < n; ++k) { std::string x = rs(5); av.push_back(std::string(x.c_str())); }
        std::vector<char*> argv;
        for (auto& x : av) { argv.push_back(&x[0]); }
        argv.push_back(nullptr);
        auto all = ToStrVector(static_cast<int>(n), argv.data(), false), rest = ToStrVector(static_cast<int>(n), argv.data());
        VP_CHECK(all == av, "strings:to-str-vector", "all arguments: %zu of %zu", all.size(), n);
        VP_CHECK(rest == std::vector<std::string>(av.begin() + 1, av.end()), "strings:to-str-vector", "without program name: %zu of %zu", rest.size(), n - 1);
    }
    {
        int calls = 0;
        bool en = r.chance(1, 2), flip = r.chance(1, 2);
        { CallOnDestruction g([&] { ++calls; }, en); if (flip) { if (en) { g.disable(); } else { g.enable(); } } }
        VP_CHECK(calls == ((en != flip) ? 1 : 0), "guard:calls", "enabled %d flipped %d: %d calls", en, flip, calls);
    }
    if (i % 10 == 0) {
        std::map<std::string, std::string> want;
        ifaddrs* ifs = nullptr;
        if (getifaddrs(&ifs) == 0) {
            for (auto p = ifs; p; p = p->ifa_next) {
                if (p->ifa_addr && p->ifa_addr->sa_family == AF_INET) {
                    char b[64];
                    inet_ntop(AF_INET, &reinterpret_cast<sockaddr_in*>(p->ifa_addr)->sin_addr, b, sizeof b);
                    want.insert({p->ifa_name, b});
                }
            }
            freeifaddrs(ifs);
            auto got = getHostIPs();
            VP_CHECK(got == want, "network:host-ips", "%zu interfaces reported, %zu exist", got.size(), want.size());
            for (auto& w : want) { VP_CHECK(getInterfaceIP(w.first) == w.second, "network:interface-ip", "%s -> %s, is %s", w.first.c_str(), getInterfaceIP(w.first).c_str(), w.second.c_str()); }
            VP_CHECK(getInterfaceIP("vp-none0").empty() && getInterfaceIP("").empty(), "network:unknown-interface", "an unknown interface has an address");
            vp::count("interfaces", want.size());
        }
        std::ifstream rt("/proc/net/route");
        std::string l, def;
        std::getline(rt, l);
        while (std::getline(rt, l)) {
            std::istringstream ls(l);
            std::string ifn, dest;
            ls >> ifn >> dest;
            if (dest == "00000000") { def = ifn; break; }
        }
        if (!def.empty()) {
            std::string g;
            try { g = getDefaultRouteNetworkInterface(); } catch (const DefaultRouteDetectionError& e) { g = std::string("error ") + e.what(); }
            VP_CHECK(g == def, "network:default-route", "'%s', is '%s'", g.c_str(), def.c_str());
        }
        VP_CHECK(getIpFromHostname("127.0.0.1") == "127.0.0.1", "network:resolve", "127.0.0.1 -> %s", getIpFromHostname("127.0.0.1").c_str());
        std::ifstream hosts("/etc/hosts");
        bool haveLocal = false;
        while (std::getline(hosts, l)) { if (std::regex_search(l, std::regex("^127\\.0\\.0\\.1\\s+.*\\blocalhost\\b"))) { haveLocal = true; } }
        if (haveLocal) { VP_CHECK(getIpFromHostname("localhost") == "127.0.0.1", "network:resolve", "localhost -> %s", getIpFromHostname("localhost").c_str()); }
        VP_CHECK(getIpFromHostname("256.256.256.256").empty() , "network:resolve-invalid", "an invalid address resolved to %s", getIpFromHostname("256.256.256.256").c_str());
    }
    vp::sample("version triples, prefix/suffix strings incl. empty and NUL, argument vectors, scope guards, interfaces");
}

}

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i) { if (std::string(argv[i]) == "--child=1") { vp::init(argc, argv); return childMain(); } }
    vp::init(argc, argv);
    vp::watchdog();
    auto& m = vp::S().mode;
    if (m == "sem") { vp::forCases(300, semaphoreMode); }
    else if (m == "limit") { vp::forCases(200, limiterMode); }
    else if (m == "uuid") { vp::forCases(20, uuidMode); }
    else if (m == "rate") { vp::forCases(200, rateMode); }
    else if (m == "ratereal") { vp::forCases(4, rateRealMode); }
    else if (m == "exec") { vp::forCases(40, [](uint64_t i, vp::Rng& r) { execCase(i, r, false); }); }
    else if (m == "execslow") { vp::forCases(3, [](uint64_t i, vp::Rng& r) { execCase(i, r, true); }); }
    else { vp::forCases(60, miscMode); }
    return vp::finish();
}
