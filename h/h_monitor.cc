// C22: the shared memory monitor watches, reports and cleans exactly what it should.
#include "tx.h"

#include <fairmq/shmem/Segment.h>
#include <pty.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <termios.h>

using namespace fair::mq;
using namespace tx;
using Strs = std::set<std::string>;

// ================================================================ delays right after the monitor has read the clock
namespace
{
std::atomic<unsigned> gClockDelay{0};   // permille of the readings
std::atomic<uint64_t> gClockReads{0}, gClockDelays{0};
thread_local uint64_t tR = 0;
}
extern "C" {
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv()
{
    auto t = __real__ZNSt6chrono3_V212system_clock3nowEv();
    unsigned d = gClockDelay.load(std::memory_order_relaxed);
    if (d) {
        gClockReads.fetch_add(1, std::memory_order_relaxed);
        if (!tR) { tR = reinterpret_cast<uintptr_t>(&tR) ^ (vp::S().seed * 0x9E3779B97F4A7C15ull) ^ 0x5DEECE66Dull; }
        tR ^= tR << 13;
        tR ^= tR >> 7;
        tR ^= tR << 17;
        if (tR % 1000 < d) { gClockDelays.fetch_add(1, std::memory_order_relaxed); vp::sleepMs(2 + (tR >> 20) % 240); }
    }
    return t;
}
}

namespace
{
std::string gSelf, gTool;

std::string filesDir(const std::string& sub)
{
    std::string d = scratch() + "/" + sub;
    mkdir(d.c_str(), 0755);
    return d + "/";
}
Strs objects(const std::string& shmId, const std::string& dir = "")
{
    Strs r;
    for (auto& o : shmObjects(shmId)) { r.insert(o); }
    if (!dir.empty()) {
        if (DIR* x = opendir(dir.c_str())) {
            while (auto e = readdir(x)) { std::string n = e->d_name; if (n.rfind("fmq_" + shmId + "_", 0) == 0) { r.insert(dir + n); } }
            closedir(x);
        }
    }
    return r;
}
void purge(const std::string& shmId, const std::string& dir = "") { for (auto& x : objects(shmId, dir)) { unlink((x[0] == '/' ? x : "/dev/shm/" + x).c_str()); } unlink(("/dev/shm/sem.fmq_" + shmId + "_ms").c_str()); }
std::string str(const Strs& s)
{
    std::string o;
    for (auto& x : s) { o += (o.empty() ? "" : ", ") + x.substr(x.rfind('/') == std::string::npos ? 0 : x.rfind('/') + 1); }
    return "{" + o + "}";
}
ino_t inodeOf(const std::string& n)
{
    struct stat st{};
    return stat(("/dev/shm/" + n).c_str(), &st) == 0 ? st.st_ino : 0;
}
bool announced(const std::string& shmId) { return inodeOf("sem.fmq_" + shmId + "_ms") != 0; }

// the machine may stand still for a while: what depends on heartbeats is not judged then
std::atomic<double> gLastStall{0}, gWorst{0};
void stallWatch()
{
    std::thread([] {
        sigset_t all;
        sigfillset(&all);
        pthread_sigmask(SIG_BLOCK, &all, nullptr);
        double last = vp::now();
        for (;;) {
            vp::sleepMs(10);
            double t = vp::now();
            if (t - last > gWorst) { gWorst = t - last; }
            if (t - last > 0.25) { gLastStall = t; }
            last = t;
        }
    }).detach();
}
bool stalled(double since) { return gLastStall.load() >= since; }

pid_t spawnv(const std::vector<std::string>& a, const std::string& outFile, const std::vector<std::string>& extraEnv = {})
{
    std::vector<char*> v, env;
    for (auto& x : a) { v.push_back(const_cast<char*>(x.c_str())); }
    v.push_back(nullptr);
    for (auto& x : extraEnv) { env.push_back(const_cast<char*>(x.c_str())); }
    for (char** e = environ; *e; ++e) {
        bool over = false;
        for (auto& x : extraEnv) { over |= strncmp(*e, x.c_str(), x.find('=') + 1) == 0; }
        if (!over) { env.push_back(*e); }
    }
    env.push_back(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(outFile.empty() ? "/dev/null" : outFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1);
        if (!outFile.empty() || !getenv("VP_LOG")) { dup2(fd, 2); }
        int in = open("/dev/null", O_RDONLY);
        dup2(in, 0);
        signal(SIGTERM, SIG_DFL);
        execve(a[0].c_str(), v.data(), env.data());
        _exit(99);
    }
    return pid;
}
bool reap(pid_t p, int& st, double limit)
{
    double t = vp::now();
    while (waitpid(p, &st, WNOHANG) == 0) {
        if (vp::now() - t > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return false; }
        vp::sleepMs(2);
        vp::tick();
    }
    return true;
}
std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct ToolResult { bool ended; int code; std::string out; };
ToolResult tool(std::vector<std::string> a, double limit = 30)
{
    a.insert(a.begin(), gTool);
    std::string f = scratch() + "/" + uniq("tool");
    pid_t p = spawnv(a, f, {"VP_LOG=info"});
    int st = 0;
    bool e = reap(p, st, limit);
    ToolResult r{e, WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + st, slurp(f)};
    unlink(f.c_str());
    vp::count("tool_runs");
    return r;
}

std::unique_ptr<ProgOptions> config(const std::string& session, uint16_t seg, size_t size, bool seq, bool monitor = false)
{
    auto c = std::make_unique<ProgOptions>();
    c->SetProperty<std::string>("session", session);
    c->SetProperty<uint16_t>("shm-segment-id", seg);
    c->SetProperty<size_t>("shm-segment-size", size);
    c->SetProperty<std::string>("shm-allocation", seq ? "simple_seq_fit" : "rbtree_best_fit");
    c->SetProperty<bool>("shm-monitor", monitor);
    return c;
}
struct Dev   // a device in this process (orderly end) or in another one (may be killed)
{
    pid_t pid = 0;
    std::string ready;
    std::unique_ptr<ProgOptions> cfg;
    std::shared_ptr<TransportFactory> f;
    std::vector<MessagePtr> msgs;
    std::vector<UnmanagedRegionPtr> regs;
};
void furnish(Dev& d, vp::Rng& r, const std::string& dir)
{
    for (unsigned i = r.below(3); i > 0; --i) {
        RegionConfig cfg;
        cfg.linger = 1;
        cfg.rcSegmentSize = r.chance(1, 2) ? 0 : 100000;
        if (r.chance(1, 3)) { cfg.path = dir; }
        cfg.removeOnDestruction = r.chance(3, 4);
        d.regs.push_back(d.f->CreateUnmanagedRegion(4096 + r.below(4096), RegionCallback([](void*, size_t, void*) {}), cfg));
    }
    for (unsigned i = r.below(4); i > 0; --i) { d.msgs.push_back(d.f->CreateMessage(1 + r.below(50000))); }
}
void join(Dev& d, const std::string& session, vp::Rng& r, const std::string& dir, bool process, bool monitor = false, std::vector<std::string> env = {})
{
    if (process) {
        d.ready = scratch() + "/" + uniq("ready");
        d.pid = spawnv({gSelf, "--mode=dev", "--session=" + session, "--seed=" + std::to_string(r.next() >> 1), "--dir=" + dir, "--ready=" + d.ready, std::string("--monitor=") + (monitor ? "1" : "0")}, "", env);
        double t = vp::now();
        while (access(d.ready.c_str(), F_OK) != 0 && vp::now() - t < 40) { vp::sleepMs(1); vp::tick(); }
        if (access(d.ready.c_str(), F_OK) != 0) { vp::violation("monitor:device-start", "a device process does not come up"); }
        unlink(d.ready.c_str());
    } else {
        d.cfg = config(session, r.below(2), 2u << 20, r.chance(1, 3), monitor);
        d.f = TransportFactory::CreateTransportFactory("shmem", uniq("d"), d.cfg.get());
        furnish(d, r, dir);
    }
}
void leave(Dev& d, bool crash)
{
    if (d.pid) {
        int st = 0;
        kill(d.pid, crash ? SIGKILL : SIGTERM);
        if (!reap(d.pid, st, 40)) { vp::violation("monitor:device-end", "a device process does not end"); }
        d.pid = 0;
    } else {
        d.msgs.clear();
        d.regs.clear();
        d.f.reset();
    }
}
volatile sig_atomic_t gGo = 0;
int devProcess()
{
    vp::S().out.clear();
    signal(SIGTERM, [](int) { gGo = 1; });
    vp::Rng r(vp::S().seed, 3);
    {
        Dev d;
        d.cfg = config(vp::optS("session", ""), r.below(2), 2u << 20, r.chance(1, 3), vp::optU("monitor", 0));
        d.f = TransportFactory::CreateTransportFactory("shmem", uniq("d"), d.cfg.get());
        furnish(d, r, vp::optS("dir", ""));
        close(open(vp::optS("ready", "").c_str(), O_CREAT | O_WRONLY, 0644));
        while (!gGo) { vp::sleepMs(1); }
    }
    return 0;
}

// ================================================================ watch: histories of a session under a monitor
struct Watcher
{
    vp::Rng r;
    std::string session, shmId, dir, hist;
    unsigned timeout;
    bool selfDestruct, cleanOnExit;
    std::atomic<bool> done{false};
    bool skip = false;
    std::unique_ptr<shmem::Monitor> mon;
    std::thread t;
    uint64_t live = 0, crashes = 0, orderly = 0;

    Watcher(vp::Rng rr, const std::string& d) : r(rr), dir(d)
    {
        session = newSession();
        shmId = shmem::makeShmIdStr(session);
        timeout = 1400 + r.below(600);
        selfDestruct = r.chance(1, 2);
        cleanOnExit = r.chance(1, 3);
    }
    void log(const std::string& s) { hist += s + "; "; }
    // devs hold the session: it stays in place for this long
    bool holds(std::vector<Dev>& devs, ino_t ino, double secs)
    {
        double t0 = vp::now();
        while (vp::now() - t0 < secs) {
            ino_t n = inodeOf("fmq_" + shmId + "_mng");
            if (n != ino) {
                if (stalled(vp::now() - timeout * 1e-3 - 1)) { vp::count("not_judged_machine_stalled"); skip = true; return false; }
                vp::violation("monitor:removed-alive", vp::fmt("the monitor (timeout %u ms) %s the session of %zu live device(s), %.0f ms after the last change. History: %s", timeout, n ? "replaced" : "removed", devs.size(), (vp::now() - t0) * 1e3, hist.c_str()));
                skip = true;
                return false;
            }
            if (done) { vp::violation("monitor:ended-alive", vp::fmt("the monitor ended while devices are alive. History: %s", hist.c_str())); skip = true; return false; }
            vp::sleepMs(5);
        }
        ++live;
        return true;
    }
    bool waitDone(double secs) { double t0 = vp::now(); while (!done && vp::now() - t0 < secs) { vp::sleepMs(5); vp::tick(); } return done; }
    bool waitGone(double secs) { double t0 = vp::now(); while (!objects(shmId, dir).empty() && vp::now() - t0 < secs) { vp::sleepMs(3); vp::tick(); } return objects(shmId, dir).empty(); }

    void phase(bool first)
    {
        // absence: short, or longer than the timeout
        double gap = r.chance(1, 2) ? r.below(200) * 1e-3 : timeout * (1.2 + r.below(5) * 0.1) * 1e-3;
        if (first && selfDestruct && r.chance(1, 5)) {
            log("nothing ever appears");
            double t0 = vp::now();
            bool e = waitDone(timeout * 2e-3 + 20);
            VP_CHECK(e, "monitor:no-end", "self-destructing monitor does not end although nothing ever appears");
            VP_CHECK(vp::now() - t0 > timeout * 2e-3 - 0.6, "monitor:early-end", "monitor waiting for a session gave up after %.2f s, timeout %u ms", vp::now() - t0, timeout);
            return;
        }
        log(vp::fmt("absent %.0f ms", gap * 1e3));
        double t0 = vp::now();
        while (vp::now() - t0 < gap) { vp::sleepMs(5); }
        if (done) { VP_CHECK(selfDestruct && vp::now() - t0 > timeout * 2e-3 - 0.6, "monitor:early-end", "the monitor ended by itself. History: %s", hist.c_str()); skip = true; return; }
        std::vector<Dev> devs;
        bool crashed = false;
        auto add = [&](bool proc) { devs.emplace_back(); join(devs.back(), session, r, dir, proc); log(proc ? "process joins" : "device joins"); };
        add(r.chance(1, 2));
        ino_t ino = inodeOf("fmq_" + shmId + "_mng");
        VP_CHECK(ino, "monitor:removed-alive", "the session of a device that just joined does not exist. History: %s", hist.c_str());
        unsigned steps = 1 + r.below(3);
        for (unsigned i = 0; i < steps && !skip; ++i) {
            double hold = r.chance(1, 3) ? timeout * 1.3e-3 : r.below(500) * 1e-3;
            log(vp::fmt("%.0f ms", hold * 1e3));
            if (!holds(devs, ino, hold)) { break; }
            if (devs.size() > 1 && r.chance(1, 2)) {
                size_t k = r.below(devs.size());
                bool c = devs[k].pid && r.chance(1, 2);
                log(c ? "one crashes" : "one leaves");
                crashed |= c;
                leave(devs[k], c);
                devs.erase(devs.begin() + k);
            } else if (devs.size() < 3) { add(r.chance(1, 2)); }
        }
        if (!skip) { holds(devs, ino, 0.02); }
        // the end
        bool crashLast = devs[0].pid && r.chance(2, 3);
        for (size_t i = devs.size(); i-- > 1;) { leave(devs[i], false); }
        log(crashLast ? "last crashes" : "last leaves");
        double kt = vp::now();
        leave(devs[0], crashLast);
        crashed |= crashLast;
        if (skip) { purge(shmId, dir); return; }
        if (crashed) {
            ++crashes;
            if (r.chance(1, 3) && !selfDestruct) {   // somebody comes in time
                double w = r.below(400) * 1e-3;
                vp::sleepMs(static_cast<long>(w * 1e3));
                devs.clear();
                add(r.chance(1, 2));
                if (!holds(devs, ino, timeout * 1.3e-3)) { for (auto& d : devs) { leave(d, false); } purge(shmId, dir); return; }
                log("leaves the crashed session");
                kt = vp::now();
                leave(devs[0], false);
            }
            bool gone = waitGone(timeout * 1e-3 + 20);
            double dt = vp::now() - kt;
            VP_CHECK(gone, "monitor:not-cleaned", "%s exist %.1f s after the last device was gone (timeout %u ms). History: %s", str(objects(shmId, dir)).c_str(), dt, timeout, hist.c_str());
            if (!stalled(kt - 1)) {
                VP_CHECK(dt > timeout * 1e-3 - 0.6, "monitor:early-cleanup", "cleaned up %.2f s after the last device crashed, timeout %u ms. History: %s", dt, timeout, hist.c_str());
                VP_CHECK(dt < timeout * 1e-3 + 6, "monitor:late-cleanup", "cleaned up %.2f s after the last device crashed, timeout %u ms. History: %s", dt, timeout, hist.c_str());
            }
        } else {
            ++orderly;
            Strs left = objects(shmId, dir);
            bool keep = false;
            for (auto& x : left) { keep |= x[0] == '/' || x.find("_rg_") != std::string::npos; }
            VP_CHECK(left.empty(), "monitor:left-behind", "%s exist after all devices left in an orderly way. History: %s", str(left).c_str(), hist.c_str());
        }
        if (selfDestruct) {
            bool e = waitDone(timeout * 1e-3 + 20);
            VP_CHECK(e, "monitor:no-end", "self-destructing monitor does not end after the session did. History: %s", hist.c_str());
        } else {
            VP_CHECK(!done, "monitor:ended", "monitor without self-destruct ended. History: %s", hist.c_str());
        }
        vp::tick();
    }
    void run()
    {
        mon = std::make_unique<shmem::Monitor>(shmId, selfDestruct, false, false, timeout, 100, true, cleanOnExit);
        VP_CHECK(announced(shmId), "monitor:announce", "a monitor does not announce itself");
        try {
            shmem::Monitor second(shmId, r.chance(1, 2), false, false, timeout, 100, true, true);
            vp::violation("monitor:twice", "a second monitor for the same session could be created");
        } catch (shmem::Monitor::DaemonPresent&) {}
        { shmem::Monitor viewer(shmId, true, false, true, timeout, 100, false, false); }
        VP_CHECK(announced(shmId), "monitor:announce", "the refused second monitor or a viewer removed the announcement of the first");
        t = std::thread([this] { mon->Run(); done = true; });
        unsigned n = selfDestruct ? 1 : 2 + r.below(2);
        for (unsigned i = 0; i < n && !skip; ++i) { phase(i == 0); }
        if (!skip && !selfDestruct && cleanOnExit) {   // something is left when it ends
            Dev d;
            join(d, session, r, dir, true);
            leave(d, true);
            log("a device crashed right before the end");
        }
    }
    void end()
    {
        if (!done) {
            mon->CatchSignals();
            double t0 = vp::now();
            while (!done && vp::now() - t0 < 30) { vp::sleepMs(5); vp::tick(); }
            if (!done) { vp::violation("monitor:signal", "monitor does not end on a signal. History: " + hist); vp::finish(); _exit(0); }
        }
        t.join();
        Strs before = objects(shmId, dir);
        mon.reset();
        Strs left = objects(shmId, dir);
        if (cleanOnExit && !skip) { VP_CHECK(left.empty(), "monitor:clean-on-exit", "%s exist after the monitor is gone. History: %s", str(left).c_str(), hist.c_str()); }
        else { VP_CHECK(left == before, "monitor:exit-removes", "objects changed from %s to %s on the exit of a monitor that does not clean on exit", str(before).c_str(), str(left).c_str()); }
        VP_CHECK(!announced(shmId), "monitor:announce", "the monitor still is announced after its end. History: %s", hist.c_str());
        purge(shmId, dir);
    }
};
void watchCase(uint64_t c, vp::Rng& r)
{
    vp::phase("monitor watch");
    unsigned n = vp::optU("watchers", 14);
    std::vector<std::unique_ptr<Watcher>> ws;
    for (unsigned i = 0; i < n; ++i) { ws.push_back(std::make_unique<Watcher>(vp::Rng(r.next(), i), filesDir(vp::fmt("w%llu_%u", (unsigned long long)c, i)))); }
    gClockDelay = 250;
    vp::runThreads(n, [&](unsigned i) {
        try { ws[i]->run(); } catch (std::exception& e) { vp::violation("monitor:exception", vp::fmt("%s. History: %s", e.what(), ws[i]->hist.c_str())); }
    });
    gClockDelay = 0;
    for (auto& w : ws) { if (!w->done) { w->mon->CatchSignals(); kill(getpid(), SIGTERM); break; } }
    for (auto& w : ws) {
        // the first one with a signal handler has been started above
        if (!w->done) { double t0 = vp::now(); while (!w->done && vp::now() - t0 < 1) { vp::sleepMs(5); } }
        w->end();
        vp::count("stayed_alive", w->live);
        vp::count("crashed", w->crashes);
        vp::count("ended_orderly", w->orderly);
        vp::evaluated(vp::hash(w->hist), w->live + w->crashes + w->orderly > 0 || w->selfDestruct);
        vp::sample(w->hist, 4);
    }
}

// ================================================================ tool: the program
std::string field(const std::string& t, const std::string& key, size_t from = 0)
{
    auto p = t.find(key, from);
    if (p == std::string::npos) { return ""; }
    p += key.size();
    auto e = t.find_first_of(",\n", p);
    return t.substr(p, e - p);
}
void toolCase(unsigned kind, vp::Rng& r, const std::string& dir)
{
    std::string session = newSession(), shmId = shmem::makeShmIdStr(session), other = newSession(), otherId = shmem::makeShmIdStr(other);
    std::vector<std::string> who = r.chance(1, 2) ? std::vector<std::string>{r.chance(1, 2) ? "-s" : "--session", session} : std::vector<std::string>{"--shmid", shmId};
    auto with = [&](std::vector<std::string> a) { if (r.chance(1, 2)) { a.insert(a.end(), who.begin(), who.end()); } else { a.insert(a.begin(), who.begin(), who.end()); } return a; };
    Dev bystander;
    join(bystander, other, r, dir, false);
    Strs otherObjs = objects(otherId, dir);
    static const char* kinds[] = {"get-shmid", "cleanup", "view", "view absent", "list", "reset", "monitor crash", "monitor twice", "clean on exit", "interactive", "autolaunch orderly", "autolaunch crash", "autolaunch missing", "bad option", "daemon"};
    std::string what = kinds[kind];
    vp::count("tool: " + what);
    auto ok = [&](const ToolResult& t, int code = 0) { VP_CHECK(t.ended && t.code == code, "tool:exit", "%s: %s with %d, expected %d. Output: %s", what.c_str(), t.ended ? "ended" : "did not end, killed", t.code, code, t.out.substr(0, 600).c_str()); };
    switch (kind) {
        case 0: {
            auto t = tool({"--get-shmid", "-s", session});
            ok(t);
            VP_CHECK(t.out.find("is: " + shmId + "\n") != std::string::npos, "tool:get-shmid", "printed '%s' for session %s, id is %s", t.out.c_str(), session.c_str(), shmId.c_str());
            int uid = 1 + r.below(60000);
            t = tool({"--get-shmid", "--user-id", std::to_string(uid), "--session", session});
            ok(t);
            VP_CHECK(t.out.find("is: " + shmem::makeShmIdStr(session, std::to_string(uid)) + "\n") != std::string::npos, "tool:get-shmid", "printed '%s' for session %s and user %d", t.out.c_str(), session.c_str(), uid);
            VP_CHECK(shmem::makeShmIdStr(session) == shmem::makeShmIdStr(session, std::to_string(geteuid())), "tool:get-shmid", "own user's id differs");
            break;
        }
        case 1: {
            Dev d;
            join(d, session, r, dir, true);
            leave(d, true);
            bool ms = r.chance(1, 2);
            if (ms) { boost::interprocess::named_mutex m(boost::interprocess::create_only, shmem::MakeShmName(shmId, "ms").c_str()); }
            VP_CHECK(!objects(shmId, dir).empty(), "tool:setup", "nothing left by a killed device");
            ok(tool(with({r.chance(1, 2) ? "-c" : "--cleanup"})));
            VP_CHECK(objects(shmId, dir).empty() && !announced(shmId), "tool:cleanup", "%s%s exist after --cleanup", str(objects(shmId, dir)).c_str(), announced(shmId) ? " and the monitor's announcement" : "");
            ok(tool(with({"--cleanup"})));
            break;
        }
        case 2: {
            std::vector<Dev> ds(1 + r.below(3));
            for (auto& d : ds) { join(d, session, r, dir, r.chance(1, 3)); }
            auto t = tool(r.chance(1, 2) ? with({}) : with({r.chance(1, 2) ? "-v" : "--view"}));
            ok(t);
            VP_CHECK(field(t.out, "shm id: ") == shmId && field(t.out, ", session: ") == session && field(t.out, "creator id: ") == std::to_string(geteuid()), "tool:view", "header is wrong for %s/%s: %s", session.c_str(), shmId.c_str(), t.out.substr(0, 400).c_str());
            VP_CHECK(field(t.out, ", devices: ") == std::to_string(ds.size()), "tool:view", "%zu devices, printed: %s", ds.size(), t.out.substr(0, 400).c_str());
            for (uint16_t id : {0, 1}) {
                std::string key = vp::fmt("   [%u]: total: ", id);
                bool exists = inodeOf("fmq_" + shmId + "_m_" + std::to_string(id)) != 0;
                auto p = t.out.find(key);
                VP_CHECK((p != std::string::npos) == exists, "tool:view", "segment %u %s, but %s", id, exists ? "exists" : "does not exist", t.out.substr(0, 600).c_str());
                if (p == std::string::npos) { continue; }
                unsigned long total = strtoul(field(t.out, "total: ", p).c_str(), nullptr, 10), free = strtoul(field(t.out, "free: ", p).c_str(), nullptr, 10), used = strtoul(field(t.out, "used: ", p).c_str(), nullptr, 10);
                auto f = shmem::Monitor::GetFreeMemory(shmem::ShmId{shmId}, id);
                VP_CHECK(free == f && total == free + used && total == (2u << 20), "tool:view", "segment %u of %u bytes with %lu free, printed total %lu free %lu used %lu", id, 2u << 20, f, total, free, used);
            }
            std::map<uint16_t, size_t> regs;
            for (auto& d : ds) { for (auto& g : d.regs) { regs[g->GetId()] = g->GetSize(); } }
            for (auto& [id, size] : regs) {
                VP_CHECK(t.out.find(vp::fmt("[%u]: alive, size: %zu", id, size)) != std::string::npos, "tool:view", "region %u of %zu bytes not listed: %s", id, size, t.out.substr(0, 900).c_str());
            }
            for (auto& d : ds) { leave(d, false); }
            break;
        }
        case 3: {
            auto t = tool(with({}));
            ok(t);
            VP_CHECK(t.out.find("No segments found") != std::string::npos, "tool:view", "absent session: %s", t.out.c_str());
            VP_CHECK(objects(shmId, dir).empty(), "tool:view", "viewing an absent session left %s", str(objects(shmId, dir)).c_str());
            break;
        }
        case 4: {
            Dev d;
            join(d, session, r, dir, false);
            auto t = tool({"--list-all"});
            ok(t);
            for (auto& id : {shmId, otherId}) { VP_CHECK(t.out.find("Found shmid '" + id + "'") != std::string::npos && t.out.find("shm id: " + id) != std::string::npos, "tool:list", "session %s not listed", id.c_str()); }
            std::string e = filesDir(uniq("empty"));
            t = tool({"--list-all", "--list-all-path", e});
            ok(t);
            VP_CHECK(t.out.find("is empty") != std::string::npos, "tool:list", "empty directory: %s", t.out.c_str());
            t = tool({"--list-all", "--list-all-path", e + "none"});
            ok(t);
            leave(d, false);
            break;
        }
        case 5: {
            auto cfg = config(session, 0, 2u << 20, r.chance(1, 2));
            auto f = TransportFactory::CreateTransportFactory("shmem", uniq("d"), cfg.get());
            auto fresh = shmem::Monitor::GetFreeMemory(shmem::ShmId{shmId}, 0);
            ino_t i = inodeOf("fmq_" + shmId + "_m_0");
            Dev d;   // its messages stay behind
            d.pid = spawnv({gSelf, "--mode=dev", "--session=" + session, "--seed=" + std::to_string(r.next() >> 1), "--dir=" + dir, "--ready=" + scratch() + "/" + shmId}, "");
            while (access((scratch() + "/" + shmId).c_str(), F_OK) != 0) { vp::sleepMs(2); }
            auto m = f->CreateMessage(100000 + r.below(100000));
            auto used = shmem::Monitor::GetFreeMemory(shmem::ShmId{shmId}, 0);
            leave(d, true);
            VP_CHECK(fresh >= used + 100000, "monitor:free-memory", "free memory went from %lu to %lu on a message of more than 100000 bytes", fresh, used);
            m.reset();
            ok(tool(with({r.chance(1, 2) ? "-r" : "--reset-content"})));
            auto now = shmem::Monitor::GetFreeMemory(shmem::ShmId{shmId}, 0);
            VP_CHECK(now == fresh && inodeOf("fmq_" + shmId + "_m_0") == i, "tool:reset", "free memory is %lu after the reset, was %lu when fresh%s", now, fresh, inodeOf("fmq_" + shmId + "_m_0") == i ? "" : "; the segment has been replaced");
            auto m2 = f->CreateMessage(1000000);
            fill(m2->GetData(), 1000000, 7);
            VP_CHECK(same(m2->GetData(), 1000000, 7), "tool:reset", "segment unusable after the reset");
            m2.reset();
            f.reset();
            shmem::Monitor::Cleanup(shmem::ShmId{shmId}, false);
            break;
        }
        case 6: case 7: case 8: case 14: {
            std::string tmo = std::to_string(1200 + r.below(500));
            std::vector<std::string> a = with({r.chance(1, 2) ? "-m" : "--monitor", "-t", tmo});
            if (kind != 8) { a.push_back(r.chance(1, 2) ? "-x" : "--self-destruct"); } else { a.push_back(r.chance(1, 2) ? "-e" : "--clean-on-exit"); }
            if (kind == 14) { a.push_back(r.chance(1, 2) ? "-d" : "--daemonize"); }
            Dev d;
            join(d, session, r, dir, true);
            a.insert(a.begin(), gTool);
            pid_t p = spawnv(a, "");
            int st = 0;
            double t0 = vp::now();
            if (kind == 14) { VP_CHECK(reap(p, st, 20) && WIFEXITED(st) && WEXITSTATUS(st) == 0, "tool:exit", "daemonizing ended with %x", st); }
            while (!announced(shmId) && vp::now() - t0 < 30) { vp::sleepMs(5); vp::tick(); }
            VP_CHECK(announced(shmId), "monitor:announce", "the started monitor is not announced (%s)", what.c_str());
            if (kind == 7) {
                auto t = tool(with({"-m"}), 20);
                ok(t);
                VP_CHECK(announced(shmId), "monitor:announce", "a second monitor removed the announcement of the first");
            }
            vp::sleepMs(300 + r.below(1500));
            VP_CHECK(inodeOf("fmq_" + shmId + "_mng") || stalled(t0), "monitor:removed-alive", "the monitor removed the session of a live device (%s)", what.c_str());
            leave(d, true);
            if (kind == 8) {
                VP_CHECK(waitpid(p, &st, WNOHANG) == 0, "monitor:ended", "monitor without self-destruct ended");
                vp::sleepMs(50);
                kill(p, r.chance(1, 2) ? SIGTERM : SIGINT);
            }
            if (kind != 14) { VP_CHECK(reap(p, st, 30) && WIFEXITED(st) && WEXITSTATUS(st) == 0, "tool:exit", "monitor ended with %x (%s)", st, what.c_str()); }
            else { t0 = vp::now(); while (announced(shmId) && vp::now() - t0 < 30) { vp::sleepMs(5); vp::tick(); } }
            VP_CHECK(objects(shmId, dir).empty() && !announced(shmId), "monitor:not-cleaned", "%s%s exist after the monitor program ended (%s)", str(objects(shmId, dir)).c_str(), announced(shmId) ? " and its announcement" : "", what.c_str());
            break;
        }
        case 9: {
            Dev d;
            bool view = r.chance(1, 3);
            join(d, session, r, dir, true);
            std::vector<std::string> a = with({r.chance(1, 2) ? "-i" : "--interactive", "--interval", "50"});
            if (view) { a.push_back("-v"); }
            a.insert(a.begin(), gTool);
            std::vector<char*> v;
            for (auto& x : a) { v.push_back(const_cast<char*>(x.c_str())); }
            v.push_back(nullptr);
            int fd = -1;
            pid_t p = forkpty(&fd, nullptr, nullptr, nullptr);
            if (p == 0) { setenv("VP_LOG", "info", 1); signal(SIGTERM, SIG_DFL); execv(gTool.c_str(), v.data()); _exit(99); }
            std::string out;
            fcntl(fd, F_SETFL, O_NONBLOCK);
            auto pump = [&](const std::string& until, double secs) {
                double t0 = vp::now();
                while (vp::now() - t0 < secs) {
                    char b[4096];
                    ssize_t n = read(fd, b, sizeof b);
                    if (n > 0) { out.append(b, n); } else { vp::sleepMs(3); }
                    if (!until.empty() && out.find(until) != std::string::npos) { return true; }
                    vp::tick();
                    if (n < 0 && errno == EIO) { return until.empty(); }
                }
                return false;
            };
            auto key = [&](char c, const std::string& expect) {
                out.clear();
                if (write(fd, &c, 1) != 1) {}
                bool seen = pump(expect, 20);
                VP_CHECK(seen, "tool:interactive", "key '%c' not answered with '%s'%s: %s", c, expect.c_str(), view ? " (view only)" : "", out.substr(0, 500).c_str());
            };
            bool up = pump("shm id: " + shmId, 30);
            VP_CHECK(up, "tool:interactive", "session not shown: %s", out.substr(0, 500).c_str());
            VP_CHECK(announced(shmId) == !view, "monitor:announce", "interactive monitor%s announced: %d", view ? " (view only)" : "", announced(shmId));
            key('h', "[h] close memory"[0] ? "controls:" : "");
            if (r.chance(1, 2)) { key('z', "invalid input"); }
            if (r.chance(1, 2)) { key('b', "FAIRMQ_DEBUG_MODE"); }
            VP_CHECK(inodeOf("fmq_" + shmId + "_mng"), "monitor:removed-alive", "session removed by an interactive monitor");
            if (r.chance(2, 3) || view) {
                key('x', view ? "cannot close" : "closing");
                pump("", 0.3);
                VP_CHECK(objects(shmId, dir).empty() == !view, "tool:interactive", "after key 'x'%s: %s", view ? " (view only)" : "", str(objects(shmId, dir)).c_str());
            }
            if (r.chance(1, 2)) { key('q', "quitting"); } else { kill(p, SIGTERM); }
            double t0 = vp::now();
            int st = 0;
            bool ended = false;
            while (!ended && vp::now() - t0 < 30) { pump("", 0.02); ended = waitpid(p, &st, WNOHANG) == p; }
            if (!ended) { kill(p, SIGKILL); waitpid(p, &st, 0); }
            close(fd);
            VP_CHECK(ended && WIFEXITED(st) && WEXITSTATUS(st) == 0, "tool:exit", "interactive monitor ended with %x, in time: %d", st, ended);
            VP_CHECK(!announced(shmId), "monitor:announce", "still announced after an interactive monitor ended");
            leave(d, true);
            shmem::Monitor::Cleanup(shmem::ShmId{shmId}, false);
            break;
        }
        case 10: case 11: case 12: {
            std::vector<Dev> ds(1 + r.below(2));
            if (kind == 12) {
                std::string e = filesDir(uniq("nopath"));
                join(ds[0], session, r, dir, true, true, {"FAIRMQ_PATH=" + e, "PATH=" + e});
                VP_CHECK(!announced(shmId), "monitor:autolaunch", "a monitor runs although its program cannot be found");
                leave(ds[0], false);
                VP_CHECK(objects(shmId, dir).empty(), "monitor:left-behind", "%s exist after the device left", str(objects(shmId, dir)).c_str());
                break;
            }
            for (auto& d : ds) { join(d, session, r, dir, kind == 11, true); VP_CHECK(announced(shmId), "monitor:autolaunch", "a device that was to start a monitor runs without one"); }
            vp::sleepMs(r.chance(1, 3) ? 2600 : r.below(500));
            VP_CHECK(inodeOf("fmq_" + shmId + "_mng") || stalled(vp::now() - 4), "monitor:removed-alive", "an automatically started monitor removed the session of a live device");
            for (auto& d : ds) { leave(d, kind == 11); }
            double t0 = vp::now();
            while ((announced(shmId) || !objects(shmId, dir).empty()) && vp::now() - t0 < 30) { vp::sleepMs(5); vp::tick(); }
            VP_CHECK(objects(shmId, dir).empty() && !announced(shmId), "monitor:not-cleaned", "%s%s exist %.0f s after the devices were gone (%s)", str(objects(shmId, dir)).c_str(), announced(shmId) ? " and the monitor's announcement" : "", vp::now() - t0, what.c_str());
            break;
        }
        case 13: {
            ok(tool(with({"--no-such-option"})), 2);
            auto t = tool({"--help"});
            ok(t);
            VP_CHECK(t.out.find("--self-destruct") != std::string::npos && t.out.find("--clean-on-exit") != std::string::npos, "tool:help", "%s", t.out.substr(0, 300).c_str());
            break;
        }
    }
    VP_CHECK(objects(otherId, dir) == otherObjs, "monitor:foreign", "objects of another session changed from %s to %s (%s)", str(otherObjs).c_str(), str(objects(otherId, dir)).c_str(), what.c_str());
    leave(bystander, false);
    purge(shmId, dir);
    purge(otherId, dir);
    vp::evaluated(vp::mix(kind, r.next()));
}
void toolRound(uint64_t c, vp::Rng& r)
{
    vp::phase("monitor program");
    std::vector<uint64_t> seeds;
    for (unsigned i = 0; i < 15; ++i) { seeds.push_back(r.next()); }
    std::atomic<unsigned> next{0};
    vp::runThreads(6, [&](unsigned) {
        for (unsigned k; (k = next++) < 15;) {
            static const unsigned order[] = {14, 6, 7, 8, 11, 10, 9, 5, 2, 4, 1, 12, 0, 3, 13};
            unsigned kind = order[k];
            if (vp::optU("kind", 99) != 99 && vp::optU("kind", 99) != kind) { continue; }
            vp::Rng q(seeds[k], kind);
            try { toolCase(kind, q, filesDir(vp::fmt("t%llu_%u", (unsigned long long)c, kind))); }
            catch (std::exception& e) { vp::violation("monitor:exception", vp::fmt("%s in tool scenario %u", e.what(), kind)); }
            vp::tick();
        }
    });
}

// ================================================================ info: what is reported agrees with what exists
void infoCase(uint64_t, vp::Rng& r)
{
    vp::phase("monitor info");
    std::string session = newSession(), shmId = shmem::makeShmIdStr(session), dir = filesDir(uniq("i"));
    struct M { MessagePtr m; uint16_t seg; size_t offset, size; double from, to; };
    std::vector<std::unique_ptr<ProgOptions>> cfgs;
    std::vector<std::shared_ptr<TransportFactory>> fs;
    std::vector<uint16_t> segOf;
    std::set<uint16_t> segs;
    std::map<uint16_t, unsigned long> fresh;
    std::map<uint16_t, char*> base;
    std::vector<M> ms;
    std::string hist;
    unsigned nd = 1 + r.below(3);
    for (unsigned i = 0; i < nd; ++i) {
        uint16_t seg = r.below(3);
        cfgs.push_back(config(session, seg, 1u << 20, r.chance(1, 2)));
        fs.push_back(TransportFactory::CreateTransportFactory("shmem", uniq("d"), cfgs.back().get()));
        if (segs.insert(seg).second) { fresh[seg] = shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, seg); }
        segOf.push_back(seg);
    }
    auto now = [] { return static_cast<double>(std::chrono::system_clock::now().time_since_epoch().count()); };
    auto debugCheck = [&](const std::string& op) {
        auto info = r.chance(1, 2) ? shmem::Monitor::GetDebugInfo(shmem::ShmId{shmId}) : shmem::Monitor::GetDebugInfo(shmem::SessionId{session});
        if (r.chance(1, 4)) { shmem::Monitor::PrintDebugInfo(shmem::ShmId{shmId}); }
#ifdef FAIRMQ_DEBUG_MODE
        size_t n = 0;
        for (auto& [seg, v] : info) { n += v.size(); }
        VP_CHECK(n == ms.size(), "debug:count", "%zu messages exist, %zu are listed after %s. History: %s", ms.size(), n, op.c_str(), hist.c_str());
        for (auto& m : ms) {
            bool found = false;
            for (auto& e : info[m.seg]) {
                // offsets are relative to each mapping's start, and those to the data of the message
                if (e.fOffset == m.offset) {
                    found = true;
                    VP_CHECK(e.fPid == getpid() && e.fSize == m.size && e.fCreationTime >= m.from && e.fCreationTime <= m.to, "debug:entry", "message of %zu bytes in segment %u at %zu is listed with pid %d, size %zu, after %s", m.size, m.seg, m.offset, e.fPid, e.fSize, op.c_str());
                }
            }
            VP_CHECK(found, "debug:missing", "message of %zu bytes in segment %u at %zu is not listed after %s. History: %s", m.size, m.seg, m.offset, op.c_str(), hist.c_str());
        }
        vp::count("debug_entries_compared", ms.size());
#else
        VP_CHECK(info.empty(), "debug:nodebug", "debug information without debug mode");
#endif
    };
    unsigned steps = 10 + r.below(40);
    for (unsigned s = 0; s < steps; ++s) {
        std::string op;
        unsigned d = r.below(nd);
        switch (r.below(5)) {
            case 0: case 1: {
                size_t size = 1 + r.below(20000);
                auto before = shmem::Monitor::GetFreeMemory(shmem::ShmId{shmId}, segOf[d]);
                M m;
                m.from = now();
                m.m = r.chance(1, 2) ? fs[d]->CreateMessage(size) : fs[d]->CreateMessage(size, Alignment{size_t(1) << r.below(12)});
                m.to = now();
                m.seg = segOf[d];
                m.size = size;
                for (auto& i : fs[d]->GetRegionInfo()) { if (i.managed && i.id == m.seg) { base[m.seg] = static_cast<char*>(i.ptr); } }
                m.offset = static_cast<char*>(m.m->GetData()) - base[m.seg];
                op = vp::fmt("%u: create %zu in %u", d, size, m.seg);
                auto after = shmem::Monitor::GetFreeMemory(shmem::ShmId{shmId}, segOf[d]);
                VP_CHECK(after + size <= before, "monitor:free-memory", "free memory of segment %u went from %lu to %lu on a message of %zu bytes", m.seg, before, after, size);
                ms.push_back(std::move(m));
                break;
            }
            case 2: if (!ms.empty()) {   // handed to another device of the session, which releases it
                auto& m = ms[r.below(ms.size())];
                unsigned e = r.below(nd);
                auto c = fs[e]->CreateMessage();
                c->Copy(*m.m);
                m.m = std::move(c);
                op = vp::fmt("holder is %u", e);
                break;
            } [[fallthrough]];
            default: if (!ms.empty()) { size_t k = r.below(ms.size()); op = vp::fmt("destroy in %u", ms[k].seg); std::swap(ms[k], ms.back()); ms.pop_back(); } break;
        }
        hist += op + "; ";
        if (r.chance(1, 2)) { debugCheck(op); }
        for (uint16_t g = 0; g < 4; ++g) {
            bool q = r.chance(1, 2) ? shmem::Monitor::SegmentIsPresent(shmem::ShmId{shmId}, g) : shmem::Monitor::SegmentIsPresent(shmem::SessionId{session}, g);
            VP_CHECK(q == (segs.count(g) > 0), "monitor:segment-query", "segment %u %s, reported present: %d", g, segs.count(g) ? "exists" : "does not exist", q);
            bool thrown = false;
            unsigned long a = 0, b = 0;
            try { a = shmem::Monitor::GetFreeMemory(shmem::ShmId{shmId}, g); b = shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, g); } catch (shmem::Monitor::MonitorError&) { thrown = true; }
            VP_CHECK(thrown == !segs.count(g) && a == b, "monitor:free-memory", "free memory of segment %u (exists: %d): %lu/%lu, error: %d", g, segs.count(g) > 0, a, b, thrown);
        }
        vp::tick();
    }
    ms.clear();
    debugCheck("all messages are gone");
    for (auto& [g, f] : fresh) { auto x = shmem::Monitor::GetFreeMemory(shmem::ShmId{shmId}, g); VP_CHECK(x == f, "monitor:free-memory", "segment %u has %lu bytes free when empty again, %lu when new. History: %s", g, x, f, hist.c_str()); }
    fs.clear();
    VP_CHECK(shmem::Monitor::GetDebugInfo(shmem::ShmId{shmId}).empty() && !shmem::Monitor::PrintShm(shmem::ShmId{shmId}) && !shmem::Monitor::SegmentIsPresent(shmem::ShmId{shmId}, 0), "monitor:absent", "something is reported about a session that ended");
    try { shmem::Monitor::GetFreeMemory(shmem::ShmId{shmId}, 0); vp::violation("monitor:absent", "free memory of an absent session"); } catch (shmem::Monitor::MonitorError&) {}
    // a session of which only the management part exists (prepared by hand, or its creator died early)
    {
        boost::interprocess::managed_shared_memory mng(boost::interprocess::create_only, shmem::MakeShmName(shmId, "mng").c_str(), shmem::kManagementSegmentSize);
        shmem::Monitor::GetDebugInfo(shmem::ShmId{shmId});
        shmem::Monitor::PrintDebugInfo(shmem::SessionId{session});
        VP_CHECK(!shmem::Monitor::PrintShm(shmem::ShmId{shmId}) && !shmem::Monitor::SegmentIsPresent(shmem::ShmId{shmId}, 0) && !shmem::Monitor::RegionIsPresent(shmem::ShmId{shmId}, 1024), "monitor:absent", "something is reported about an empty session");
        try { shmem::Monitor::GetFreeMemory(shmem::ShmId{shmId}, 0); vp::violation("monitor:absent", "free memory of an absent segment"); } catch (shmem::Monitor::MonitorError&) {}
        shmem::Monitor::Cleanup(shmem::ShmId{shmId}, false);
    }
    VP_CHECK(objects(shmId, dir).empty(), "monitor:left-behind", "%s", str(objects(shmId, dir)).c_str());
    purge(shmId, dir);
    vp::evaluated(vp::hash(hist));
    vp::sample(hist, 2);
}
}   // namespace

int main(int argc, char** argv)
{
    char buf[4096];
    ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
    if (n > 0) { buf[n] = 0; gSelf = buf; }
    vp::init(argc, argv);
    gTool = gSelf.substr(0, gSelf.rfind('/')) + "/shmmonitor";
    signal(SIGPIPE, SIG_IGN);
    std::string m = vp::S().mode;
    if (m == "dev") { return devProcess(); }
    if (m == "tool") {
        std::string bin = filesDir("bin");
        if (symlink(gTool.c_str(), (bin + "fairmq-shmmonitor").c_str()) != 0) {}
        setenv("FAIRMQ_PATH", bin.c_str(), 1);
    }
    stallWatch();
    vp::watchdog();
    if (m == "watch") { vp::forCases(1, watchCase); }
    else if (m == "tool") { vp::forCases(1, toolRound); }
    else if (m == "info") { vp::forCases(60, infoCase); }
    vp::count("clock_reads_by_monitors", gClockReads);
    vp::count("clock_reads_delayed", gClockDelays);
    return vp::finish();
}
