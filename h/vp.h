// Common support for the monitoring harnesses: seeded randomness, violation/evidence recording,
// stall watchdog. Every harness prints nothing on success and writes one JSON result file.
#ifndef VP_H
#define VP_H

#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/types.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vp
{

// ---------------------------------------------------------------- randomness
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    Rng(uint64_t a, uint64_t b) : Rng(a * 1000003ull + b * 0x9E3779B1ull + (b << 32)) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template<typename C>
    auto pick(const C& c) -> decltype(c[0]) { return c[below(c.size())]; }
    template<typename C>
    void shuffle(C& c) { for (size_t i = c.size(); i > 1; --i) { std::swap(c[i - 1], c[below(i)]); } }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
    auto b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h = (h ^ b[i]) * 0x100000001b3ull; }
    return h;
}
inline uint64_t hash(const std::string& s) { return fnv(s.data(), s.size()); }
inline uint64_t mix(uint64_t h, uint64_t v) { return fnv(&v, sizeof v, h); }

inline double now()
{
    timespec ts{};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
inline void sleepUs(long us) { if (us > 0) { timespec t{us / 1000000, (us % 1000000) * 1000}; nanosleep(&t, nullptr); } }
inline void sleepMs(long ms) { sleepUs(ms * 1000); }

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else { o += static_cast<char>(c); }
    }
    return o;
}

// ---------------------------------------------------------------- run state
struct State
{
    std::string out, mode;
    uint64_t seed = 1;
    uint64_t cases = 0;      // 0 = harness default
    int64_t only = -1;       // replay a single case
    bool thorough = false;
    std::vector<std::string> args;
    std::map<std::string, std::string> opt;

    std::recursive_mutex mtx;
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> distinct;
    std::unordered_set<uint64_t> interleavings;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::pair<uint64_t, std::string>> violations;   // key -> count, first detail
    std::atomic<uint64_t> progress{0};
    std::string phase = "start";
    int64_t curCase = -1;
    std::atomic<bool> stopWatchdog{false};
    double stallLimit = 45;
    double budget = 0;       // soft wall-clock cap in seconds for generating new cases (0 = none)
    double t0 = now();
    pid_t owner = 0;
    std::atomic<double> firstViolation{0};   // when
};
inline State& S() { static State* s = new State; return *s; }

inline void flush(bool completed, const char* hang = nullptr)
{
    auto& s = S();
    if (s.out.empty() || s.owner != getpid()) { return; }
    std::lock_guard<std::recursive_mutex> l(s.mtx);
    std::string j = "{\n";
    j += fmt("\"completed\": %s,\n\"hang\": \"%s\",\n\"mode\": \"%s\",\n\"seed\": %llu,\n", completed ? "true" : "false",
             hang ? jesc(hang).c_str() : "", jesc(s.mode).c_str(), static_cast<unsigned long long>(s.seed));
    j += fmt("\"phase\": \"%s\",\n\"case\": %lld,\n", jesc(s.phase).c_str(), static_cast<long long>(s.curCase));
    j += fmt("\"evaluations\": %llu,\n\"distinct\": %zu,\n\"interleavings\": %zu,\n\"wall\": %.2f,\n",
             static_cast<unsigned long long>(s.evaluations), s.distinct.size(), s.interleavings.size(), now() - s.t0);
    j += "\"samples\": [";
    for (size_t i = 0; i < s.samples.size(); ++i) { j += (i ? ",\n  \"" : "\n  \"") + jesc(s.samples[i]) + "\""; }
    j += "],\n\"counters\": {";
    bool first = true;
    for (auto& c : s.counters) { j += fmt("%s\n  \"%s\": %llu", first ? "" : ",", jesc(c.first).c_str(), static_cast<unsigned long long>(c.second)); first = false; }
    j += "},\n\"violations\": [";
    first = true;
    for (auto& v : s.violations) {
        j += std::string(first ? "" : ",") + "\n  {\"key\": \"" + jesc(v.first) + "\", \"count\": " + std::to_string(v.second.first) + ", \"detail\": \"" + jesc(v.second.second) + "\"}";
        first = false;
    }
    j += "]\n}\n";
    std::string tmp = s.out + ".tmp";
    int fd = ::open(tmp.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644);
    if (fd < 0) { return; }
    size_t off = 0;
    while (off < j.size()) { ssize_t n = ::write(fd, j.data() + off, j.size() - off); if (n <= 0) { break; } off += n; }
    ::close(fd);
    ::rename(tmp.c_str(), s.out.c_str());
}

inline void tick() { S().progress.fetch_add(1, std::memory_order_relaxed); }

inline void phase(const std::string& p)
{
    auto& s = S();
    { std::lock_guard<std::recursive_mutex> l(s.mtx); s.phase = p; }
    tick();
}

// Report a violation. key identifies what failed (stable across seeds), detail is the evidence.
inline void violation(const std::string& key, const std::string& detail)
{
    auto& s = S();
    {
        std::lock_guard<std::recursive_mutex> l(s.mtx);
        auto& v = s.violations[key];
        if (v.first++ == 0) {
            if (s.firstViolation == 0) { s.firstViolation = now(); }
            v.second = fmt("case=%lld phase=%s: ", static_cast<long long>(s.curCase), s.phase.c_str()) + detail;
            fprintf(stderr, "vp-violation %s: %s\n", key.c_str(), v.second.c_str());
        } else { return; }
    }
    flush(false);
}
#define VP_CHECK(cond, key, ...) do { if (!(cond)) { ::vp::violation((key), ::vp::fmt(__VA_ARGS__)); } } while (0)

inline void count(const std::string& name, uint64_t n = 1)
{
    auto& s = S();
    std::lock_guard<std::recursive_mutex> l(s.mtx);
    s.counters[name] += n;
}
// one evaluated case; h identifies it for the distinct count
inline void evaluated(uint64_t h, bool nontrivial = true)
{
    auto& s = S();
    std::lock_guard<std::recursive_mutex> l(s.mtx);
    ++s.evaluations;
    if (nontrivial) { s.distinct.insert(h); }
    tick();
}
inline void interleaving(uint64_t h)
{
    auto& s = S();
    std::lock_guard<std::recursive_mutex> l(s.mtx);
    if (s.interleavings.size() < 2000000) { s.interleavings.insert(h); }
}
inline void sample(const std::string& t, size_t max = 6)
{
    auto& s = S();
    std::lock_guard<std::recursive_mutex> l(s.mtx);
    if (s.samples.size() < max) { s.samples.push_back(t.substr(0, 600)); }
}
inline void noteCase(int64_t i) { auto& s = S(); std::lock_guard<std::recursive_mutex> l(s.mtx); s.curCase = i; }

// register a shared memory id to be removed by the driver whatever happens
inline void noteShm(const std::string& id)
{
    auto& s = S();
    std::string f = s.out + ".shm";
    int fd = ::open(f.c_str(), O_CREAT | O_APPEND | O_WRONLY | O_CLOEXEC, 0644);
    if (fd >= 0) { std::string l = id + "\n"; if (::write(fd, l.data(), l.size()) < 0) {} ::close(fd); }
}

inline void watchdog()
{
    std::thread([] {
        auto& s = S();
        uint64_t last = s.progress.load();
        double idle = 0;
        sigset_t all;
        sigfillset(&all);
        pthread_sigmask(SIG_BLOCK, &all, nullptr);
        while (!s.stopWatchdog.load()) {
            sleepMs(250);
            // broken code tends to make everything slow: what was found is enough
            double fv = s.firstViolation;
            if (fv > 0 && now() - fv > (s.thorough ? 300 : 60)) { flush(true); _exit(0); }
            uint64_t p = s.progress.load();
            if (p != last) { last = p; idle = 0; continue; }
            idle += 0.25;   // counted in ticks, so a suspended machine does not count
            if (idle >= s.stallLimit) {
                std::string ph;
                { std::lock_guard<std::recursive_mutex> l(s.mtx); ph = s.phase; }
                fprintf(stderr, "vp-hang in phase %s case %lld\n", ph.c_str(), static_cast<long long>(s.curCase));
                if (getenv("VP_GDB")) { std::string c = fmt("gdb -p %d -batch -ex 'thread apply all bt 30' 2>/dev/null 1>&2", getpid()); if (system(c.c_str())) {} }
                flush(false, ph.c_str());
                _exit(77);
            }
        }
    }).detach();
}

inline bool timeUp() { auto& s = S(); return s.budget > 0 && now() - s.t0 > s.budget; }

inline uint64_t optU(const std::string& k, uint64_t d) { auto& o = S().opt; auto it = o.find(k); return it == o.end() ? d : strtoull(it->second.c_str(), nullptr, 10); }
inline std::string optS(const std::string& k, const std::string& d) { auto& o = S().opt; auto it = o.find(k); return it == o.end() ? d : it->second; }

// run body(i, rng) for the cases of this mode; every case has its own generator, so one can be replayed
inline void forCases(uint64_t dflt, const std::function<void(uint64_t, Rng&)>& body)
{
    auto& s = S();
    uint64_t n = s.cases ? s.cases : dflt;
    for (uint64_t i = 0; i < n; ++i) {
        if (s.only >= 0 && static_cast<uint64_t>(s.only) != i) { continue; }
        if (timeUp()) { count("cases_skipped_by_time_cap", n - i); break; }
        noteCase(static_cast<int64_t>(i));
        Rng r(s.seed + optU("part", 0) * 0x100000001ull, i + 1);
        body(i, r);
        tick();
    }
    noteCase(-1);
}


inline void init(int argc, char** argv)
{
    auto& s = S();
    s.owner = getpid();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto eq = a.find('=');
        if (a.rfind("--", 0) == 0 && eq != std::string::npos) {
            std::string k = a.substr(2, eq - 2), v = a.substr(eq + 1);
            if (k == "out") { s.out = v; }
            else if (k == "mode") { s.mode = v; }
            else if (k == "seed") { s.seed = strtoull(v.c_str(), nullptr, 10); }
            else if (k == "cases") { s.cases = strtoull(v.c_str(), nullptr, 10); }
            else if (k == "case") { s.only = strtoll(v.c_str(), nullptr, 10); }
            else if (k == "thorough") { s.thorough = v == "1"; }
            else if (k == "stall") { s.stallLimit = atof(v.c_str()); }
            else if (k == "budget") { s.budget = atof(v.c_str()); }
            else { s.opt[k] = v; }
        } else { s.args.push_back(a); }
    }
    flush(false);
}

inline int finish()
{
    auto& s = S();
    s.stopWatchdog = true;
    flush(true);
    return 0;
}

// ---------------------------------------------------------------- schedule perturbation (vp_perturb.cc)
void perturb(unsigned level, uint64_t seed);   // 0 = off
void perturbPoint();
void bombs(unsigned n, uint64_t seed, unsigned maxThread, unsigned maxPoint, long maxUs, unsigned late = 0);   // late: how many of them in the first thread to synchronise after lateThreads()
void lateThreads();
uint64_t scheduleHash();                       // order in which threads passed the synchronisation points since reset
void resetScheduleHash();
void eintr(unsigned onePer);                   // inject EINTR into every n-th zmq_msg_send/recv on average (0 = off)
uint64_t eintrCount();

// ---------------------------------------------------------------- small helpers
struct Barrier
{
    explicit Barrier(unsigned n) : n_(n) {}
    void wait()
    {
        c_.fetch_add(1);
        while (c_.load() < n_) { std::this_thread::yield(); }
    }
    unsigned n_;
    std::atomic<unsigned> c_{0};
};

inline void runThreads(unsigned n, const std::function<void(unsigned)>& f)
{
    Barrier b(n);
    std::vector<std::thread> ts;
    for (unsigned i = 0; i < n; ++i) { ts.emplace_back([&, i] { b.wait(); f(i); }); }
    for (auto& t : ts) { t.join(); }
}

} // namespace vp

#endif
