// Stand-in for FairLogger (not installable in this sandbox). Only the interface FairMQ uses.
// Messages below the threshold are not formatted (as in FairLogger, where LOG() is lazy).
#ifndef VP_SHIM_FAIR_LOGGER_H
#define VP_SHIM_FAIR_LOGGER_H

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <mutex>
#include <ostream>
#include <sstream>
#include <string>
#include <utility>

namespace fair
{

enum class Severity : int
{
    nolog = 0, trace = 1, debug4 = 2, debug3 = 3, debug2 = 4, debug1 = 5, debug = 6, detail = 7, info = 8,
    state = 9, alarm = 10, important = 11, warn = 12, warning = 12, error = 13, critical = 14, fatal = 15,
    NOLOG = 0, TRACE = 1, DEBUG4 = 2, DEBUG3 = 3, DEBUG2 = 4, DEBUG1 = 5, DEBUG = 6, DETAIL = 7, INFO = 8,
    STATE = 9, ALARM = 10, IMPORTANT = 11, WARN = 12, WARNING = 12, ERROR = 13, CRITICAL = 14, FATAL = 15
};

enum class Verbosity : int { verylow = 0, low = 1, medium = 2, high = 3, veryhigh = 4, user1 = 5, user2 = 6, user3 = 7, user4 = 8 };

struct VerbositySpec
{
    enum class Info : int { __empty__ = 0, hostname, process_name, timestamp_s, timestamp_us, severity, file, file_line, file_line_function };
    template<typename... A>
    static VerbositySpec Make(A...) { return VerbositySpec{}; }
};
using VSpec = VerbositySpec;

class Logger
{
  public:
    explicit Logger(Severity s) : fSev(s) {}
    Logger& Log() { return *this; }
    template<typename T>
    Logger& operator<<(const T& t) { fSS << t; return *this; }
    Logger& operator<<(std::ostream& (*manip)(std::ostream&)) { fSS << manip; return *this; }
    Logger& operator<<(std::ios_base& (*manip)(std::ios_base&)) { fSS << manip; return *this; }
    ~Logger() noexcept
    {
        if (static_cast<int>(fSev) >= static_cast<int>(Severity::error)) { ErrorCount().fetch_add(1, std::memory_order_relaxed); }
        if (auto sink = Sink().load(std::memory_order_acquire)) { try { sink(static_cast<int>(fSev), fSS.str()); } catch (...) {} }
        if (Echo()) {
            std::string line = "[" + std::to_string(static_cast<int>(fSev)) + "] " + fSS.str() + "\n";
            ::fwrite(line.data(), 1, line.size(), stderr);
        }
    }

    static bool Logging(Severity s) { return s != Severity::nolog && static_cast<int>(s) >= Threshold().load(std::memory_order_relaxed); }
    static std::atomic<int>& Threshold()
    {
        static std::atomic<int> t{std::getenv("VP_LOG") ? 1 : 12};
        return t;
    }
    using SinkFn = void (*)(int, const std::string&);
    static std::atomic<SinkFn>& Sink()
    {
        static std::atomic<SinkFn> s{nullptr};
        return s;
    }
    static bool Echo()
    {
        static const bool e = std::getenv("VP_LOG") != nullptr;
        return e;
    }
    static std::atomic<unsigned long>& ErrorCount()
    {
        static std::atomic<unsigned long> c{0};
        return c;
    }
    static std::atomic<unsigned long>& ConfigCalls()
    {
        static std::atomic<unsigned long> c{0};
        return c;
    }

    static void SetConsoleSeverity(const std::string&) { ++ConfigCalls(); }
    static void SetConsoleSeverity(Severity) { ++ConfigCalls(); }
    static void SetFileSeverity(const std::string&) { ++ConfigCalls(); }
    static void SetVerbosity(const std::string&) { ++ConfigCalls(); }
    static void SetVerbosity(Verbosity) { ++ConfigCalls(); }
    static void SetConsoleColor(bool) { ++ConfigCalls(); }
    static void DefineVerbosity(Verbosity, VerbositySpec) { ++ConfigCalls(); }
    static void InitFileSink(const std::string&, const std::string&, bool = true) { ++ConfigCalls(); }
    static void CycleConsoleSeverityUp() { ++ConfigCalls(); }
    static void CycleConsoleSeverityDown() { ++ConfigCalls(); }
    static void CycleVerbosityUp() { ++ConfigCalls(); }
    static void CycleVerbosityDown() { ++ConfigCalls(); }

  private:
    Severity fSev;
    std::ostringstream fSS;
};

} // namespace fair

#define VP_LOG_IMPL_(sev) \
    for (bool vpLogOnce_ = ::fair::Logger::Logging(::fair::Severity::sev); vpLogOnce_; vpLogOnce_ = false) \
    ::fair::Logger(::fair::Severity::sev).Log()

#define LOG(sev) VP_LOG_IMPL_(sev)
#define LOGV(sev, verb) VP_LOG_IMPL_(sev)
#define LOGD(sev, a, b, c) VP_LOG_IMPL_(sev)
#define LOG_IF(sev, cond) \
    for (bool vpLogOnceIf_ = (cond); vpLogOnceIf_; vpLogOnceIf_ = false) VP_LOG_IMPL_(sev)

#endif
