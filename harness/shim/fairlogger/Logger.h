// Minimal stand-in for FairLogger (not installed here): enough of the interface
// for FairMQ's sources to compile. Silent unless FMQ_SHIM_LOG is set.
#ifndef VERIF_SHIM_FAIRLOGGER_H
#define VERIF_SHIM_FAIRLOGGER_H
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <string_view>

namespace fair {
enum class Severity : int
{
    nolog, fatal, error, alarm, important, warn, state, info, detail, debug, debug1, debug2, debug3, debug4, trace
};
enum class Verbosity : int
{
    verylow, low, medium, high, veryhigh, user1, user2, user3, user4
};
struct VerbositySpec
{
    enum class Info : int { timestamp_s, timestamp_us, severity, process_name, file, line, file_line_function };
    template<typename... Ts>
    static VerbositySpec Make(Ts...) { return {}; }
};
class Logger
{
  public:
    static void SetConsoleSeverity(Severity) {}
    static void SetConsoleSeverity(std::string_view) {}
    static void SetFileSeverity(Severity) {}
    static void SetFileSeverity(std::string_view) {}
    static void SetVerbosity(Verbosity) {}
    static void SetVerbosity(std::string_view) {}
    static void SetConsoleColor(bool = true) {}
    static std::string InitFileSink(std::string_view, std::string_view, bool = true) { return {}; }
    static void DefineVerbosity(Verbosity, VerbositySpec) {}
    static void CycleConsoleSeverityUp() {}
    static void CycleConsoleSeverityDown() {}
    static void CycleVerbosityUp() {}
    static void CycleVerbosityDown() {}
    static bool Enabled()
    {
        static bool const e = std::getenv("FMQ_SHIM_LOG") != nullptr;
        return e;
    }
    Logger(char const* sev) { fOs << "[" << sev << "] "; }
    Logger(Logger const&) = delete;
    ~Logger()
    {
        fOs << "\n";
        std::cerr << fOs.str() << std::flush;
    }
    Logger& Log() { return *this; }
    template<typename T>
    Logger& operator<<(T const& t)
    {
        fOs << t;
        return *this;
    }
    Logger& operator<<(std::ostream& (*f)(std::ostream&))
    {
        fOs << f;
        return *this;
    }

  private:
    std::ostringstream fOs;
};
}   // namespace fair

#define LOG(severity) \
    for (bool fairLOggerunLikelyvariable_ = ::fair::Logger::Enabled(); fairLOggerunLikelyvariable_; fairLOggerunLikelyvariable_ = false) \
    ::fair::Logger(#severity).Log()
#define LOGV(severity, verbosity) LOG(severity)
#define LOG_IF(severity, condition) \
    for (bool fairLOggerunLikelyvariable_ = ::fair::Logger::Enabled() && (condition); fairLOggerunLikelyvariable_; fairLOggerunLikelyvariable_ = false) \
    ::fair::Logger(#severity).Log()
#endif
