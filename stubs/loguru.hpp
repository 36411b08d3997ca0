// Offline stand-in for loguru (the submodule is empty in this sandbox).
// FATAL throws verif::Fatal (the real one aborts the program).
#ifndef VERIF_STUB_LOGURU
#define VERIF_STUB_LOGURU
#include <cstdlib>
#include <cstring>
#include <string>
#include <sstream>
#include <iostream>
#include <vector>
#include <mutex>
#include <stdexcept>
#define LOGURU_WITH_STREAMS 1
namespace verif {
  struct Fatal { std::string text; };
  struct LogState {
    std::vector<std::string> errors;    // text of LOG_S(ERROR)
    std::vector<std::string> warnings;  // text of LOG_S(WARNING)
    unsigned long count = 0;
    bool keep = true;
    bool quiet = true;
    void (*hook)(const char *) = nullptr;
  };
  inline LogState &logs() { static LogState s; return s; }
}
namespace loguru {
  enum : int { Verbosity_FATAL = -3, Verbosity_ERROR = -2, Verbosity_WARNING = -1,
               Verbosity_INFO = 0, Verbosity_0 = 0, Verbosity_1 = 1, Verbosity_2 = 2,
               Verbosity_9 = 9, Verbosity_MAX = 9, Verbosity_OFF = -9 };
  enum FileMode { Truncate, Append };
  struct SignalOptions { bool unsafe_signal_handler = true, sigabrt = true, sigbus = true,
      sigfpe = true, sigill = true, sigint = true, sigsegv = true, sigterm = true; };
  struct Options { const char *verbosity_flag = "-v"; const char *main_thread_name = "main thread"; SignalOptions signals; };
  inline int g_stderr_verbosity = 0;
  inline bool g_preamble = true, g_preamble_header = true, g_preamble_date = true, g_preamble_time = true,
    g_preamble_uptime = true, g_preamble_thread = true, g_preamble_file = true, g_preamble_verbose = true, g_preamble_pipe = true;
  inline bool g_colorlogtostderr = true;
  inline void init(int &, char **, const Options & = Options()) {}
  inline bool add_file(const char *, FileMode, int) { return true; }
  inline void flush() {}
  inline void shutdown() {}
  class StubStream {
  public:
    explicit StubStream(int v) : v_(v) {}
    ~StubStream() noexcept(false) {
#ifdef VERIF_SCHED // messages are not a subject of the exploration of schedules
      if (v_ == Verbosity_FATAL) throw verif::Fatal{ss_.str()}; else return;
#endif
      verif::LogState &l = verif::logs();
      if (v_ == Verbosity_FATAL) throw verif::Fatal{ss_.str()};
      if (l.keep) {
        static std::mutex mx; std::lock_guard<std::mutex> g(mx);
        if (v_ == Verbosity_ERROR) l.errors.push_back(ss_.str());
        else if (v_ == Verbosity_WARNING) l.warnings.push_back(ss_.str());
      }
      if (!l.quiet) std::cerr << "[" << v_ << "] " << ss_.str() << std::endl;
      if (l.hook) l.hook("log");
    }
    template <typename T> StubStream &operator<<(const T &x) { ss_ << x; return *this; }
    StubStream &operator<<(std::ostream &(*f)(std::ostream &)) { f(ss_); return *this; }
  private:
    int v_; std::ostringstream ss_;
  };
}
#define LOG_S(name) ::loguru::StubStream(::loguru::Verbosity_##name)
#define LOG_IF_S(name, c) if (!(c)) {} else LOG_S(name)
#define VLOG_S(v) ::loguru::StubStream(v)
#define LOG_SCOPE_FUNCTION(name) do {} while (0)
#define LOG_SCOPE_F(...) do {} while (0)
#define LOG_F(name, ...) do { if (::loguru::Verbosity_##name == ::loguru::Verbosity_FATAL) throw ::verif::Fatal{"fatal"}; } while (0)
#define CHECK_S(c) if (c) {} else LOG_S(FATAL)
#endif
