// Stand-in for Logger/Logger.h used by the checks: log messages are dropped, fatal ones abort.
// Only message text is lost; CHECK/LOG(FATAL) still end the program.
#ifndef SHARED_LOGGER_H
#define SHARED_LOGGER_H
#include <array>
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <boost/config.hpp>
#ifndef LOGGER_EXPORT
#define LOGGER_EXPORT
#endif
inline bool g_enable_debug_timer = false;
namespace boost {
namespace program_options {
class options_description;
}
namespace filesystem {
class path;
}
}  // namespace boost
namespace logger {
enum Channel { IR = 0, PTX, ASM, _NCHANNELS };
enum Severity { DEBUG4 = 0, DEBUG3, DEBUG2, DEBUG1, INFO, WARNING, ERROR, FATAL, _NSEVERITIES };
constexpr bool is_fatal(Severity s) { return s == FATAL; }
constexpr bool is_fatal(Channel) { return false; }
constexpr bool fast_logging_check(Channel) { return false; }
constexpr bool fast_logging_check(Severity s) { return s == FATAL; }
struct FatalStream {
  explicit FatalStream() { std::abort(); }
  template <typename T>
  FatalStream& operator<<(T const&) {
    return *this;
  }
  FatalStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
using ThreadId = uint64_t;
using QueryId = uint64_t;
inline ThreadId thread_id() { return 0; }
inline QueryId query_id() { return 0; }
inline void debug_timer_new_thread(ThreadId) {}
struct DebugTimer {
  DebugTimer(Severity, char const*, int, char const*) {}
  ~DebugTimer() {}
  void stop() {}
  std::string stopAndGetJson() { return {}; }
};
struct QidScopeGuard {
  QueryId id_;
  QidScopeGuard(QueryId const id) : id_{id} {}
  QueryId id() const { return id_; }
};
inline QidScopeGuard set_thread_local_query_id(QueryId const id) { return QidScopeGuard(id); }
}  // namespace logger
#define SLOG(t) \
  if (logger::is_fatal(t)) logger::FatalStream()
#define LOG(tag) SLOG(logger::tag)
#define LOGGING(tag) false
#define VLOGGING(n) false
#define LOG_IF(severity, condition) \
  if (condition)                    \
  LOG(severity)
#define VLOG(n) LOG(DEBUG##n)
#define CHECK(condition) \
  if (!(condition)) logger::FatalStream()
#define CHECK_EQ(x, y) CHECK((x) == (y))
#define CHECK_NE(x, y) CHECK((x) != (y))
#define CHECK_LT(x, y) CHECK((x) < (y))
#define CHECK_LE(x, y) CHECK((x) <= (y))
#define CHECK_GT(x, y) CHECK((x) > (y))
#define CHECK_GE(x, y) CHECK((x) >= (y))
#define UNREACHABLE() LOG(FATAL)
#define DEBUG_TIMER(name) logger::DebugTimer(logger::INFO, __FILE__, __LINE__, name)
#define DEBUG_TIMER_NEW_THREAD(parent_thread_id) \
  do {                                           \
  } while (false)
#endif
