// The simulator's stand-in for glog: same macros, messages go to the run's
// event log, and a fatal failure is simulated process death (an exception that
// only the simulator catches), so that one process can host many executions.
#ifndef SIM_GLOG_LOGGING_H_
#define SIM_GLOG_LOGGING_H_
#include <cerrno>
#include <cstring>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
namespace sim {
void LogLine(int severity, const char* file, int line, const std::string& msg);
[[noreturn]] void Die(const std::string& why);
class LogMessage {
 public:
  LogMessage(const char* file, int line, int severity, bool with_errno = false)
      : file_(file), line_(line), severity_(severity), with_errno_(with_errno), errno_(errno) {}
  LogMessage(const char* file, int line, int severity, const std::string& check)
      : LogMessage(file, line, severity) { s_ << "Check failed: " << check << " "; }
  ~LogMessage() noexcept(false) {
    if (with_errno_) s_ << ": errno " << errno_;
    LogLine(severity_, file_, line_, s_.str());
    if (severity_ >= 3) Die(std::string(Base(file_)) + ":" + std::to_string(line_) + " " + s_.str());
  }
  std::ostream& stream() { return s_; }
  static const char* Base(const char* f) { const char* p = strrchr(f, '/'); return p ? p + 1 : f; }
 private:
  const char* file_; int line_; int severity_; bool with_errno_; int errno_;
  std::ostringstream s_;
};
struct Voidify { void operator&(std::ostream&) {} };
template <typename T> auto PrintVal0(std::ostream& os, const T& v, int) -> decltype(void(os << v)) { os << v; }
template <typename T> void PrintVal0(std::ostream& os, const T& v, long) { os << "<unprintable>"; }
template <typename T> void PrintVal(std::ostream& os, const T& v) { PrintVal0(os, v, 0); }
inline void PrintVal(std::ostream& os, std::nullptr_t) { os << "nullptr"; }
template <typename A, typename B>
std::unique_ptr<std::string> CheckFail(const A& a, const B& b, const char* text) {
  std::ostringstream s; s << text << " ("; PrintVal(s, a); s << " vs. "; PrintVal(s, b); s << ")";
  return std::make_unique<std::string>(s.str());
}
#define SIM_DEF_CHECK_OP(name, op) \
  template <typename A, typename B> \
  std::unique_ptr<std::string> Check##name(const A& a, const B& b, const char* text) { \
    if (a op b) return nullptr; return CheckFail(a, b, text); }
SIM_DEF_CHECK_OP(EQ, ==) SIM_DEF_CHECK_OP(NE, !=) SIM_DEF_CHECK_OP(LT, <)
SIM_DEF_CHECK_OP(LE, <=) SIM_DEF_CHECK_OP(GT, >) SIM_DEF_CHECK_OP(GE, >=)
template <typename T> T CheckNotNull(const char* f, int l, const char* n, T&& t) {
  if (t == nullptr) LogMessage(f, l, 3).stream() << "Check failed: '" << n << "' Must be non NULL ";
  return std::forward<T>(t);
}
}  // namespace sim
namespace google {
enum LogSeverity { INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3 };
const int GLOG_INFO = 0, GLOG_WARNING = 1, GLOG_ERROR = 2, GLOG_FATAL = 3;
inline void InitGoogleLogging(const char*) {}
inline void ShutdownGoogleLogging() {}
inline void SetStderrLogging(int) {}
inline void InstallFailureSignalHandler() {}
inline void FlushLogFiles(int) {}
}  // namespace google
#define SIM_SEV_INFO 0
#define SIM_SEV_WARNING 1
#define SIM_SEV_ERROR 2
#define SIM_SEV_FATAL 3
#define SIM_SEV_QFATAL 3
#define SIM_SEV_DFATAL 2
#define LOG(sev) ::sim::LogMessage(__FILE__, __LINE__, SIM_SEV_##sev).stream()
#define PLOG(sev) ::sim::LogMessage(__FILE__, __LINE__, SIM_SEV_##sev, true).stream()
#define LOG_IF(sev, c) !(c) ? (void)0 : ::sim::Voidify() & LOG(sev)
#define PLOG_IF(sev, c) !(c) ? (void)0 : ::sim::Voidify() & PLOG(sev)
#define LOG_EVERY_N(sev, n) LOG(sev)
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_IF_EVERY_N(sev, c, n) LOG_IF(sev, c)
#define VLOG_IS_ON(n) false
#define VLOG(n) LOG_IF(INFO, false)
#define VLOG_EVERY_N(n, m) VLOG(n)
#define VLOG_IF(n, c) LOG_IF(INFO, false)
#define CHECK(c) __builtin_expect(!!(c), 1) ? (void)0 : ::sim::Voidify() & ::sim::LogMessage(__FILE__, __LINE__, 3, std::string(#c)).stream()
#define PCHECK(c) __builtin_expect(!!(c), 1) ? (void)0 : ::sim::Voidify() & ::sim::LogMessage(__FILE__, __LINE__, 3, std::string(#c)).stream()
#define SIM_CHECK_OP(name, op, a, b) \
  while (std::unique_ptr<std::string> sim_r_ = ::sim::Check##name((a), (b), #a " " #op " " #b)) \
    ::sim::LogMessage(__FILE__, __LINE__, 3, *sim_r_).stream()
#define CHECK_EQ(a, b) SIM_CHECK_OP(EQ, ==, a, b)
#define CHECK_NE(a, b) SIM_CHECK_OP(NE, !=, a, b)
#define CHECK_LT(a, b) SIM_CHECK_OP(LT, <, a, b)
#define CHECK_LE(a, b) SIM_CHECK_OP(LE, <=, a, b)
#define CHECK_GT(a, b) SIM_CHECK_OP(GT, >, a, b)
#define CHECK_GE(a, b) SIM_CHECK_OP(GE, >=, a, b)
#define CHECK_NOTNULL(p) ::sim::CheckNotNull(__FILE__, __LINE__, #p, (p))
#define CHECK_STREQ(a, b) CHECK(strcmp((a), (b)) == 0)
#define CHECK_STRNE(a, b) CHECK(strcmp((a), (b)) != 0)
#define CHECK_OK(s) CHECK((s).ok())
#define QCHECK CHECK
#define QCHECK_OK CHECK_OK
#define QCHECK_EQ CHECK_EQ
// The shipped tools are release builds of autofdo (CMAKE_BUILD_TYPE unset: the
// DCHECKs are live there as well), as /opt/vp/build.sh does.
#define DLOG LOG
#define DVLOG VLOG
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
#define DCHECK_NOTNULL CHECK_NOTNULL
#endif
