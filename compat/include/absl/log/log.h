// Compat shim (newer abseil API on the installed abseil 20220623).
#ifndef VERIF_COMPAT_ABSL_LOG_H_
#define VERIF_COMPAT_ABSL_LOG_H_
#include <cstdlib>
#include <iostream>
#include <sstream>
namespace verif_compat {
class LogMessage {
 public:
  LogMessage(int severity, const char* file, int line) : severity_(severity) {
    stream_ << file << ":" << line << "] ";
  }
  ~LogMessage() {
    if (severity_ >= 1) std::cerr << stream_.str() << std::endl;
    if (severity_ >= 3) std::abort();
  }
  std::ostream& stream() { return stream_; }

 private:
  int severity_;
  std::ostringstream stream_;
};
}  // namespace verif_compat
#define VERIF_SEV_INFO 0
#define VERIF_SEV_WARNING 1
#define VERIF_SEV_ERROR 2
#define VERIF_SEV_FATAL 3
#define VERIF_SEV_DFATAL 2
#define LOG(sev) \
  ::verif_compat::LogMessage(VERIF_SEV_##sev, __FILE__, __LINE__).stream()
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_EVERY_N_SEC(sev, n) LOG(sev)
#define VLOG(n) LOG(INFO)
#endif
