#ifndef SHIM_QCLIENT_LOGGER_HH
#define SHIM_QCLIENT_LOGGER_HH
#include <string>
namespace qclient {
enum class LogLevel { kFatal = 0, kError, kWarn, kInfo, kDebug };
inline std::string logLevelToString(LogLevel l) {
  switch(l) {
    case LogLevel::kFatal: return "FATAL";
    case LogLevel::kError: return "ERROR";
    case LogLevel::kWarn: return "WARN";
    case LogLevel::kInfo: return "INFO";
    default: return "DEBUG";
  }
}
class Logger {
public:
  virtual ~Logger() {}
  virtual void print(LogLevel level, int line, const std::string &file, const std::string &msg) = 0;
protected:
  LogLevel logLevel = LogLevel::kWarn;
};
}
#endif
