// Logging stand-in: all levels off (the log text is not part of any property).
#include <istat/Log.h>
#include <sstream>
namespace istat {
void LogFormatterLog::BufDeleter::operator()(std::stringstream *b) { delete b; }
LogFormatterLog::LogFormatterLog(bool, LogLevel level) : buf_((std::stringstream *)0, LogFormatterLog::BufDeleter(level)) {}
void LogConfig::setLogLevel(LogLevel) {}
void LogConfig::setStderrLogLevel(LogLevel) {}
void LogConfig::setOutputFile(char const *) {}
void LogConfig::setOutputInstance(boost::shared_ptr<LogInstance>) {}
void LogConfig::outputToFile(LogLevel, char const *, size_t) {}
void LogConfig::rollOver() {}
bool LogConfig::levelEnabled(LogLevel) { return false; }
void LogConfig::getLogLevels(LogLevel &a, LogLevel &b) { a = b = LL_Error; }
Log::Log(LogLevel level, char const *) : level_(level) {}
Log::~Log() {}
}
