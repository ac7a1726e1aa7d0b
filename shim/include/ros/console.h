#pragma once
#include <cstdio>
#include <sstream>
#include <string>
#include <ros/time.h>
// Logging: arguments are evaluated and formatted (so that bad formats and bad reads are still executed), then dropped.
namespace shim {
extern bool log_verbose;
void logf(int level, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void logs(int level, const std::string& s);
}
namespace ros {
namespace console {
namespace levels { enum Level { Debug, Info, Warn, Error, Fatal, Count }; }
typedef levels::Level Level;
inline bool set_logger_level(const std::string&, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {}
}
}
#define ROSCONSOLE_DEFAULT_NAME "ros"
#define SHIM_LOGF(l, ...) ::shim::logf(l, __VA_ARGS__)
#define SHIM_LOGS(l, args) do { std::stringstream shim_ss__; shim_ss__ << args; ::shim::logs(l, shim_ss__.str()); } while (0)
#define SHIM_DEF(NAME, L) 
#define ROS_DEBUG(...) SHIM_LOGF(0, __VA_ARGS__)
#define ROS_INFO(...) SHIM_LOGF(1, __VA_ARGS__)
#define ROS_WARN(...) SHIM_LOGF(2, __VA_ARGS__)
#define ROS_ERROR(...) SHIM_LOGF(3, __VA_ARGS__)
#define ROS_FATAL(...) SHIM_LOGF(4, __VA_ARGS__)
#define ROS_DEBUG_NAMED(n, ...) SHIM_LOGF(0, __VA_ARGS__)
#define ROS_INFO_NAMED(n, ...) SHIM_LOGF(1, __VA_ARGS__)
#define ROS_WARN_NAMED(n, ...) SHIM_LOGF(2, __VA_ARGS__)
#define ROS_ERROR_NAMED(n, ...) SHIM_LOGF(3, __VA_ARGS__)
#define ROS_DEBUG_STREAM(a) SHIM_LOGS(0, a)
#define ROS_INFO_STREAM(a) SHIM_LOGS(1, a)
#define ROS_WARN_STREAM(a) SHIM_LOGS(2, a)
#define ROS_ERROR_STREAM(a) SHIM_LOGS(3, a)
#define ROS_FATAL_STREAM(a) SHIM_LOGS(4, a)
#define ROS_DEBUG_ONCE(...) SHIM_LOGF(0, __VA_ARGS__)
#define ROS_INFO_ONCE(...) SHIM_LOGF(1, __VA_ARGS__)
#define ROS_WARN_ONCE(...) SHIM_LOGF(2, __VA_ARGS__)
#define ROS_ERROR_ONCE(...) SHIM_LOGF(3, __VA_ARGS__)
#define ROS_DEBUG_THROTTLE(r, ...) SHIM_LOGF(0, __VA_ARGS__)
#define ROS_INFO_THROTTLE(r, ...) SHIM_LOGF(1, __VA_ARGS__)
#define ROS_WARN_THROTTLE(r, ...) SHIM_LOGF(2, __VA_ARGS__)
#define ROS_ERROR_THROTTLE(r, ...) SHIM_LOGF(3, __VA_ARGS__)
#define ROS_INFO_STREAM_THROTTLE(r, a) SHIM_LOGS(1, a)
#define ROS_WARN_STREAM_THROTTLE(r, a) SHIM_LOGS(2, a)
#define ROS_ERROR_STREAM_THROTTLE(r, a) SHIM_LOGS(3, a)
#define ROS_INFO_COND(c, ...) do { if (c) SHIM_LOGF(1, __VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) SHIM_LOGF(2, __VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) SHIM_LOGF(3, __VA_ARGS__); } while (0)
#define ROS_ASSERT(c) do { if (!(c)) { std::fprintf(stderr, "ROS_ASSERT %s\n", #c); abort(); } } while (0)
