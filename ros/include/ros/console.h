#ifndef STUB_ROS_CONSOLE_H
#define STUB_ROS_CONSOLE_H
#include <iostream>
#include <sstream>
namespace ros { namespace console {
inline std::ostream& log(int) { return std::cerr; }   // sink of every log statement
bool logGate(int);                                    // throttle / once decision
inline bool logGate(int n) { return n >= 0; }
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void logf(const char*, ...) {}
} }
#define ROS_STUB_S(l, x) do { ::ros::console::log(l) << x << std::endl; } while (0)
#define ROS_STUB_G(l, c, x) do { if (c) { ::ros::console::log(l) << x << std::endl; } } while (0)
#define ROS_DEBUG_STREAM(x) ROS_STUB_S(0, x)
#define ROS_INFO_STREAM(x) ROS_STUB_S(1, x)
#define ROS_WARN_STREAM(x) ROS_STUB_S(2, x)
#define ROS_ERROR_STREAM(x) ROS_STUB_S(3, x)
#define ROS_FATAL_STREAM(x) ROS_STUB_S(4, x)
#define ROS_INFO_STREAM_ONCE(x) ROS_STUB_G(1, ::ros::console::logGate(1), x)
#define ROS_WARN_STREAM_ONCE(x) ROS_STUB_G(2, ::ros::console::logGate(1), x)
#define ROS_ERROR_STREAM_ONCE(x) ROS_STUB_G(3, ::ros::console::logGate(1), x)
#define ROS_LOG_STREAM_THROTTLE(r, x) ROS_STUB_G(1, ::ros::console::logGate(2), x)
#define ROS_INFO_STREAM_THROTTLE(r, x) ROS_STUB_G(1, ::ros::console::logGate(2), x)
#define ROS_WARN_STREAM_THROTTLE(r, x) ROS_STUB_G(2, ::ros::console::logGate(2), x)
#define ROS_ERROR_STREAM_THROTTLE(r, x) ROS_STUB_G(3, ::ros::console::logGate(2), x)
#define ROS_INFO_STREAM_COND(c, x) ROS_STUB_G(1, (c), x)
#define ROS_WARN_STREAM_COND(c, x) ROS_STUB_G(2, (c), x)
#define ROS_ERROR_STREAM_COND(c, x) ROS_STUB_G(3, (c), x)
#define ROS_DEBUG(...) ::ros::console::logf(__VA_ARGS__)
#define ROS_INFO(...) ::ros::console::logf(__VA_ARGS__)
#define ROS_WARN(...) ::ros::console::logf(__VA_ARGS__)
#define ROS_ERROR(...) ::ros::console::logf(__VA_ARGS__)
#define ROS_FATAL(...) ::ros::console::logf(__VA_ARGS__)
#define ROS_INFO_COND(c, ...) do { if (c) ::ros::console::logf(__VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) ::ros::console::logf(__VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) ::ros::console::logf(__VA_ARGS__); } while (0)
#define ROS_INFO_ONCE(...) do { if (::ros::console::logGate(1)) ::ros::console::logf(__VA_ARGS__); } while (0)
#define ROS_WARN_ONCE(...) do { if (::ros::console::logGate(1)) ::ros::console::logf(__VA_ARGS__); } while (0)
#define ROS_WARN_THROTTLE(r, ...) do { if (::ros::console::logGate(2)) ::ros::console::logf(__VA_ARGS__); } while (0)
#define ROS_ERROR_THROTTLE(r, ...) do { if (::ros::console::logGate(2)) ::ros::console::logf(__VA_ARGS__); } while (0)
#endif
