#ifndef STUB_ROS_TIME_H
#define STUB_ROS_TIME_H
#include <cstdint>
#include <cmath>
#include <chrono>
#include <iostream>
namespace ros {
class Duration {
 public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  explicit Duration(double t) : sec(0), nsec(0) { fromSec(t); }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  Duration& fromSec(double t) {
    sec = static_cast<int32_t>(std::floor(t));
    nsec = static_cast<int32_t>((t - sec) * 1e9 + 0.5);
    return *this;
  }
  bool sleep() const { return true; }
  bool operator<(const Duration& o) const { return toSec() < o.toSec(); }
  bool operator>(const Duration& o) const { return toSec() > o.toSec(); }
  bool operator<=(const Duration& o) const { return toSec() <= o.toSec(); }
  bool operator>=(const Duration& o) const { return toSec() >= o.toSec(); }
};
class Time {
 public:
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) : sec(0), nsec(0) { fromSec(t); }
  double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ull + nsec; }
  Time& fromSec(double t) {
    sec = static_cast<uint32_t>(std::floor(t));
    nsec = static_cast<uint32_t>(std::floor((t - sec) * 1e9 + 0.5));
    if (nsec >= 1000000000u) { nsec -= 1000000000u; ++sec; }
    return *this;
  }
  static Time& fixed() { static Time t; return t; }
  static Time now() {
    if (fixed().sec || fixed().nsec) return fixed();
    double d = std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count();
    return Time(d);
  }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator-(const Time& o) const { return Duration(toSec() - o.toSec()); }
  Time operator+(const Duration& o) const { return Time(toSec() + o.toSec()); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Time& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Time& o) const { return toNSec() >= o.toNSec(); }
  bool operator==(const Time& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time& o) const { return toNSec() != o.toNSec(); }
};
inline std::ostream& operator<<(std::ostream& os, const Time& t) { return os << t.toSec(); }
typedef Time WallTime;
typedef Duration WallDuration;
}  // namespace ros
#endif
