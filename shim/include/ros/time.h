#pragma once
// Stand-in for roscpp's time: real Time/Duration arithmetic, virtual clock.
#include <atomic>
#include <cmath>
#include <cstdint>
#include <limits>
#include <ostream>
#include <stdexcept>
namespace shim {
extern std::atomic<int64_t> clock_ns;         // virtual time
extern void (*on_sleep)(int64_t ns);          // called by Duration::sleep etc.; default advances the clock
}
namespace ros {
template <class T>
class DurationBase {
 public:
  int32_t sec = 0, nsec = 0;
  DurationBase() {}
  DurationBase(int32_t s, int32_t n) { setNs((int64_t)s * 1000000000LL + n); }
  explicit DurationBase(double d) { fromSec(d); }
  T& fromSec(double d) {
    if (!std::isfinite(d) || std::fabs(d) > 2147483647.0) throw std::runtime_error("Duration is out of dual 32-bit range");
    int64_t s = (int64_t)std::floor(d);
    int64_t n = (int64_t)std::llround((d - (double)s) * 1e9);
    setNs(s * 1000000000LL + n);
    return *static_cast<T*>(this);
  }
  T& fromNSec(int64_t t) { setNs(t); return *static_cast<T*>(this); }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000LL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  T operator+(const T& r) const { T t; t.setNs(toNSec() + r.toNSec()); return t; }
  T operator-(const T& r) const { T t; t.setNs(toNSec() - r.toNSec()); return t; }
  T operator-() const { T t; t.setNs(-toNSec()); return t; }
  T operator*(double s) const { return T(toSec() * s); }
  T& operator+=(const T& r) { setNs(toNSec() + r.toNSec()); return *static_cast<T*>(this); }
  T& operator-=(const T& r) { setNs(toNSec() - r.toNSec()); return *static_cast<T*>(this); }
  bool operator==(const T& r) const { return toNSec() == r.toNSec(); }
  bool operator!=(const T& r) const { return toNSec() != r.toNSec(); }
  bool operator<(const T& r) const { return toNSec() < r.toNSec(); }
  bool operator>(const T& r) const { return toNSec() > r.toNSec(); }
  bool operator<=(const T& r) const { return toNSec() <= r.toNSec(); }
  bool operator>=(const T& r) const { return toNSec() >= r.toNSec(); }
  void setNs(int64_t t) {
    int64_t s = t / 1000000000LL, n = t % 1000000000LL;
    if (n < 0) { n += 1000000000LL; --s; }
    if (s > 2147483647LL || s < -2147483648LL) throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = (int32_t)s; nsec = (int32_t)n;
  }
};
class Duration : public DurationBase<Duration> {
 public:
  Duration() {}
  Duration(int32_t s, int32_t n) : DurationBase<Duration>(s, n) {}
  explicit Duration(double d) : DurationBase<Duration>(d) {}
  bool sleep() const { if (shim::on_sleep) shim::on_sleep(toNSec()); return true; }
};
class WallDuration : public DurationBase<WallDuration> {
 public:
  WallDuration() {}
  WallDuration(int32_t s, int32_t n) : DurationBase<WallDuration>(s, n) {}
  explicit WallDuration(double d) : DurationBase<WallDuration>(d) {}
  bool sleep() const { if (shim::on_sleep) shim::on_sleep(toNSec()); return true; }
};
template <class T, class D>
class TimeBase {
 public:
  uint32_t sec = 0, nsec = 0;
  TimeBase() {}
  TimeBase(uint32_t s, uint32_t n) { setNs((int64_t)s * 1000000000LL + n); }
  explicit TimeBase(double d) { fromSec(d); }
  T& fromSec(double d) {
    if (!std::isfinite(d) || d < 0 || d > 4294967295.0) throw std::runtime_error("Time is out of dual 32-bit range");
    int64_t s = (int64_t)std::floor(d);
    setNs(s * 1000000000LL + (int64_t)std::llround((d - (double)s) * 1e9));
    return *static_cast<T*>(this);
  }
  T& fromNSec(uint64_t t) { setNs((int64_t)t); return *static_cast<T*>(this); }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ULL + nsec; }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool is_zero() const { return isZero(); }
  D operator-(const T& r) const { D d; d.setNs((int64_t)toNSec() - (int64_t)r.toNSec()); return d; }
  T operator+(const D& r) const { T t; t.setNs((int64_t)toNSec() + r.toNSec()); return t; }
  T operator-(const D& r) const { T t; t.setNs((int64_t)toNSec() - r.toNSec()); return t; }
  T& operator+=(const D& r) { setNs((int64_t)toNSec() + r.toNSec()); return *static_cast<T*>(this); }
  T& operator-=(const D& r) { setNs((int64_t)toNSec() - r.toNSec()); return *static_cast<T*>(this); }
  bool operator==(const T& r) const { return toNSec() == r.toNSec(); }
  bool operator!=(const T& r) const { return toNSec() != r.toNSec(); }
  bool operator<(const T& r) const { return toNSec() < r.toNSec(); }
  bool operator>(const T& r) const { return toNSec() > r.toNSec(); }
  bool operator<=(const T& r) const { return toNSec() <= r.toNSec(); }
  bool operator>=(const T& r) const { return toNSec() >= r.toNSec(); }
  void setNs(int64_t t) {
    if (t < 0) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = (uint32_t)(t / 1000000000LL); nsec = (uint32_t)(t % 1000000000LL);
  }
};
class Time : public TimeBase<Time, Duration> {
 public:
  Time() {}
  Time(uint32_t s, uint32_t n) : TimeBase<Time, Duration>(s, n) {}
  explicit Time(double d) : TimeBase<Time, Duration>(d) {}
  static Time now() { Time t; t.setNs(shim::clock_ns.load()); return t; }
  static void init() {}
  static void shutdown() {}
  static bool isValid() { return true; }
  static bool waitForValid() { return true; }
  static bool isSystemTime() { return false; }
  static bool isSimTime() { return true; }
  static bool useSystemTime() { return false; }
  static bool sleepUntil(const Time& t) { Duration d = t - now(); if (d > Duration()) d.sleep(); return true; }
};
class WallTime : public TimeBase<WallTime, WallDuration> {
 public:
  WallTime() {}
  WallTime(uint32_t s, uint32_t n) : TimeBase<WallTime, WallDuration>(s, n) {}
  explicit WallTime(double d) : TimeBase<WallTime, WallDuration>(d) {}
  static WallTime now() { WallTime t; t.setNs(shim::clock_ns.load()); return t; }
};
typedef Time SteadyTime;
class Rate {
 public:
  Rate(double hz) : d_(1.0 / hz) {}
  explicit Rate(const Duration& d) : d_(d) {}
  bool sleep() { return d_.sleep(); }
  void reset() {}
  Duration expectedCycleTime() const { return d_; }
  Duration cycleTime() const { return d_; }
 private:
  Duration d_;
};
typedef Rate WallRate;
const Duration DURATION_MAX(std::numeric_limits<int32_t>::max(), 999999999);
const Duration DURATION_MIN(std::numeric_limits<int32_t>::min(), 0);
const Time TIME_MAX(std::numeric_limits<uint32_t>::max(), 999999999);
const Time TIME_MIN(0, 1);
inline std::ostream& operator<<(std::ostream& o, const Time& t) { return o << t.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const Duration& t) { return o << t.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const WallDuration& t) { return o << t.toSec(); }
}
