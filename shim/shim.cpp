#include <ros/ros.h>
#include <tf/transform_listener.h>
#include <octomap/octomap.h>
#include <octomap_msgs/conversions.h>
#include <cstdarg>
namespace shim {
std::atomic<int64_t> clock_ns{1000LL * 1000000000LL};
static void default_sleep(int64_t ns) { if (ns > 0) clock_ns += ns; }
void (*on_sleep)(int64_t) = default_sleep;
bool log_verbose = getenv("SHIM_LOG") != nullptr;
static thread_local char buf[4096];
void logf(int level, const char* fmt, ...) {
  va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
  if (log_verbose) fprintf(stderr, "[%d] %s\n", level, buf);
}
void logs(int level, const std::string& s) { if (log_verbose) fprintf(stderr, "[%d] %s\n", level, s.c_str()); }
ThreadHooks* threads = nullptr;
Bus& bus() { static Bus* b = new Bus; return *b; }
void Bus::clear() {
  std::lock_guard<std::recursive_mutex> l(m);
  subs.clear(); timers.clear(); pubs.clear(); params_s.clear(); params_d.clear(); params_b.clear(); params_v.clear();
  service = nullptr; on_publish = nullptr; on_published = nullptr; on_call_available = nullptr; on_spin = nullptr; record = true; ok = true; spinners_started = 0; next_id = 0;
}
std::function<bool(const std::string&, const std::string&, const ros::Time&, tf::StampedTransform&)> tf_lookup;
std::function<octomap::AbstractOcTree*(const octomap_msgs::Octomap&)> octomap_decode;
}
namespace ros { CallbackQueue* getGlobalCallbackQueue() { static CallbackQueue q; return &q; } }
namespace tf { constexpr double Transformer::DEFAULT_CACHE_TIME; }
int octomap::OcTree::live = 0;
