#pragma once
// Small exploration library shared by all harnesses: sharding, counters, samples, violation reports, replay info.
#include <cstdarg>
#include <unordered_set>
namespace vc {
struct Ctx {
  std::string out, only;      // result file; "only" = replay a single case id
  bool thorough = false;
  int shard = 0, nshards = 1;
  uint64_t seed = 1;
  uint64_t states = 0, transitions = 0, evals = 0, traces = 0;
  std::unordered_set<uint64_t> outcomes;
  std::vector<std::string> samples;
  std::map<std::string, int> fails;
  std::map<std::string, uint64_t> info;
  bool exhaustive = true;
  FILE* f = nullptr;
  char cur[8192];
};
Ctx& ctx();
void init(int argc, char** argv);
// round robin ownership of top-level work items
inline bool mine(uint64_t i) { return (int)(i % ctx().nshards) == ctx().shard; }
void cur(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// key: stable identity of what fails (used to match known findings); detail: the failing input/history
void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void outcome(uint64_t h) { if (ctx().outcomes.size() < 2000000) ctx().outcomes.insert(h); }
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }
uint64_t hashf(double v);  // rounds to 1e-6
int done();
// float helpers
inline bool near(double a, double b, double tol = 1e-4) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (std::isinf(a) || std::isinf(b)) return a == b; return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
inline void set_time(double s) { shim::clock_ns = (int64_t)std::llround(s * 1e9); }
inline void add_ms(int64_t ms) { shim::clock_ns += ms * 1000000LL; }
}
