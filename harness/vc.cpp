#include "vc.h"
#include <signal.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace vc {
Ctx& ctx() { static Ctx* c = new Ctx; return *c; }
static void esc(FILE* f, const char* s) {
  for (; *s; ++s) { if (*s == '\n') fputs("\\n", f); else if (*s == '\t') fputs(" ", f); else if (*s == '\\') fputs("\\\\", f); else fputc(*s, f); }
}
static void death() {
  auto& c = ctx();
  if (c.f) { fprintf(c.f, "CRASH\t"); esc(c.f, c.cur); fprintf(c.f, "\n"); fflush(c.f); }
}
static void onsig(int s) { death(); signal(s, SIG_DFL); raise(s); }
void init(int argc, char** argv) {
  auto& c = ctx();
  c.cur[0] = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") c.out = argv[++i];
    else if (a == "--shard") { sscanf(argv[++i], "%d/%d", &c.shard, &c.nshards); }
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--seed") c.seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--only") c.only = argv[++i];
  }
  c.f = c.out.empty() ? stdout : fopen(c.out.c_str(), "w");
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
  for (int s : {SIGABRT, SIGFPE, SIGILL}) signal(s, onsig);
  if (!__sanitizer_set_death_callback) { signal(SIGSEGV, onsig); signal(SIGBUS, onsig); }
}
void cur(const char* fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(ctx().cur, sizeof ctx().cur, fmt, a); va_end(a); }
static std::string vfmt(const char* fmt, va_list a) { char b[16384]; vsnprintf(b, sizeof b, fmt, a); return b; }
void fail(const std::string& key, const char* fmt, ...) {
  auto& c = ctx();
  int n = ++c.fails[key];
  if (n > 3 || c.fails.size() > 2000) return;  // first instances of each distinct failure
  va_list a; va_start(a, fmt); std::string d = vfmt(fmt, a); va_end(a);
  fprintf(c.f, "FAIL\t%s\t", key.c_str()); esc(c.f, d.c_str()); fprintf(c.f, "\n"); fflush(c.f);
}
void sample(const char* fmt, ...) {
  auto& c = ctx();
  if (c.samples.size() >= 3) return;
  va_list a; va_start(a, fmt); c.samples.push_back(vfmt(fmt, a)); va_end(a);
}
uint64_t hashf(double v) { if (std::isnan(v)) return 0x7ff8; if (std::isinf(v)) return v > 0 ? 0x7ff1 : 0x7ff2; return (uint64_t)(int64_t)std::llround(v * 1e6); }
int done() {
  auto& c = ctx();
  for (auto& s : c.samples) { fprintf(c.f, "SAMPLE\t"); esc(c.f, s.c_str()); fprintf(c.f, "\n"); }
  for (auto& i : c.info) fprintf(c.f, "INFO\t%s\t%llu\n", i.first.c_str(), (unsigned long long)i.second);
  for (auto& i : c.fails) fprintf(c.f, "FAILCOUNT\t%s\t%d\n", i.first.c_str(), i.second);
  fprintf(c.f, "COUNTS\t%llu\t%llu\t%llu\t%llu\t%llu\t%d\n", (unsigned long long)c.states, (unsigned long long)c.transitions, (unsigned long long)c.evals, (unsigned long long)c.traces, (unsigned long long)c.outcomes.size(), (int)c.exhaustive);
  fprintf(c.f, "DONE\n"); fflush(c.f);
  fflush(stdout);
  _exit(0);  // threads or static destructors of the code under test play no part in the verdict
}
}
