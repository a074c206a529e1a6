#include "h.hpp"
#include <exception>
#include <fcntl.h>
#include <net/if.h>
#include <sched.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <unistd.h>
// a loopback network of its own where the system allows it: runs side by side do not meet
static void put(const char* f, const char* s) { int d = open(f, O_WRONLY); if (d >= 0) { (void)!write(d, s, strlen(s)); close(d); } }
static void private_network() {
  char m[64]; snprintf(m, sizeof m, "0 %d 1\n", (int)getuid()); char g[64]; snprintf(g, sizeof g, "0 %d 1\n", (int)getgid());
  if (unshare(CLONE_NEWUSER | CLONE_NEWNET)) return;
  put("/proc/self/setgroups", "deny"); put("/proc/self/uid_map", m); put("/proc/self/gid_map", g);
  int s = socket(AF_INET, SOCK_DGRAM, 0); if (s < 0) return;
  struct ifreq r{}; strcpy(r.ifr_name, "lo"); r.ifr_flags = IFF_UP | IFF_RUNNING; (void)!ioctl(s, SIOCSIFFLAGS, &r); close(s);
}
namespace h {
u64 seed = 1; bool thorough = false; std::string only;
static char cur[4096] = "(start)"; static char sec[256] = "(start)";
static u64 evals = 0; static std::unordered_set<u64> seen; static u64 casehash = 0; static u64 sub = 0;
static std::vector<std::string> samples;
static unsigned case_limit = 100;
static u64 fnv(const char* p, u64 x = 1469598103934665603ull) { while (*p) x = (x ^ (u8)*p++) * 1099511628211ull; return x; }
void section(const char* n) { snprintf(sec, sizeof sec, "%s", n); snprintf(cur, sizeof cur, "%s", "-"); casehash = fnv(n); sub = 0; printf("SECTION %s\n", n); fflush(stdout); alarm(case_limit); }
bool selected(const char* n) { return only.empty() || std::string(n).rfind(only, 0) == 0; }
void casef(const char* f, ...) { va_list a; va_start(a, f); vsnprintf(cur, sizeof cur, f, a); va_end(a); for (char* q = cur; *q; q++) if (*q == 10) *q = 59; casehash = fnv(cur, fnv(sec)); sub = 0;
  if (samples.size() < 6 || (samples.size() < 24 && evals % 97 == 0)) samples.push_back(std::string(sec) + ": " + cur);
  alarm(case_limit); }
void count(bool) { evals++; if (seen.size() < 2000000) seen.insert(casehash); }
void count_key(u64 k) { evals++; if (seen.size() < 2000000) seen.insert(casehash ^ (k * 0x9E3779B97F4A7C15ull)); }
static void finish(const char* kind) { printf("%s section=%s\n", kind, sec); printf("CASE %s\n", cur); fflush(stdout); }
void fail(const char* f, ...) { finish("FAIL"); va_list a; va_start(a, f); printf("DETAIL "); vprintf(f, a); va_end(a); printf("\n"); fflush(stdout); _exit(1); }
static void onsig(int s) { 
  char b[4700]; int n = snprintf(b, sizeof b, "\nFAIL section=%s\nCASE %s\nDETAIL %s (signal %d)\n", sec, cur, s == SIGALRM ? "no progress: the call blocks or loops for ever" : "crash", s);
  (void)!write(1, b, n); _exit(1); }
std::string hex(const void* p, std::size_t n) { std::string s; char b[4]; for (std::size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const u8*)p)[i]); s += b; } return s; }
std::string s128(u128 v) { char b[64]; snprintf(b, 64, "0x%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; }
}
int main() {
  using namespace h;
  if (const char* e = getenv("VERIF_SEED")) seed = strtoull(e, 0, 10);
  if (const char* e = getenv("VERIF_TIER")) thorough = !strcmp(e, "thorough");
  if (const char* e = getenv("H_ONLY")) only = e;
  if (const char* e = getenv("H_LIMIT")) case_limit = atoi(e);
  static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTERM}) { struct sigaction sa{}; sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
  private_network();
  try { run(); }
  catch (const std::exception& e) { fail("unexpected exception: %s", e.what()); }
  catch (...) { fail("unexpected exception of another type"); }
  printf("EVALS %llu\nDISTINCT %zu\n", (unsigned long long)evals, seen.size());
  for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
  printf("OK\n"); fflush(stdout); _exit(0);
}
