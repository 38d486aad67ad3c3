// Simulator core: seams, plan files, fork-per-run execution, command line.
#include "core.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <new>
#include <sstream>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {
const char* counter_names[] = {
#define X(n) #n,
    SIM_COUNTERS(X)
#undef X
};
static Result dummy_result;
Result* R = &dummy_result;

std::string strf(const char* fmt, ...) {
  char buf[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
void violate(const std::string& kind, const char* fmt, ...) {
  char buf[1300];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Violation{kind, buf};
}

// ------------------------------------------------------------------ seams
namespace seam {
uint64_t draws = 0;
double last_u = 0;
double drawn[64];
int ndrawn = 0;
static bool forced = false;
static double forced_u = 0;
void force(double u) { forced = true; forced_u = u; }
void unforce() { forced = false; }
static long long clk_now = 1600000000000000000ll, clk_step = 1;
static uint64_t device_reads = 0;
void clock_set(long long ns, long long step) { clk_now = ns; clk_step = step; device_reads = 0; }
void clock_jump(long long ns) { clk_now += ns; }
static long alloc_left = 0;
static bool alloc_fired = false;
static uint64_t alloc_n = 0;
static uint64_t pad_state = 0;
static int fill_byte = 0xa5;
static int pid = 4000;
void alloc_arm(long n) { alloc_left = n; alloc_fired = false; if (n > 0) bump(CNT_fault_alloc_armed); }
bool alloc_disarm() { alloc_left = 0; bool f = alloc_fired; alloc_fired = false; return f; }
void heap_layout(uint64_t s) {
  pad_state = s;
  fill_byte = s ? 0x5b : 0xa5;
  pid = s ? 51234 : 4000;
}
static bool should_fail() {
  ++alloc_n;
  if (alloc_left > 0 && --alloc_left == 0) { alloc_fired = true; bump(CNT_fault_alloc_fired); return true; }
  return false;
}
}  // namespace seam
uint64_t alloc_count() { return seam::alloc_n; }
}  // namespace sim

namespace std {
template <>
double generate_canonical<double, 53, mt19937>(mt19937& g) {
  using namespace sim;
  // what libstdc++ computes: two 32-bit words, low word first
  double lo = (double)(g() - mt19937::min());
  double hi = (double)(g() - mt19937::min());
  double u = (lo + hi * 4294967296.0) / 18446744073709551616.0;
  if (u >= 1.0) u = 0x1.fffffffffffffp-1;
  if (seam::forced) { seam::forced = false; u = seam::forced_u; bump(CNT_fault_random_forced); }
  ++seam::draws;
  seam::last_u = u;
  if (seam::ndrawn < 64) seam::drawn[seam::ndrawn] = u;
  ++seam::ndrawn;
  bump(CNT_random_draws);
  return u;
}
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  sim::bump(sim::CNT_clock_reads);
  sim::seam::clk_now += sim::seam::clk_step;
  return time_point(duration_cast<duration>(nanoseconds(sim::seam::clk_now)));
}
steady_clock::time_point steady_clock::now() noexcept {
  sim::bump(sim::CNT_clock_reads);
  sim::seam::clk_now += sim::seam::clk_step > 0 ? sim::seam::clk_step : 1;
  return time_point(nanoseconds(sim::seam::clk_now));
}
}
}
random_device::result_type random_device::_M_getval() {
  sim::bump(sim::CNT_clock_reads);
  sim::seam::clk_now += sim::seam::clk_step;
  // not a clock: differs from call to call even while the clock stands still
  uint64_t x = (uint64_t)sim::seam::clk_now * 0x9E3779B97F4A7C15ull + ++sim::seam::device_reads * 0xD1B54A32D192ED03ull;
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ull;
  return (result_type)(x >> 32);
}
}  // namespace std
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept {
  sim::bump(sim::CNT_clock_reads);
  sim::seam::clk_now += sim::seam::clk_step;
  ts->tv_sec = sim::seam::clk_now / 1000000000ll;
  ts->tv_nsec = sim::seam::clk_now % 1000000000ll;
  return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  sim::bump(sim::CNT_clock_reads);
  sim::seam::clk_now += sim::seam::clk_step;
  tv->tv_sec = sim::seam::clk_now / 1000000000ll;
  tv->tv_usec = sim::seam::clk_now % 1000000000ll / 1000;
  return 0;
}
extern "C" clock_t clock(void) noexcept {
  sim::seam::clk_now += sim::seam::clk_step;
  return (clock_t)(sim::seam::clk_now / 1000);
}
extern "C" pid_t getpid(void) noexcept { return sim::seam::pid; }
extern "C" time_t time(time_t* t) noexcept {
  time_t v = (time_t)(sim::seam::clk_now / 1000000000ll);
  if (t) *t = v;
  return v;
}

// ------------------------------------------------------------------ memory
namespace sim { namespace seam { long live_bytes = 0, live_blocks = 0; } }
// In the plain build new objects come from an arena at a fixed address, with
// gaps chosen by a seed, so that addresses are part of the plan.  In the
// sanitizer build malloc serves them (red zones), only failures are injected.
#ifndef SIM_SANITIZE
namespace {
char* const ARENA = (char*)0x200000000000ull;
const size_t ARENA_SIZE = 4ull << 30;
char* arena_base = ARENA;
char* arena_next = nullptr;
char* arena_end = nullptr;
struct Free { Free* next; };
Free* free_lists[64 + 48];
void* arena_alloc(size_t n) {
  if (!arena_next) {
    void* p = mmap(arena_base, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) { const char m[] = "sim: cannot map arena\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
    arena_next = (char*)p;
    arena_end = arena_next + ARENA_SIZE;
  }
  size_t need = n + 16, cls, sz;
  if (need <= 1024) { cls = (need + 15) / 16; sz = cls * 16; }
  else { size_t b = 11; while ((1ull << b) < need) ++b; cls = 64 + b; sz = 1ull << b; }
  char* p;
  if (free_lists[cls]) { p = (char*)free_lists[cls]; free_lists[cls] = free_lists[cls]->next; }
  else {
    if (sim::seam::pad_state) {
      uint64_t& x = sim::seam::pad_state;
      x ^= x << 13; x ^= x >> 7; x ^= x << 17;
      arena_next += 16 * (x % 7);
    }
    if (arena_next + sz > arena_end) return nullptr;
    p = arena_next;
    arena_next += sz;
  }
  *(size_t*)p = cls;
  ((size_t*)p)[1] = n;
  sim::seam::live_bytes += n;
  ++sim::seam::live_blocks;
  memset(p + 16, sim::seam::fill_byte, sz - 16);  // what was there before is no input
  return p + 16;
}
// a run starts with an empty arena of its own: addresses do not depend on what
// the process did before
void arena_fresh() {
  arena_base = ARENA + 2 * ARENA_SIZE;
  arena_next = arena_end = nullptr;
  memset(free_lists, 0, sizeof free_lists);
  sim::seam::live_bytes = sim::seam::live_blocks = 0;
}
void arena_free(void* q) {
  if (!q) return;
  char* p = (char*)q - 16;
  if (p < arena_base || p >= arena_end) return;  // from before arena_fresh
  size_t cls = *(size_t*)p;
  sim::seam::live_bytes -= ((size_t*)p)[1];
  --sim::seam::live_blocks;
  Free* f = (Free*)p;
  f->next = free_lists[cls];
  free_lists[cls] = f;
}
}  // namespace
static void* sim_new(size_t n) { return arena_alloc(n ? n : 1); }
static void sim_delete(void* p) { arena_free(p); }
#else
static void arena_fresh() {}
static void* sim_new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (p) { sim::seam::live_bytes += malloc_usable_size(p); ++sim::seam::live_blocks; }
  return p;
}
static void sim_delete(void* p) {
  if (p) { sim::seam::live_bytes -= malloc_usable_size(p); --sim::seam::live_blocks; }
  free(p);
}
#endif
void* operator new(size_t n) {
  if (sim::seam::should_fail()) throw std::bad_alloc();
  void* p = sim_new(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  if (sim::seam::should_fail()) return nullptr;
  return sim_new(n);
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }

// ------------------------------------------------------------------ crashes
namespace {
void put(char* dst, size_t cap, const char* a, const char* b = "") {
  size_t i = 0;
  for (; *a && i + 1 < cap; ++a) dst[i++] = *a;
  for (; *b && i + 1 < cap; ++b) dst[i++] = *b;
  dst[i] = 0;
}
void on_signal(int s) {
  const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : "signal";
  if (s == SIGPROF || s == SIGXCPU) {
    sim::R->status = sim::ST_HANG;
    put(sim::R->kind, sizeof sim::R->kind, "hang");
    put(sim::R->msg, sizeof sim::R->msg, "no progress: the step used up its CPU budget");
  } else {
    sim::R->status = sim::ST_CRASH;
    put(sim::R->kind, sizeof sim::R->kind, "crash.", n);
    put(sim::R->msg, sizeof sim::R->msg, "killed by ", n);
  }
  _exit(70);
}
}  // namespace
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* func) noexcept {
  (void)func;
  sim::R->status = sim::ST_CRASH;
  char e[100];
  size_t j = 0;
  for (size_t i = 0; expr[i] && j < 60; ++i) e[j++] = (expr[i] == ' ' || expr[i] == '"' || expr[i] == '\n') ? '_' : expr[i];
  e[j] = 0;
  put(sim::R->kind, sizeof sim::R->kind, "crash.assert:", e);
  const char* b = strrchr(file, '/');
  snprintf(sim::R->msg, sizeof sim::R->msg, "assertion failed at %s:%u: %s", b ? b + 1 : file, line, expr);
  _exit(70);
}
#ifdef SIM_SANITIZE
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=72:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=72:print_stacktrace=0"; }
#endif

// ------------------------------------------------------------------ plans
namespace sim {
static std::string num(double d) {
  char b[40];
  if (d == (double)(long long)d && std::fabs(d) < 1e15) snprintf(b, sizeof b, "%lld", (long long)d);
  else snprintf(b, sizeof b, "%.17g", d);
  return b;
}
std::string dump(const Plan& p) {
  std::string s = "mythical-sim-plan 1\nprop " + p.prop + "\nworld " + p.world + "\nseed " + std::to_string(p.seed) + "\n";
  for (auto& kv : p.cfg) s += "cfg " + kv.first + " " + num(kv.second) + "\n";
  for (auto& o : p.ops) {
    s += "op " + o.name;
    for (double d : o.a) s += " " + num(d);
    s += "\n";
  }
  return s;
}
bool parse(const std::string& text, Plan& p, std::string& err) {
  std::istringstream in(text);
  std::string line;
  bool head = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "mythical-sim-plan") head = true;
    else if (k == "prop") l >> p.prop;
    else if (k == "world") l >> p.world;
    else if (k == "seed") l >> p.seed;
    else if (k == "cfg") { std::string n, v; l >> n >> v; p.cfg[n] = strtod(v.c_str(), nullptr); }
    else if (k == "op") {
      Op o;
      l >> o.name;
      std::string v;
      while (l >> v) o.a.push_back(strtod(v.c_str(), nullptr));
      p.ops.push_back(o);
    } else if (k == "expect") { /* informational */ }
    else { err = "unknown line: " + line; return false; }
  }
  if (!head) { err = "not a plan file"; return false; }
  return true;
}

// ------------------------------------------------------------------ statistics
bool ks_exp_ok(std::vector<double>& x, double mean, double* stat) {
  bump(CNT_ks_tests);
  std::sort(x.begin(), x.end());
  double D = 0, n = x.size();
  for (size_t i = 0; i < x.size(); ++i) {
    double F = 1 - std::exp(-x[i] / mean);
    D = std::fmax(D, std::fmax((i + 1) / n - F, F - i / n));
  }
  double s = D * (std::sqrt(n) + 0.12 + 0.11 / std::sqrt(n));
  if (stat) *stat = s;
  return s < 3.6;  // about 1e-11
}
bool chi2_ok(const std::vector<double>& c, const std::vector<double>& pr, double* stat, double* limit) {
  bump(CNT_chi2_tests);
  double N = 0, X = 0, pc = 0, pp = 0;
  int df = -1;
  for (double v : c) N += v;
  for (size_t i = 0; i < c.size(); ++i) {
    if (pr[i] * N < 8) { pc += c[i]; pp += pr[i]; continue; }
    double e = pr[i] * N;
    X += (c[i] - e) * (c[i] - e) / e;
    ++df;
  }
  if (pp > 0 || pc > 0) {
    double e = pp * N;
    if (e < 8) {
      // pooled rare cell: a Poisson tail bound instead
      if (pc > e + 12 + 7 * std::sqrt(e + 1)) { *stat = pc; *limit = e + 12 + 7 * std::sqrt(e + 1); return false; }
    } else { X += (pc - e) * (pc - e) / e; ++df; }
  }
  if (df < 1) df = 1;
  // Wilson-Hilferty quantile at z = 6.8 (about 5e-12)
  double k = df, z = 6.8, t = 1 - 2 / (9 * k) + z * std::sqrt(2 / (9 * k));
  *limit = k * t * t * t + 10;
  *stat = X;
  return X < *limit;
}

// ------------------------------------------------------------------ running
static Plan generate(const std::string& prop, const std::string& world, uint64_t seed, int tier) {
  if (world == "kmc") return gen_kmc(prop, seed, tier);
  if (world == "queue") return gen_queue(prop, seed, tier);
  if (world == "registry") return gen_registry(prop, seed, tier);
  if (world == "place") return gen_place(prop, seed, tier);
  if (world == "sys") return gen_sys(prop, seed, tier);
  fprintf(stderr, "sim: unknown world %s\n", world.c_str());
  exit(98);
}
static void execute(const Plan& p) {
  try {
    if (p.world == "kmc") run_kmc(p);
    else if (p.world == "queue") run_queue(p);
    else if (p.world == "registry") run_registry(p);
    else if (p.world == "place") run_place(p);
    else if (p.world == "sys") run_sys(p);
    else { R->status = ST_SETUP; snprintf(R->msg, sizeof R->msg, "unknown world"); return; }
    R->status = ST_OK;
  } catch (const Violation& v) {
    seam::alloc_disarm();
    R->status = ST_VIOLATION;
    snprintf(R->kind, sizeof R->kind, "%s", v.kind.c_str());
    snprintf(R->msg, sizeof R->msg, "%s", v.msg.c_str());
  } catch (const std::exception& e) {
    seam::alloc_disarm();
    R->status = ST_CRASH;
    snprintf(R->kind, sizeof R->kind, "crash.exception");
    snprintf(R->msg, sizeof R->msg, "unexpected exception: %s", e.what());
  } catch (...) {
    seam::alloc_disarm();
    R->status = ST_CRASH;
    snprintf(R->kind, sizeof R->kind, "crash.exception");
    snprintf(R->msg, sizeof R->msg, "unexpected exception of unknown type");
  }
}
static void child_setup(int cpu_s) {
  for (int s : {SIGABRT, SIGFPE, SIGPROF
#ifndef SIM_SANITIZE
                , SIGSEGV, SIGBUS, SIGILL
#endif
       })
    signal(s, on_signal);
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = cpu_s;
  setitimer(ITIMER_PROF, &it, nullptr);
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
}
static int forked(const Plan& p, int cpu_s, bool quiet) {
  memset((void*)R, 0, sizeof *R);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(97); }
  if (pid == 0) {
    if (quiet) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      dup2(fd, 2);
    } else {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);  // the library prints; the report goes through shared memory
    }
    child_setup(cpu_s);
    arena_fresh();
    execute(p);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (R->status == ST_NONE || (R->status == ST_OK && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))) {
    R->status = ST_CRASH;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 72) {
      snprintf(R->kind, sizeof R->kind, "crash.sanitizer");
      snprintf(R->msg, sizeof R->msg, "AddressSanitizer/UndefinedBehaviorSanitizer report (replay the file to see it)");
    } else if (WIFSIGNALED(st)) {
      snprintf(R->kind, sizeof R->kind, "crash.signal%d", WTERMSIG(st));
      snprintf(R->msg, sizeof R->msg, "killed by signal %d", WTERMSIG(st));
    } else {
      snprintf(R->kind, sizeof R->kind, "crash.exit%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
      snprintf(R->msg, sizeof R->msg, "process ended unexpectedly");
    }
  }
  return R->status;
}
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if ((unsigned char)ch < 32) o += ' ';
    else o += ch;
  }
  return o + "\"";
}
static const char* status_name(int s) {
  static const char* n[] = {"none", "ok", "violation", "crash", "hang", "setup"};
  return s >= 0 && s <= 5 ? n[s] : "?";
}
static double wall() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (argc < 2) { fprintf(stderr, "usage: sim run|replay|gen|info ...\n"); return 98; }
  std::string cmd = argv[1];
  std::map<std::string, std::string> o;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    if (!strncmp(argv[i], "--", 2) && i + 1 < argc) { o[argv[i] + 2] = argv[i + 1]; ++i; }
    else pos.push_back(argv[i]);
  }
  int cpu = o.count("cpu") ? atoi(o["cpu"].c_str()) : 20;
  int tier = o.count("tier") ? atoi(o["tier"].c_str()) : 0;
  if (cmd == "info") { printf("{\"sys\": %s}\n", have_sys() ? "true" : "false"); return 0; }
  if (cmd == "gen") {
    fputs(dump(generate(o["prop"], o["world"], strtoull(o["seed"].c_str(), nullptr, 10), tier)).c_str(), stdout);
    return 0;
  }
  if (cmd == "replay") {
    std::ifstream f(pos.at(0));
    std::stringstream ss;
    ss << f.rdbuf();
    Plan p;
    std::string err;
    if (!f || !parse(ss.str(), p, err)) { fprintf(stderr, "sim: %s\n", err.c_str()); return 98; }
    forked(p, cpu, o.count("quiet") != 0);
    printf("{\"status\": \"%s\", \"kind\": %s, \"msg\": %s, \"op\": %d, \"hash\": \"%016llx\"}\n", status_name(R->status), jstr(R->kind).c_str(),
           jstr(R->msg).c_str(), R->op_index, (unsigned long long)R->hash);
    return R->status == ST_OK ? 0 : R->status == ST_SETUP ? 98 : 1;
  }
  if (cmd == "run") {
    uint64_t s0 = strtoull(o["seed0"].c_str(), nullptr, 10), n = strtoull(o["n"].c_str(), nullptr, 10);
    uint64_t stride = o.count("stride") ? strtoull(o["stride"].c_str(), nullptr, 10) : 1;
    double limit = o.count("wall") ? atof(o["wall"].c_str()) : 1e9;
    int maxfail = o.count("maxfail") ? atoi(o["maxfail"].c_str()) : 1;
    bool hashes = o.count("hashes") != 0;
    FILE* df = o.count("dump") ? fopen(o["dump"].c_str(), "wb") : nullptr;
    double t0 = wall(), simt = 0;
    uint64_t runs = 0, tot[CNT_COUNT] = {0};
    std::unordered_set<uint64_t> traces, states;
    std::string hs, fails, sample;
    int nf = 0;
    size_t ops = 0;
    for (uint64_t i = 0; i < n; ++i) {
      if (wall() - t0 > limit) break;
      uint64_t seed = s0 + i * stride;
      Plan p = generate(o["prop"], o["world"], seed, tier);
      ops += p.ops.size();
      forked(p, cpu, true);
      ++runs;
      for (int k = 0; k < CNT_COUNT; ++k) tot[k] += R->counters[k];
      simt += R->sim_time;
      traces.insert(R->hash);
      for (uint32_t k = 0; k < R->nstates && states.size() < 4000000; ++k) states.insert(R->states[k]);
      if (hashes) hs += (hs.empty() ? "" : ",") + strf("[%llu,\"%016llx\"]", (unsigned long long)seed, (unsigned long long)R->hash);
      if (i == 0) sample = dump(p);
      if (R->status != ST_OK) {
        fails += (fails.empty() ? "" : ",") + strf("{\"seed\": %llu, \"status\": \"%s\", \"kind\": ", (unsigned long long)seed, status_name(R->status)) +
                 jstr(R->kind) + ", \"msg\": " + jstr(R->msg) + strf(", \"op\": %d, \"hash\": \"%016llx\"}", R->op_index, (unsigned long long)R->hash);
        if (++nf >= maxfail) break;
      }
    }
    if (df) {  // distinct traces, then distinct states, for exact unions
      uint64_t nt = traces.size(), ns = states.size();
      fwrite(&nt, 8, 1, df);
      for (uint64_t h : traces) fwrite(&h, 8, 1, df);
      fwrite(&ns, 8, 1, df);
      for (uint64_t h : states) fwrite(&h, 8, 1, df);
      fclose(df);
    }
    printf("{\"runs\": %llu, \"wall\": %.3f, \"sim_time\": %.9g, \"ops\": %zu, \"traces\": %zu, \"states\": %zu, \"counters\": {",
           (unsigned long long)runs, wall() - t0, simt, ops, traces.size(), states.size());
    for (int k = 0; k < CNT_COUNT; ++k) printf("%s\"%s\": %llu", k ? ", " : "", counter_names[k], (unsigned long long)tot[k]);
    printf("}, \"failures\": [%s], \"hashes\": [%s], \"sample\": %s}\n", fails.c_str(), hs.c_str(), jstr(sample).c_str());
    return 0;
  }
  fprintf(stderr, "sim: unknown command\n");
  return 98;
}
