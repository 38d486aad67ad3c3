#ifndef MYTHICAL_SIM_CORE_HPP
#define MYTHICAL_SIM_CORE_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(double p) { return uni() < p; }
  double logu(double a, double b) { return std::exp(std::log(a) + uni() * (std::log(b) - std::log(a))); }
};

// seeds a user may choose: mostly ordinary, sometimes at the ends of the integer types
inline double anySeed(Rng& r) {
  int z = r.below(10);
  if (z == 0) return 0;
  if (z == 1) return r.below(3);
  if (z == 2) return 2147483647.0 - r.below(30);
  if (z == 3) return 4294967295.0 - r.below(30);
  if (z == 4) return 4294967296.0 * r.range(1, 1000) + r.below(1000);
  return r.below(1000000);
}

// another seed, different within the 32 bits the generator takes
inline double otherSeed(double seed, uint64_t salt) {
  static const double d[] = {1, 2, 256, 5003, 65536, 1048576, 16777216, 2147483648.0, 1e6};
  return seed + d[salt % 9];
}

// "no such site or walker": the one id the library reserves (any other may be used)
const int NOID = (-2147483647 - 1);
// walker ids a user may choose
inline int walkerId(int mode, int i) { return mode == 1 ? i * 1000003 + 17 : mode == 2 ? 1999999999 - i : mode == 3 ? 3 - i * 7 : i; }
// another name for a walker, different for different walkers and never NOID
inline int renamedWalker(int mode, int w, uint64_t seed) {
  auto name = [&](int x) -> int {
    switch (mode) {
      case 1: return -1 - x;
      case 2: return (int)((uint32_t)x ^ (uint32_t)seed * 2246822519u);
      case 3: return (int)((uint32_t)x * 2654435761u);
    }
    return x;
  };
  int y = name(w);
  return y == NOID ? name(NOID) : y;  // no walker is called NOID
}

// ---------------------------------------------------------------- plans
struct Op {
  std::string name;
  std::vector<double> a;
  double at(size_t i, double d = 0) const { return i < a.size() ? a[i] : d; }
  int in(size_t i, int d = 0) const {
    if (i >= a.size()) return d;
    double v = a[i];
    if (!(v > -2e9 && v < 2e9)) return d;
    return (int)v;
  }
};
struct Plan {
  std::string prop, world;
  uint64_t seed = 0;
  std::map<std::string, double> cfg;
  std::vector<Op> ops;
  double c(const std::string& k, double d = 0) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? d : it->second;
  }
  int ci(const std::string& k, int d = 0) const { return (int)c(k, d); }
  void add(const char* n, std::initializer_list<double> a) { ops.push_back(Op{n, a}); }
};
std::string dump(const Plan&);
bool parse(const std::string& text, Plan&, std::string& err);

// ---------------------------------------------------------------- counters
#define SIM_COUNTERS(X)                                                          \
  X(steps) X(hops) X(hops_blocked) X(hops_cluster_internal) X(hops_cluster_exit) \
  X(injections) X(fault_removal) X(fault_stall) X(fault_out_of_order_hop)        \
  X(fault_alloc_armed) X(fault_alloc_fired) X(fault_random_forced)               \
  X(fault_clock_jump) X(fault_clock_stalled) X(fault_heap_layout) X(fault_foreign_system) X(fault_time_unit) X(fault_renamed_walkers) X(fault_other_calls) X(probe_memory) X(probe_independence) \
  X(fault_rate_change) X(fault_poll) X(fault_rejected_call)                      \
  X(clusters_formed) X(cluster_absorb) X(cluster_merge) X(cluster_update)        \
  X(cluster_resolution) X(update_retried) X(probe_fresh) X(probe_pick)           \
  X(probe_sojourn) X(probe_fidelity) X(probe_site) X(queue_ops) X(registry_ops)  \
  X(placements) X(reinjected_same_id) X(walker_in_cluster_at_merge)              \
  X(walker_on_site_at_form) X(occupied_exit_blocked) X(partial_merge)            \
  X(random_draws) X(clock_reads) X(extreme_draw_pick) X(extreme_draw_dwell)      \
  X(sampled_draws) X(sys_clusters) X(sys_merges) X(drain_reached)                \
  X(oracle_evals) X(skipped_ops) X(chi2_tests) X(ks_tests)
enum Counter {
#define X(n) CNT_##n,
  SIM_COUNTERS(X)
#undef X
      CNT_COUNT
};
extern const char* counter_names[];

// ---------------------------------------------------------------- results
enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_CRASH = 3, ST_HANG = 4, ST_SETUP = 5 };
struct Result {
  int status;
  int op_index;
  char kind[160];
  char msg[1400];
  uint64_t hash;
  double sim_time;
  uint64_t counters[CNT_COUNT];
  uint32_t nstates;
  uint64_t states[2048];
};
extern Result* R;  // result of the run in progress (shared memory)
inline void bump(Counter c, uint64_t n = 1) { R->counters[c] += n; }
inline void hashv(uint64_t v) {
  uint64_t h = R->hash;
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  R->hash = h;
}
inline void hashd(double d) {
  uint64_t v;
  memcpy(&v, &d, 8);
  hashv(v);
}
inline void state(uint64_t h) {
  if (R->nstates < 2048) R->states[R->nstates++] = h;
}

struct Violation {
  std::string kind, msg;
};
[[noreturn]] void violate(const std::string& kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- seams
namespace seam {
// randomness
extern uint64_t draws;        // uniform numbers handed out
extern double last_u;         // the last one
extern double drawn[64];      // those since log_start(), and how many
extern int ndrawn;
inline void log_start() { ndrawn = 0; }
void force(double u);         // the next uniform number is u
void unforce();
// clock
void clock_set(long long ns, long long step);
void clock_jump(long long ns);
// memory: fail the n-th allocation from now (1 = the next), one shot
void alloc_arm(long n);
bool alloc_disarm();          // true if the failure fired
extern long live_bytes, live_blocks;  // allocated and not yet freed
void heap_layout(uint64_t seed);  // seed of the gaps between new objects
}  // namespace seam

// Number of allocations made since start
uint64_t alloc_count();

inline bool close(double a, double b, double rel, double abs_ = 0) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  return std::fabs(a - b) <= rel * std::fmax(std::fabs(a), std::fabs(b)) + abs_;
}

// ---------------------------------------------------------------- worlds
// tier: 0 quick, 1 thorough
Plan gen_kmc(const std::string& prop, uint64_t seed, int tier);
Plan gen_queue(const std::string& prop, uint64_t seed, int tier);
Plan gen_registry(const std::string& prop, uint64_t seed, int tier);
Plan gen_place(const std::string& prop, uint64_t seed, int tier);
Plan gen_sys(const std::string& prop, uint64_t seed, int tier);
void run_kmc(const Plan&);
void run_queue(const Plan&);
void run_registry(const Plan&);
void run_place(const Plan&);
void run_sys(const Plan&);
bool have_sys();
// does the library draw one uniform number per residence time, by inversion?
double inverted(int way, double u);
void calibrateDraws(int& site, int& cluster);
void makeGraph(Rng& r, bool basin, int size, bool allowDrains, std::map<int, std::unordered_map<int, double>>& g, std::vector<int>& ids);

// statistics
// p-value-like bounds: both return true when the sample is compatible
bool ks_exp_ok(std::vector<double>& x, double mean, double* stat);
// chi-square of counts against probabilities; small cells are pooled
bool chi2_ok(const std::vector<double>& counts, const std::vector<double>& probs, double* stat, double* limit);

}  // namespace sim
#endif
