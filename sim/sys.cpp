// World "sys": the whole CoarseGrainSystem (with a stand-in for the UGLY graph
// library, which is not part of the pinned tree) under a seeded schedule of
// placements, hops, removals and readings.
#ifdef SIM_NO_SYS
#include "core.hpp"
namespace sim {
bool have_sys() { return false; }
Plan gen_sys(const std::string&, uint64_t, int) { return Plan(); }
void run_sys(const Plan&) {}
}
#else
#include <algorithm>
#include <deque>
#include <array>
#include <climits>
#include <functional>
#include <limits>
#include <memory>
#include <unordered_map>

#include <vector>

#include "core.hpp"
// only to put a counter where a very long run would have brought it
#define private public
#include "mythical/coarsegrainsystem.hpp"
#undef private
#include "mythical/queue.hpp"
#include "mythical/walker.hpp"

using namespace std;
using namespace mythical;

namespace sim {
bool have_sys() { return true; }

typedef map<int, unordered_map<int, double>> Rates;

template <class T> static auto setIteration(T& t, int v, int) -> decltype(t.iteration_ = v, true) { t.iteration_ = v; return true; }
template <class T> static bool setIteration(T&, int, long) { return false; }
template <class T> static auto getIteration(T& t, int) -> decltype((long long)t.iteration_) { return t.iteration_; }
template <class T> static long long getIteration(T&, long) { return 0; }
template <class T> static auto setThreshold(T& t, int v, int) -> decltype(t.iteration_threshold_ = v, true) { t.iteration_threshold_ = v; return true; }
template <class T> static bool setThreshold(T&, int, long) { return false; }

struct SEnv {
  long long clock0 = 1600000000000000000ll, clockStep = 1;
  uint64_t clockJumpSeed = 0, heap = 0;
  bool company = false, extraPolls = false, noPolls = false, refused = false, scaled = false;
  int renamed = 0;          // walkers known to the library by other names
  bool otherForm = false;   // the other form of a call where there are two
  bool single = false;      // batches of walkers placed one by one
};
struct SRow {
  int w, s, t;
  double dt;
  uint64_t part;
};

struct Sys {
  const Plan& plan;
  SEnv env;
  string P;
  bool c01, c02, c03, c05, c07, c08, c09, c12, c13, c17, c18, c21;
  int exactSite = 0, exactCluster = 0;
  unordered_map<int, unordered_map<int, double>> rates;  // owned by the user
  Rates sorted;
  set<int> all, drains;
  CoarseGrainSystem cg;
  struct Wk {
    shared_ptr<Walker> real;
    int site, next;
    double when;
    bool drained = false;
    // sojourn model
    bool active = false, unsure = false;
    int cid = -1;
    double rem = 0;
  };
  map<int, double> incOf, resOf;  // of the clusters, as reported
  map<int, map<int, double>> chosen;
  map<int, Wk> walkers;
  map<int, int> occ;
  map<int, set<int>> parts;  // cluster id -> members, as reported
  map<int, int> clusterOf;
  int maxId = -1;
  set<int> idsSeen;
  map<int, long> lone;
  map<int, int> lastReported;
  struct Account { map<int, int> base; double steps = 0; };
  map<int, Account> accounts;  // visits and steps since the cluster has its present members
  double now = 0;
  Queue queue;
  vector<SRow> trace;
  long freeTimes = 0;  // waiting times on lone sites; on clusters most are equal to the increment
  map<int, double> timeOn;
  double timeTotal = 0;
  Rng jumps, polls;
  unique_ptr<Sys> other;

  Sys(const Plan& p, const SEnv& e) : plan(p), env(e), jumps(e.clockJumpSeed ? e.clockJumpSeed : 1), polls(p.seed + 5) {
    P = p.prop;
    c01 = P == "C01"; c02 = P == "C02"; c03 = P == "C03"; c05 = P == "C05"; c07 = P == "C07"; c08 = P == "C08"; c09 = P == "C09"; c12 = P == "C12"; c13 = P == "C13"; c17 = P == "C17"; c18 = P == "C18"; c21 = P == "C21";
    if (e.scaled) unit = ldexp(1.0, max(-300, min(300, p.ci("unit", 1))));
  }
  bool offNow = false, counting = false;
  int minNow = 0;
  double tres = 1, perf = 1, unit = 1;
  long quiet = 0;  // hops since a cluster was last formed or enlarged
  bool off() const { return plan.ci("off") != 0; }
  // the name the library knows a walker by
  int lib(int w) const { return renamedWalker(env.renamed, w, plan.seed); }
  void build() {
    seam::clock_set(env.clock0, env.clockStep);
    seam::heap_layout(env.heap);
    if (env.heap) bump(CNT_fault_heap_layout);
    for (auto& o : plan.ops)
      if (o.name == "edge") {
        int a = o.in(0), b = o.in(1);
        double r = o.at(2) * unit;
        if (a == b || a == NOID || b == NOID || !(r > 0) || !isfinite(r)) continue;
        rates[a][b] = r;
        sorted[a][b] = r;
        all.insert(a);
        all.insert(b);
      }
    for (int s : all) if (!sorted.count(s)) drains.insert(s);
    if (rates.empty()) return;
    if (c02) calibrateDraws(exactSite, exactCluster);
    tres = plan.c("timeres", 1) / unit;
    cg.setTimeResolution(tres);
    cg.setRandomSeed((unsigned long)plan.c("sysseed", 7));
    minNow = off() ? constants::inf_iterations : max(0, plan.ci("threshold", 10));
    offNow = off();
    cg.setMinCoarseGrainIterationThreshold(minNow);
    if (plan.c("perf", 0) > 0) { perf = plan.c("perf"); cg.setPerformanceRatio(perf); }
    cg.initializeSystem(rates);
    for (int s : all) lone[s] = 0;
    if (env.company) {
      SEnv e2;
      other.reset(new Sys(plan, e2));
      other->P = "company";
      other->c01 = other->c02 = other->c03 = other->c05 = other->c07 = other->c08 = other->c09 = other->c12 = other->c13 = other->c17 = other->c18 = false;
      other->build();
    }
  }
  // ------------------------------------------------------------ views
  void readParts() {
    auto m = cg.getClusters();
    map<int, set<int>> np;
    map<int, int> co;
    for (auto& kv : m) {
      for (int s : kv.second) {
        if (c07 || c12) {
          if (!all.count(s)) violate("membership.unknown-site", "cluster %d lists %d, which is not a site", kv.first, s);
          if (co.count(s)) violate("membership.twice", "site %d is listed in two clusters (or twice)", s);
        }
        np[kv.first].insert(s);
        co[s] = kv.first;
      }
      if (c07 && kv.second.size() < 2) violate("membership.small", "a cluster with %zu sites is listed", kv.second.size());
    }
    if (off() && plan.ci("thrchanges") == 0 && !m.empty()) violate("system.off", "a cluster appeared although coarse graining is off");
    if (offNow && np != parts) violate("system.off", "the clusters changed although coarse graining is off");
    if (c07 || c12) {
      for (int s : all) {
        int id = cg.getClusterIdOfSite(s);
        int want = co.count(s) ? co[s] : constants::unassignedId;
        if (id != want) violate("membership.site-view", "site %d says cluster %d, the list of clusters says %d", s, id, want);
      }
      for (auto& kv : np) {
        if (!idsSeen.count(kv.first)) {
          if (kv.first <= maxId) violate("membership.id-order", "a new cluster got id %d although %d was given out before", kv.first, maxId);
        }
      }
      // nothing is lost: sites once in a cluster stay in one, and together
      for (auto& kv : parts) {
        set<int> homes;
        for (int s : kv.second) homes.insert(co.count(s) ? co[s] : -1);
        if (homes.size() != 1 || homes.count(-1)) violate("membership.lost", "the sites of cluster %d are no longer together in one cluster", kv.first);
      }
      auto res = cg.getResolutionOfClusters();
      auto inc = cg.getTimeIncrementOfClusters();
      for (auto& kv : np) {
        if (!res.count(kv.first) || !inc.count(kv.first)) violate("membership.tables", "the tables of resolutions and increments do not list cluster %d", kv.first);
        if (!(inc[kv.first] > 0) || !isfinite(inc[kv.first])) violate("system.increment", "cluster %d has time increment %g", kv.first, inc[kv.first]);
      }
      bump(CNT_oracle_evals, all.size());
    }
    for (auto& kv : np) {
      if (!parts.count(kv.first)) bump(CNT_sys_clusters);
      idsSeen.insert(kv.first);
      maxId = max(maxId, kv.first);
    }
    for (auto& kv : parts) if (!np.count(kv.first)) bump(CNT_sys_merges);
    if (c02) {
      for (auto& kv : cg.getResolutionOfClusters()) resOf[kv.first] = kv.second;
      for (auto& kv : cg.getTimeIncrementOfClusters()) incOf[kv.first] = kv.second;
      // a walker whose cluster was merged away
      for (auto& kv : walkers)
        if (kv.second.active && !np.count(kv.second.cid)) { kv.second.unsure = true; kv.second.cid = co.count(kv.second.site) ? co[kv.second.site] : -1; }
    }
    bool changed = parts != np;
    if (c17 && changed) justified(np, co);
    if (c05 && changed) for (auto it = accounts.begin(); it != accounts.end();) { if (!np.count(it->first) || np[it->first] != parts[it->first]) it = accounts.erase(it); else ++it; }
    parts = np;
    clusterOf = co;
    if (c05 && env.extraPolls)
      for (auto& kv : parts) if (!accounts.count(kv.first)) account(kv.first);
    if (changed && (c12 || c13)) {
      // the mean time before leaving lies between those of the members
      auto res = cg.getResolutionOfClusters();
      auto inc = cg.getTimeIncrementOfClusters();
      for (auto& kv : parts) {
        double lo = numeric_limits<double>::infinity(), hi = 0;
        for (int x : kv.second) {
          double out = 0;
          for (auto& e : sorted[x]) if (!kv.second.count(e.first)) out += e.second;
          lo = min(lo, out);
          hi = max(hi, out);
        }
        double T = inc[kv.first] * res[kv.first];
        bump(CNT_oracle_evals);
        if (c13 && (T * hi < 1 - 1e-6 || (lo > 0 && T * lo > 1 + 1e-6))) violate("kinetics.escape-bounds", "mean time %g before leaving cluster %d, but its members have total rates from %g to %g to the outside", T, kv.first, lo, hi);
      }
    }
  }
  // shortest way, in time, between any two of the sites, through these sites
  double crossing(const set<int>& m) {
    map<pair<int, int>, double> d;
    const double inf = numeric_limits<double>::infinity();
    for (int a : m) for (int b : m) d[{a, b}] = a == b ? 0 : sorted[a].count(b) ? 1 / sorted[a][b] : inf;
    for (int k : m) for (int a : m) for (int b : m) d[{a, b}] = min(d[{a, b}], d[{a, k}] + d[{k, b}]);
    double far = 0;
    for (auto& kv : d) far = max(far, kv.second);
    return far;
  }
  double leaving(const set<int>& m) {
    double sum = 0;
    for (int a : m) for (auto& e : sorted[a]) if (!m.count(e.first)) sum += e.second;
    return sum;
  }
  // clusters are formed only where a walker crosses the sites much faster than
  // it leaves them, and their steps are never longer than the time resolution
  void justified(const map<int, set<int>>& np, map<int, int>& co) {
    if (quiet < minNow) violate("justified.too-often", "the clusters change after %ld hops although the threshold is %d", quiet, minNow);
    quiet = 0;
    auto res = cg.getResolutionOfClusters();
    auto inc = cg.getTimeIncrementOfClusters();
    for (auto& kv : np) {
      auto was = parts.find(kv.first);
      if (was != parts.end() && was->second == kv.second) continue;
      if (was == parts.end()) {
        bool fromSites = true;
        for (int s : kv.second) if (clusterOf.count(s)) fromSites = false;
        if (fromSites) {
          double cross = crossing(kv.second), out = leaving(kv.second);
          bump(CNT_oracle_evals);
          if (!(2 * cross * perf * out < 1 + 1e-9)) violate("justified.equilibrium", "cluster %d is formed although it takes %g to cross its sites and %g to leave them (performance ratio %g)", kv.first, cross, 1 / out, perf);
          if (!(2 * cross < tres * (1 + 1e-9))) violate("justified.crossing", "cluster %d is formed although it takes %g to cross its sites and the time resolution is %g", kv.first, cross, tres);
        }
      }
      if (!(res[kv.first] >= 2 - 1e-9)) violate("justified.resolution", "cluster %d has the resolution %g", kv.first, res[kv.first]);
      if (!(inc[kv.first] <= tres * (1 + 1e-9))) violate("justified.increment", "cluster %d %s with steps of %g, longer than the time resolution %g", kv.first, was == parts.end() ? "is formed" : "has grown to one", inc[kv.first], tres);
    }
    (void)co;
  }
  // residence time of the announcement just made
  void checkResidence(int w, Wk& k, double dt) {
    int nd = seam::ndrawn, s = k.site;
    double u = seam::drawn[0];
    bool inCl = clusterOf.count(s);
    if (!inCl) {
      k.active = false;
      double sum = 0;
      for (auto& kv : sorted[s]) sum += kv.second;
      if (exactSite && nd == 2 && !close(dt, inverted(exactSite, u) / sum, 1e-9)) violate("residence.site-law", "waiting time %g of walker %d on site %d does not follow from the draw %.17g and the sum of its rates %g", dt, w, s, u, sum);
      return;
    }
    int id = clusterOf[s];
    double inc = incOf[id], T = inc * resOf[id];
    bool leaves = !parts[id].count(k.next);
    if (dt > inc * (1 + 1e-9)) violate("residence.increment", "walker %d gets %g at once, more than the increment %g of its cluster", w, dt, inc);
    if (!leaves && dt < inc * (1 - 1e-9)) violate("residence.overstay", "walker %d stays in its cluster although it was given less (%g) than a full increment (%g)", w, dt, inc);
    bool fresh = !k.active || k.cid != id;
    if (exactCluster && (nd == 1 || nd == 2)) {
      if (fresh || (k.unsure && nd == 2)) {
        if (nd != 2) violate("residence.stale", "walker %d starts a sojourn in the cluster of site %d without a new draw: an earlier one was not forgotten", w, s);
        double t1 = inverted(exactCluster, u) * T;
        if (!close(dt, min(inc, t1), 1e-9)) violate("residence.cluster-law", "first waiting time %g of walker %d does not follow from the draw %.17g, time constant %g, increment %g", dt, w, u, T, inc);
        k.rem = t1;
      } else if (k.unsure) {
        k.rem = dt < inc * (1 - 1e-9) ? dt : k.rem;  // carried over in a way not known here
      } else {
        if (nd == 2) violate("residence.resampled", "walker %d in the middle of a sojourn (%g left) is given a new one", w, k.rem);
        if (!close(dt, min(inc, k.rem), 1e-9, 1e-9 * inc)) violate("residence.piece", "walker %d has %g left and increment %g but gets %g", w, k.rem, inc, dt);
      }
      double slack = 1e-9 * (inc + T);
      if (!k.unsure || nd == 2) {
        k.rem -= inc;
        k.unsure = false;
        if (leaves && k.rem > slack) violate("residence.left-early", "walker %d leaves its cluster with %g of its sojourn left (increment %g)", w, k.rem, inc);
        if (!leaves && k.rem < -slack) violate("residence.overstay", "walker %d stays in its cluster although its sojourn was used up (%g)", w, k.rem);
      }
    }
    k.active = !leaves;
    k.cid = id;
  }
  uint64_t partHash() {
    uint64_t h = 0;
    for (auto& kv : parts) {
      uint64_t x = 1469598103934665603ull;
      for (int s : kv.second) x = (x ^ s) * 1099511628211ull;
      h += x * 0x9E3779B97F4A7C15ull;
    }
    return h;
  }
  bool reachable(int s, int t) {
    if (!clusterOf.count(s)) return sorted.count(s) && sorted[s].count(t);
    const set<int>& m = parts[clusterOf[s]];
    if (m.count(t)) return true;
    for (int x : m) if (sorted.count(x) && sorted[x].count(t)) return true;
    return false;
  }
  void announced(int w) {
    Wk& k = walkers[w];
    k.site = k.real->getIdOfSiteCurrentlyOccupying();
    if (drains.count(k.site)) {
      k.drained = true;
      bump(CNT_drain_reached);
      return;
    }
    double dt = k.real->getDwellTime();
    k.next = k.real->getPotentialSite();
    bump(CNT_oracle_evals);
    if (!(dt > 0) || !isfinite(dt)) violate("system.dwell", "walker %d on site %d gets the waiting time %g", w, k.site, dt);
    if (!reachable(k.site, k.next)) violate("system.next-site", "walker %d on site %d is to go to %d, which cannot be reached from there", w, k.site, k.next);
    if (c02) checkResidence(w, k, dt);
    if (c03 && !clusterOf.count(k.site)) chosen[k.site][k.next] += 1;
    k.when = now + dt;
    queue.sortedAdd({w, k.when});
    timeOn[k.site] += dt;
    timeTotal += dt;
    trace.push_back({w, k.site, k.next, dt, 0});
    if (!clusterOf.count(k.site)) ++freeTimes;
    hashv(w * 1000003ull + k.site * 101ull + (uint64_t)k.next);
    hashd(dt);
  }
  void arrive(int s) {
    if (!clusterOf.count(s)) ++lone[s];
    else if (accounts.count(clusterOf[s])) accounts[clusterOf[s]].steps += 1;
  }
  // every step in a cluster adds the visits expected in the mean length of a
  // step; whatever the share of time per member, these visits times the mean
  // stay per visit add up to that length
  void account(int id) {
    Account& a = accounts[id];
    set<int>& m = parts[id];
    double len = 0, slack = 0;
    bool first = a.base.empty();
    auto res = cg.getResolutionOfClusters();
    auto inc = cg.getTimeIncrementOfClusters();
    for (int x : m) {
      int v = cg.getVisitFrequencyOfSite(x);
      if (v > 1000000000) { a.base.clear(); return; }
      double in = 0;
      for (auto& e : sorted[x]) if (m.count(e.first)) in += e.second;
      if (!(in > 0)) return;
      if (first) a.base[x] = v;
      else { len += (v - a.base[x]) / in; slack += 1.01 / in; }
    }
    if (first) { a.steps = 0; return; }
    double want = a.steps * inc[id] * res[id] * -expm1(-1 / res[id]);
    bump(CNT_oracle_evals);
    if (fabs(len - want) > slack + 1e-6 * want)
      violate("visits.steps", "%.0f steps in cluster %d last %g in the mean, the visits counted meanwhile stand for %g", a.steps, id, want, len);
  }

  // ------------------------------------------------------------ operations
  bool place(const Op& o) {
    if (c02 && o.a.size() > 2) {  // one at a time
      bool any = false;
      for (size_t i = 0; i + 1 < o.a.size(); i += 2) any = place(Op{"place", {o.a[i], o.a[i + 1]}}) || any;
      return any;
    }
    vector<pair<int, shared_ptr<Walker>>> v;
    set<int> used;
    for (size_t i = 0; i + 1 < o.a.size(); i += 2) {
      int w = o.in(i, NOID), s = o.in(i + 1, NOID);
      if (w == NOID || !all.count(s) || drains.count(s) || walkers.count(w) || occ.count(s) || used.count(s)) continue;
      bool twice = false;
      for (auto& x : v) if (x.first == w) twice = true;
      if (twice) continue;
      used.insert(s);
      auto k = make_shared<Walker>();
      k->occupySite(s);
      v.push_back({w, k});
    }
    if (v.empty()) return false;
    for (auto& x : v) arrive(x.second->getIdOfSiteCurrentlyOccupying());
    seam::log_start();
    auto in = v;
    for (auto& x : in) x.first = lib(x.first);
    if (env.single)
      for (auto& x : in) { vector<pair<int, shared_ptr<Walker>>> one{x}; cg.initializeWalkers(one); }
    else cg.initializeWalkers(in);
    for (auto& x : v) {
      Wk k;
      k.real = x.second;
      k.site = x.second->getIdOfSiteCurrentlyOccupying();
      walkers[x.first] = k;
      occ[k.site] = x.first;
      bump(CNT_injections);
      if (clusterOf.count(k.site)) bump(CNT_walker_on_site_at_form);
      announced(x.first);
    }
    return true;
  }
  void unqueue(int w) {
    vector<pair<int, double>> rest;
    while (queue.size()) {
      auto e = queue.pop_current();
      if (e.first != w) rest.push_back(e);
    }
    for (auto& e : rest) queue.sortedAdd(e);
  }
  bool remove(const Op& o) {
    int w = o.in(0, NOID);
    if (!walkers.count(w)) return false;
    Wk k = walkers[w];
    unqueue(w);
    if ((o.in(1) != 0) != env.otherForm) {
      pair<int, shared_ptr<Walker>> pr{lib(w), k.real};
      cg.removeWalkerFromSystem(pr);
    } else cg.removeWalkerFromSystem(lib(w), k.real);
    occ.erase(k.site);
    walkers.erase(w);
    bump(CNT_fault_removal);
    return true;
  }
  bool hopNext() {
    if (!queue.size()) return false;
    auto e = queue.pop_current();
    now = max(now, e.second);
    hop(e.first);
    return true;
  }
  bool hopAny(const Op& o) {
    vector<int> ws;
    for (auto& kv : walkers) if (!kv.second.drained) ws.push_back(kv.first);
    if (ws.empty()) return false;
    int w = ws[(unsigned)o.in(0) % ws.size()];
    unqueue(w);
    now = max(now, walkers[w].when);
    bump(CNT_fault_out_of_order_hop);
    hop(w);
    return true;
  }
  void hop(int w) {
    Wk& k = walkers[w];
    int s = k.site, t = k.next;
    bool blocked = occ.count(t) != 0;
    arrive(blocked ? s : t);
    ++quiet;
    seam::log_start();
    long long before = getIteration(cg, 0);
    if ((plan.ci("pairhop") != 0) != env.otherForm) {
      pair<int, shared_ptr<Walker>> pr{lib(w), k.real};
      cg.hop(pr);
    } else cg.hop(lib(w), k.real);
    counting = getIteration(cg, 0) == before + 1;
    int at = k.real->getIdOfSiteCurrentlyOccupying();
    bump(CNT_hops);
    bump(CNT_oracle_evals);
    if (blocked) {
      bump(CNT_hops_blocked);
      if (at != s) violate(c01 ? "occupancy.site" : "system.moves", "walker %d went from %d to %d although %d holds walker %d", w, s, at, t, occ[t]);
    } else {
      if (at == s) violate(c01 ? "occupancy.site" : "system.moves", "walker %d stays on %d although the announced site %d is free", w, s, t);
      if (at != t) violate("system.moves", "walker %d goes from %d to %d although %d was announced", w, s, at, t);
      occ.erase(s);
      occ[t] = w;
    }
    // the announcement was made before a possible coarse graining step
    announced(w);
    readParts();
    if (!trace.empty()) trace.back().part = partHash();
    hashv(partHash());
  }
  void visit(int s) {
    int v = cg.getVisitFrequencyOfSite(s);
    bump(CNT_oracle_evals);
    bump(CNT_fault_poll);
    if (c05) {
      if (!clusterOf.count(s) && v != lone[s]) violate("visits.lone", "lone site %d reports %d visits, it had %ld", s, v, lone[s]);
      if (clusterOf.count(s) && v < lone[s]) violate("visits.lost", "site %d reports %d visits, it had %ld before it joined a cluster", s, v, lone[s]);
      if (lastReported.count(s) && v < lastReported[s]) violate("visits.decrease", "visit count of site %d went from %d to %d", s, lastReported[s], v);
      lastReported[s] = v;
    }
  }
  bool poll(const Op& o) {
    if (env.noPolls) return true;
    int s = o.in(0, NOID);
    if (all.count(s)) visit(s);
    else for (int x : all) visit(x);
    return true;
  }
  // the user changes how often coarse graining is considered
  bool threshold(const Op& o) {
    if (c09 || c13) return false;
    quiet = 2147483647;  // the count of hops goes on, the next check may come at any time
    minNow = o.in(0) < 0 ? constants::inf_iterations : o.in(0);
    offNow = minNow == constants::inf_iterations;
    cg.setMinCoarseGrainIterationThreshold(minNow);
    return true;
  }
  // counters as they are after more hops than can be simulated
  bool forward(const Op& o) {
    if (!c12) return false;
    const int top = numeric_limits<int>::max();
    if (offNow) return counting && setIteration(cg, top - max(0, o.in(0)), 0);
    if (minNow <= 0) return false;
    long long t = minNow;
    while (t * 2 <= top) t *= 2;
    return setThreshold(cg, (int)t, 0) && setIteration(cg, (int)max(0ll, t - max(0, o.in(0))), 0);
  }
  // where all sites belong to groups that clearly are fast enough, a cluster is
  // formed soon after the threshold is reached
  bool live(const Op&) {
    if (!c17 || offNow || walkers.empty() || !drains.empty() || !parts.empty()) return false;
    int sz = plan.ci("groupsize", 0);
    if (sz < 2) return false;
    map<int, set<int>> groups;
    for (int s : all) { if (s < 0) return false; groups[s / sz].insert(s); }
    if (groups.size() < 2) return false;
    for (auto& kv : groups) {
      if (kv.second.size() != (size_t)sz) return false;
      double lo = numeric_limits<double>::infinity(), hi = 0, off = 0, cross = crossing(kv.second), out = leaving(kv.second);
      for (int a : kv.second) for (auto& e : sorted[a]) if (kv.second.count(e.first)) { lo = min(lo, e.second); hi = max(hi, e.second); } else off = max(off, e.second);
      if (!(out > 0) || hi > lo * 1.00003 || off > lo * 0.9 || !(2.5 * cross * perf * out < 1) || !(2.5 * cross < tres)) return false;
    }
    // the first check comes after the threshold; it may meet a bad moment and come again after twice as many
    long n = 4L * (minNow + 2) + 8;
    for (long i = 0; i < n && parts.empty(); ++i) if (!hopNext()) return false;
    bump(CNT_oracle_evals);
    if (parts.empty()) violate("justified.never", "no cluster after %ld hops with the threshold %d although all sites belong to fast groups", n, minNow);
    if (plan.ci("nested")) nested(groups);
    return true;
  }
  // the first two groups exchange walkers fast compared with the rest, so they
  // become one cluster in the end (larger groups are beyond the range of the search for basins)
  void nested(map<int, set<int>>& groups) {
    set<int> both;
    for (int k = 0; k < 2; ++k) both.insert(groups[k].begin(), groups[k].end());
    double lo = numeric_limits<double>::infinity(), hi = 0, fast = lo, cross = crossing(both), out = leaving(both);
    for (int a : both)
      for (auto& e : sorted[a])
        if (both.count(e.first)) {
          if (groups[0].count(a) == groups[0].count(e.first)) { fast = min(fast, e.second); continue; }
          lo = min(lo, e.second);
          hi = max(hi, e.second);
        }
    if (both.size() > 4 || !(hi > 0) || hi > lo * 1.00003 || hi * 500 > fast || out * 500 > lo || !(2.5 * cross * perf * out < 1) || !(2.5 * cross < tres)) return;
    long n = 16L * (minNow + 2) + 16;
    for (long i = 0; i < n; ++i) {
      for (auto& kv : walkers) if (!both.count(kv.second.site)) return;
      for (auto& kv : parts) if (kv.second == both) return;
      if (!hopNext()) return;
    }
    for (auto& kv : walkers) if (!both.count(kv.second.site)) return;
    bump(CNT_oracle_evals);
    for (auto& kv : parts) if (kv.second == both) return;
    violate("justified.never-merged", "two fast groups joined by rates that are fast compared with the rest are not one cluster after %ld more hops with the threshold %d", n, minNow);
  }
  template <class F> void mustRefuse(const char* what, F f) {
    bool refused = false;
    try { f(); } catch (const invalid_argument&) { refused = true; } catch (const runtime_error&) { refused = true; } catch (const out_of_range&) { refused = true; }
    bump(CNT_fault_rejected_call);
    bump(CNT_oracle_evals);
    if (!refused) violate("system.not-refused", "%s is not refused", what);
  }
  // calls that are refused or only read
  void disturb(Rng& r) {
    int unknown = all.empty() ? 5 : *all.rbegin();
    unknown = unknown < 2000000000 ? unknown + 1 + (int)r.below(1000) : *all.begin() - 1 - (int)r.below(1000);
    if (unknown == NOID || all.count(unknown)) return;
    auto walkerOn = [&](int s) { auto k = make_shared<Walker>(); if (s != NOID) k->occupySite(s); return k; };
    switch (r.below(9)) {
      case 0: mustRefuse("asking for the visits of an unknown site", [&] { cg.getVisitFrequencyOfSite(unknown); }); break;
      case 1: mustRefuse("asking for the cluster of an unknown site", [&] { cg.getClusterIdOfSite(unknown); }); break;
      case 2: mustRefuse("setting the seed of a running system", [&] { cg.setRandomSeed(r.below(1000)); }); break;
      case 3: {
        double was = cg.getTimeResolution();
        mustRefuse("a time resolution that is not positive", [&] { cg.setTimeResolution(r.chance(0.5) ? 0.0 : -1.0); });
        if (cg.getTimeResolution() != was) violate("system.refused-changes", "the time resolution went from %g to %g in a refused call", was, cg.getTimeResolution());
        break;
      }
      case 4: case 5: case 6: {
        vector<pair<int, shared_ptr<Walker>>> v;
        // some that could be placed
        int w = 1000000;
        if (r.chance(0.6))
          for (int s : all)
            if (!occ.count(s) && !drains.count(s) && v.size() < 3 && r.chance(0.5)) v.push_back({w++, walkerOn(s)});
        auto bad = make_pair(w++, walkerOn(r.chance(0.5) ? unknown : NOID));
        v.insert(v.begin() + r.below(v.size() + 1), bad);
        mustRefuse("placing walkers of which one is on no site of the system", [&] { cg.initializeWalkers(v); });
        break;
      }
      default:
        cg.getClusters();
        cg.getResolutionOfClusters();
        cg.getTimeIncrementOfClusters();
        cg.getTimeResolution();
        for (int s : all) cg.getClusterIdOfSite(s);
    }
  }
  void step(const Op& o) {
    const string& n = o.name;
    bool did = true;
    if (n == "edge" || rates.empty()) return;
    else if (n == "place") did = place(o);
    else if (n == "hop") { int k = max(1, o.in(0, 1)); for (int i = 0; i < k && did; ++i) { did = hopNext(); if (did) invariants(); } }
    else if (n == "hopw") did = hopAny(o);
    else if (n == "rem") did = remove(o);
    else if (n == "poll") did = poll(o);
    else if (n == "thr") did = threshold(o);
    else if (n == "ff") did = forward(o);
    else if (n == "tres") { did = (c17 || c18) && o.at(0) > 0 && isfinite(o.at(0)); if (did) { tres = o.at(0) / unit; cg.setTimeResolution(tres); } }
    else if (n == "perf") { did = (c17 || c18) && o.at(0) > 0 && isfinite(o.at(0)); if (did) { perf = o.at(0); cg.setPerformanceRatio(perf); } }
    else if (n == "live") did = live(o);
    else did = false;
    if (!did) { bump(CNT_skipped_ops); return; }
    bump(CNT_steps);
    invariants();
  }
  void invariants() {
    uint64_t h = partHash();
    for (auto& kv : occ) h ^= ((uint64_t)kv.first + 1) * 0xC2B2AE3D27D4EB4Full;
    state(h);
  }
  void run() {
    build();
    int i = 0;
    for (auto& o : plan.ops) {
      R->op_index = i++;
      if (o.name == "edge") continue;
      if (env.clockJumpSeed && jumps.chance(0.3)) { seam::clock_jump((long long)((jumps.uni() - 0.5) * 1e18)); bump(CNT_fault_clock_jump); }
      if (other && jumps.chance(0.7)) { uint64_t h = R->hash; other->step(o); R->hash = h; bump(CNT_fault_foreign_system); }
      step(o);
      if (env.refused && !rates.empty()) { uint64_t h = R->hash; int k = polls.below(4); for (int j = 0; j < k; ++j) disturb(polls); R->hash = h; }
      if (env.extraPolls) { uint64_t h = R->hash; for (int s : all) if (polls.chance(0.6)) visit(s); if (polls.chance(0.3)) for (auto& kv : parts) account(kv.first); R->hash = h; }
    }
    if (c05) for (int s : all) visit(s);
    if (c03)
      for (auto& kv : chosen) {
        double n = 0, sum = 0, st, lim;
        for (auto& x : kv.second) n += x.second;
        for (auto& x : sorted[kv.first]) sum += x.second;
        if (n < 40 || sorted[kv.first].size() < 2) continue;
        vector<double> c, pr;
        for (auto& x : sorted[kv.first]) { pr.push_back(x.second / sum); c.push_back(kv.second.count(x.first) ? kv.second[x.first] : 0); }
        bump(CNT_chi2_tests);
        if (!chi2_ok(c, pr, &st, &lim)) violate("hop.site-frequency", "the sites announced from lone site %d are not in proportion to the rates (chi2 %.1f > %.1f over %.0f)", kv.first, st, lim, n);
      }
    R->sim_time += isfinite(now) ? now : 0;
  }
};

static vector<double> stationary(const vector<int>& ids, const Rates& r) {
  int n = ids.size();
  vector<vector<long double>> w(n, vector<long double>(n, 0));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i != j && r.count(ids[i]) && r.at(ids[i]).count(ids[j])) w[i][j] = r.at(ids[i]).at(ids[j]);
  for (int k = n - 1; k > 0; --k) {
    long double s = 0;
    for (int j = 0; j < k; ++j) s += w[k][j];
    if (s == 0) return {};
    for (int i = 0; i < k; ++i) w[i][k] /= s;
    for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) if (i != j) w[i][j] += w[i][k] * w[k][j];
  }
  vector<long double> pi(n, 0);
  pi[0] = 1;
  long double tot = 1;
  for (int k = 1; k < n; ++k) { for (int i = 0; i < k; ++i) pi[k] += pi[i] * w[i][k]; tot += pi[k]; }
  vector<double> out(n);
  for (int i = 0; i < n; ++i) out[i] = (double)(pi[i] / tot);
  return out;
}

// share of time on each site over a long run of one walker, against the exact
// stationary distribution of the rate equations
static void fidelity(const Plan& p) {
  SEnv e;
  Sys a(p, e);
  a.build();
  if (a.rates.empty() || !a.drains.empty()) return;
  vector<int> ids(a.all.begin(), a.all.end());
  vector<double> pi = stationary(ids, a.sorted);
  if (pi.empty()) return;
  Op pl{"place", {1, (double)ids[0]}};
  if (!a.place(pl)) return;
  // fast groups; the comparison needs all of them found as clusters, because
  // the groups have to be in equilibrium inside (a lone group not yet found
  // would be right too, but the run would have to be much longer)
  int sz = max(1, p.ci("groupsize", 1));
  map<int, set<int>> groups;
  for (int s : ids) groups[s / sz].insert(s);
  auto found = [&] {
    for (auto& kv : groups) {
      if (kv.second.size() < 2) continue;
      int c = a.clusterOf.count(*kv.second.begin()) ? a.clusterOf[*kv.second.begin()] : -1;
      if (c < 0 || a.parts[c] != kv.second) return false;
    }
    return true;
  };
  int burn = p.ci("burn", 3000), B = 40, len = p.ci("len", 500);
  for (int i = 0; i < burn; ++i) {
    a.hopNext();
    if (i % 16 == 0 && i > 50 && found()) break;
  }
  if (!found()) return;
  for (int i = 0; i < 50; ++i) a.hopNext();
  vector<map<int, double>> share(B);
  vector<double> tot(B, 0);
  double all = 0;
  map<int, double> sum;
  for (int b = 0; b < B; ++b) {
    a.timeOn.clear();
    a.timeTotal = 0;
    for (int i = 0; i < len; ++i) a.hopNext();
    if (!found()) return;  // merged further: no reference any more
    for (auto& kv : a.timeOn) { share[b][kv.first / sz] += kv.second; sum[kv.first / sz] += kv.second; }
    tot[b] = a.timeTotal;
    all += tot[b];
  }
  bump(CNT_probe_fidelity);
  R->sim_time += a.now;
  for (auto& kv : groups) {
    double want = 0;
    for (size_t i = 0; i < ids.size(); ++i) if (kv.second.count(ids[i])) want += pi[i];
    double got = sum[kv.first] / all, var = 0;
    for (int b = 0; b < B; ++b) { double d = share[b][kv.first] - got * tot[b]; var += d * d; }
    double sd = sqrt(var) / all;
    bump(CNT_oracle_evals);
    if (fabs(got - want) > 9 * sd + 0.02 * want + 0.003)
      violate("kinetics.system-occupation", "share of time on the fast group of site %d is %.4f (sd %.4f), the rates give %.4f", *kv.second.begin(), got, sd, want);
  }
  hashd(all);
}

// walkers come and go for a long time; what the system holds in memory may
// depend on its sites and clusters but not on how many there were
struct GivenUp {};
static void passing(const Plan& p) {
  unordered_map<int, unordered_map<int, double>> rates;
  set<int> all;
  for (auto& o : p.ops)
    if (o.name == "edge") {
      int a = o.in(0), b = o.in(1);
      double r = o.at(2);
      if (a == b || a == NOID || b == NOID || !(r > 0) || !isfinite(r)) continue;
      rates[a][b] = r;
      all.insert(a);
      all.insert(b);
    }
  vector<int> starts;
  for (int s : all) if (rates.count(s)) starts.push_back(s);
  if (starts.empty()) return;
  long after[2] = {0, 0};
  for (int pass = 0; pass < 2; ++pass) {
    long before = seam::live_bytes, calls = 0, oom = p.ci("oom"), nth = max(1, p.ci("nth"));
    // from some call on an allocation fails as soon as there are enough of them
    auto lib = [&](const std::function<void()>& f) {
      if (oom <= 0 || ++calls < oom) { f(); return; }
      bool failed = false;
      seam::alloc_arm(nth);
      try { f(); } catch (const bad_alloc&) { failed = true; }
      if (seam::alloc_disarm() || failed) throw GivenUp();
    };
    try {
      auto own = rates;  // the system points into it
      CoarseGrainSystem cg;
      cg.setTimeResolution(p.c("timeres", 1));
      cg.setRandomSeed((unsigned long)p.c("sysseed", 7));
      cg.setMinCoarseGrainIterationThreshold(max(0, p.ci("threshold", 10)));
      lib([&] { cg.initializeSystem(own); });
      Queue queue;
      // the queue does not run empty if there are walkers that wait for long
      size_t waiting = max(0, p.ci("waiting"));
      for (size_t i = 0; i < waiting; ++i) queue.sortedAdd({-7 - (int)i, numeric_limits<double>::max()});
      Rng r(p.seed + 99);
      int next = p.ci("firstid");
      double now = 0;
      vector<pair<int, shared_ptr<Walker>>> in;
      int maxIn = max(1, (int)std::min(p.ci("walkers", 3), (int)starts.size()));
      in.reserve(64);
      long passed = 0, hops = 0;
      // one round: some walkers come, hop, and leave
      auto round = [&]() {
        int n = 1 + r.below(maxIn);
        vector<pair<int, shared_ptr<Walker>>> v;
        for (int i = 0; i < n; ++i) {
          int s = starts[r.below(starts.size())];
          bool taken = false;
          for (auto& x : v) if (x.second->getIdOfSiteCurrentlyOccupying() == s) taken = true;
          if (taken) continue;
          auto k = make_shared<Walker>();
          k->occupySite(s);
          v.push_back({next++, k});
        }
        lib([&] { cg.initializeWalkers(v); });
        passed += v.size();
        for (auto& x : v) { in.push_back(x); lib([&] { queue.sortedAdd({x.first, now + x.second->getDwellTime()}); }); }
        v.clear();
        int k = r.below(p.ci("hops", 20) + 1);
        auto leave = [&](size_t i) {
          bool pair = r.chance(0.5);
          lib([&] { if (pair) cg.removeWalkerFromSystem(in[i]); else cg.removeWalkerFromSystem(in[i].first, in[i].second); });
          in.erase(in.begin() + i);
        };
        while (k-- > 0 && queue.size() > waiting) {
          auto e = queue.pop_current();
          now = e.second;
          size_t i = 0;
          while (i < in.size() && in[i].first != e.first) ++i;
          if (i == in.size()) continue;
          lib([&] { cg.hop(in[i]); });
          ++hops;
          int s = in[i].second->getIdOfSiteCurrentlyOccupying();
          if (!rates.count(s)) leave(i);  // a drain
          else lib([&] { queue.sortedAdd({e.first, now + in[i].second->getDwellTime()}); });
        }
        while (!in.empty()) leave(r.below(in.size()));
        while (queue.size() > waiting) queue.pop_current();
      };
      int warm = p.ci("warm", 60), rest = p.ci("rest", 60), rounds = p.ci("rounds", 400);
      for (int i = 0; i < warm; ++i) { R->op_index = i; round(); }
      cg.setMinCoarseGrainIterationThreshold(constants::inf_iterations);
      for (int i = 0; i < rest; ++i) round();
      long held = seam::live_bytes, blocks = seam::live_blocks, p0 = passed, h0 = hops;
      for (int i = 0; i < rounds; ++i) round();
      long grown = seam::live_bytes - held, more = seam::live_blocks - blocks;
      bump(CNT_oracle_evals);
      bump(CNT_probe_memory);
      bump(CNT_hops, hops);
      if (grown > 4096 + 256 * (long)all.size())
        violate("memory.grows", "the system holds %ld bytes in %ld blocks more after %ld more walkers came, made %ld hops and left, all else being the same", grown, more, passed - p0, hops - h0);
      hashv(hops);
      hashd(now);
      uint64_t x = 0;
      for (auto& kv : cg.getClusters()) { uint64_t y = 1469598103934665603ull; vector<int> m = kv.second; sort(m.begin(), m.end()); for (int s : m) y = (y ^ s) * 1099511628211ull; x += y; }
      state(x);
      R->sim_time += isfinite(now) ? now : 0;
    } catch (const GivenUp&) { hashv(calls); }
    after[pass] = seam::live_bytes - before;
  }
  // statics may have been filled the first time
  if (after[1] > 0) violate("memory.leak", "%ld bytes are not given back when a system is destroyed", after[1]);
}

// two-way table of counts: are rows and columns independent?  Statistics are
// pooled over tables; cells with small expectation are left out
struct Pool { double x = 0; int df = 0; };
static void contingency(const vector<pair<int, int>>& v, Pool& pool) {
  map<int, double> row, col;
  map<pair<int, int>, double> cell;
  for (auto& e : v) { ++row[e.first]; ++col[e.second]; ++cell[e]; }
  // rare values are put together
  double n = v.size();
  if (n < 100 || row.size() < 2 || col.size() < 2) return;
  auto merge = [&](map<int, double>& m) {
    double least = 0;
    for (auto& e : m) least = max(least, e.second);
    map<int, int> to;
    double rest = 0;
    for (auto& e : m) { bool rare = e.second < 50; to[e.first] = rare ? INT_MIN : e.first; if (rare) rest += e.second; }
    if (rest > 0 && rest < 50) {  // together with the most frequent
      int big = 0;
      double best = -1;
      for (auto& e : m) if (e.second > best) best = e.second, big = e.first;
      for (auto& e : to) if (e.second == INT_MIN) e.second = to[big] == INT_MIN ? INT_MIN : big;
    }
    return to;
  };
  auto tr = merge(row), tc = merge(col);
  map<int, double> r2, c2;
  map<pair<int, int>, double> k2;
  for (auto& e : row) r2[tr[e.first]] += e.second;
  for (auto& e : col) c2[tc[e.first]] += e.second;
  for (auto& e : cell) k2[{tr[e.first.first], tc[e.first.second]}] += e.second;
  if (r2.size() < 2 || c2.size() < 2) return;
  double x = 0;
  for (auto& a : r2)
    for (auto& b : c2) {
      double ex = a.second * b.second / n;
      if (ex < 10) return;
      auto it = k2.find({a.first, b.first});
      double o = it == k2.end() ? 0 : it->second;
      x += (o - ex) * (o - ex) / ex;
    }
  pool.x += x;
  pool.df += (int)((r2.size() - 1) * (c2.size() - 1));
}
static void judge(const Pool& p, const char* kind, const char* what) {
  if (p.df < 1) return;
  bump(CNT_oracle_evals);
  bump(CNT_chi2_tests);
  double k = p.df, z = 8, t = 1 - 2 / (9 * k) + z * sqrt(2 / (9 * k)), limit = k * t * t * t + 15;
  if (p.x > limit) violate(kind, "%s (chi2 %.1f > %.1f with %d degrees of freedom)", what, p.x, limit, p.df);
}
// what is drawn says nothing about what else is drawn
// what was drawn for walkers: two successive waiting times and their site, and the lengths of sojourns
struct Drawn {
  vector<array<double, 3>> q;
  vector<pair<double, double>> sojourns;
};
static void draws(const Plan& p, long hops, Drawn& drawn) {
  unordered_map<int, unordered_map<int, double>> rates;
  map<int, map<int, double>> sorted;
  set<int> all;
  for (auto& o : p.ops)
    if (o.name == "edge") {
      int a = o.in(0), b = o.in(1);
      double r = o.at(2);
      if (a == b || a == NOID || b == NOID || !(r > 0) || !isfinite(r)) continue;
      rates[a][b] = r;
      sorted[a][b] = r;
      all.insert(a);
      all.insert(b);
    }
  vector<int> starts;
  for (int s : all) if (rates.count(s)) starts.push_back(s);
  if (starts.empty()) return;
  auto own = rates;
  CoarseGrainSystem cg;
  cg.setTimeResolution(p.c("timeres", 1));
  if (!p.ci("unseeded")) cg.setRandomSeed((unsigned long)p.c("sysseed", 7));
  int th = max(0, p.ci("threshold", 10));
  cg.setMinCoarseGrainIterationThreshold(p.ci("off") ? constants::inf_iterations : th);
  cg.initializeSystem(own);
  Rng r(p.seed + 7);
  Queue queue;
  double now = 0;
  int next = 0;
  struct Lone { double x; int to; };
  map<int, vector<Lone>> lone;
  struct Stay { int cluster; double total; long steps; int pick; bool whole; };
  struct End { double x; double slack; int pick, exit; };
  map<int, vector<End>> ends;                  // by cluster, since it last changed
  map<int, vector<pair<int, int>>> inside;     // from member, to member
  vector<pair<double, double>>& sojourns = drawn.sojourns;  // all: length over time constant, slack
  map<int, Stay> stay;
  map<int, pair<int, shared_ptr<Walker>>> in;
  map<int, vector<int>> parts;
  map<int, int> clusterOf;
  unordered_map<int, double> inc, res;
  auto refresh = [&]() {
    map<int, vector<int>> q;
    for (auto& kv : cg.getClusters()) { auto m = kv.second; sort(m.begin(), m.end()); q[kv.first] = m; }
    inc = cg.getTimeIncrementOfClusters();
    res = cg.getResolutionOfClusters();
    if (q == parts) return;
    for (auto& kv : parts) if (!q.count(kv.first) || q[kv.first] != kv.second) {
      ends.erase(kv.first);
      inside.erase(kv.first);
      for (auto& w : stay) if (w.second.cluster == kv.first) w.second.whole = false;
    }
    parts = q;
    clusterOf.clear();
    for (auto& kv : parts) for (int m : kv.second) clusterOf[m] = kv.first;
  };
  // the walker has arrived, or waits again: what was drawn for it?
  auto note = [&](int w, const shared_ptr<Walker>& k) {
    int s = k->getIdOfSiteCurrentlyOccupying(), to = k->getPotentialSite();
    double t = k->getDwellTime();
    auto c = clusterOf.find(s);
    if (c == clusterOf.end()) {
      stay.erase(w);
      double sum = 0;
      for (auto& e : sorted[s]) sum += e.second;
      lone[s].push_back({t * sum, to});
      return;
    }
    auto it = stay.find(w);
    if (it == stay.end() || it->second.cluster != c->second) it = stay.insert({w, {}}).first, it->second = Stay{c->second, 0, 0, NOID, true};
    Stay& y = it->second;
    y.total += t;
    ++y.steps;
    auto out = clusterOf.find(to);
    if (out != clusterOf.end() && out->second == c->second) {
      if (y.steps == 1) y.pick = to;
      if (inside[c->second].size() < 20000) inside[c->second].push_back({s, to});
      return;
    }
    double tc = inc[c->second] * res[c->second];
    if (y.whole && tc > 0 && isfinite(tc)) {
      double slack = 4e-14 * (y.steps + 2);
      ends[c->second].push_back({y.total / tc, slack, y.pick, to});
      if (y.steps < 2000) sojourns.push_back({y.total / tc, slack});
    }
    stay.erase(it);
  };
  auto enter = [&]() {
    set<int> used;
    for (auto& kv : in) used.insert(kv.second.second->getIdOfSiteCurrentlyOccupying());
    int s = starts[r.below(starts.size())];
    if (used.count(s)) return;
    auto k = make_shared<Walker>();
    k->occupySite(s);
    vector<pair<int, shared_ptr<Walker>>> v{{next, k}};
    cg.initializeWalkers(v);
    in[next] = v[0];
    note(next, k);
    queue.sortedAdd({next, now + k->getDwellTime()});
    ++next;
  };
  int walkers = max(1, p.ci("walkers", 2));
  long done = 0;
  for (int i = 0; i < 3 * walkers && (int)in.size() < walkers; ++i) enter();
  bool frozen = p.ci("off");
  while (done < hops) {
    R->op_index = (int)done;
    // after a while the clusters stay, so that much is drawn from each
    if (!frozen && done > hops * p.c("freeze", 0.3)) { frozen = true; refresh(); cg.setMinCoarseGrainIterationThreshold(constants::inf_iterations); }
    if ((int)in.size() < walkers && r.chance(0.2)) enter();
    if (!queue.size()) { if (in.empty()) { enter(); if (in.empty()) return; continue; } return; }
    auto e = queue.pop_current();
    auto it = in.find(e.first);
    if (it == in.end()) continue;
    now = e.second;
    cg.hop(it->second);
    ++done;
    auto k = it->second.second;
    int s = k->getIdOfSiteCurrentlyOccupying();
    bool drain = !rates.count(s);
    if (!drain) note(e.first, k);
    if (!frozen) refresh();
    if (drain || r.chance(p.c("leave"))) {
      cg.removeWalkerFromSystem(it->second);
      stay.erase(e.first);
      in.erase(it);
    } else queue.sortedAdd({e.first, now + k->getDwellTime()});
  }
  bump(CNT_hops, done);
  bump(CNT_probe_independence);
  auto quarter = [](double x) { double u = exp(-x); return u < 0.25 ? 0 : u < 0.5 ? 1 : u < 0.75 ? 2 : 3; };
  Pool a, a2, b, c, g;
  for (auto& kv : lone) {
    vector<pair<int, int>> v, w, x, y;
    for (size_t i = 0; i < kv.second.size(); ++i) {
      if (i) y.push_back({kv.second[i - 1].to, quarter(kv.second[i].x)});
      v.push_back({quarter(kv.second[i].x), kv.second[i].to});
      if (i) w.push_back({quarter(kv.second[i - 1].x), quarter(kv.second[i].x)});
      if (i) x.push_back({kv.second[i - 1].to, kv.second[i].to});
    }
    contingency(v, a);
    contingency(w, b);
    contingency(x, g);
    contingency(y, a2);
  }
  judge(a2, "independent.destination-and-next-time", "where walkers go from a site and how long the next one waits there depend on each other");
  judge(a, "independent.time-and-destination", "how long walkers wait on sites and where they go from there depend on each other");
  judge(b, "independent.times-on-site", "successive waiting times on the same site depend on each other");
  judge(g, "independent.destinations", "successive destinations from the same site depend on each other");
  Pool x1, x2, x3, x4;
  for (auto& kv : ends) {
    vector<pair<int, int>> v, w, y, z;
    for (size_t i = 0; i < kv.second.size(); ++i) {
      if (i) y.push_back({kv.second[i - 1].exit, quarter(kv.second[i].x)});
      if (kv.second[i].pick != NOID) z.push_back({quarter(kv.second[i].x), kv.second[i].pick});
      v.push_back({quarter(kv.second[i].x), kv.second[i].exit});
      if (i) w.push_back({quarter(kv.second[i - 1].x), quarter(kv.second[i].x)});
    }
    contingency(v, c);
    contingency(w, x1);
    contingency(y, x3);
    contingency(z, x4);
  }
  judge(x3, "independent.exit-and-next-sojourn", "where walkers leave a cluster to and how long the next one stays depend on each other");
  judge(x4, "independent.sojourn-and-member", "how long walkers stay on a cluster and where they go first inside depend on each other");
  for (auto& kv : inside) contingency(kv.second, x2);
  judge(c, "independent.sojourn-and-exit", "how long walkers stay on clusters and where they leave to depend on each other");
  judge(x1, "independent.sojourns", "successive sojourns on the same cluster depend on each other");
  judge(x2, "independent.members", "where walkers go inside a cluster depends on where they are");
  for (auto& kv : lone) for (size_t i = 0; i + 1 < kv.second.size(); ++i) drawn.q.push_back({kv.second[i].x, kv.second[i + 1].x, (double)kv.first});
  hashv(done);
  hashd(now);
  uint64_t h = 0;
  for (auto& kv : parts) { uint64_t y = 1469598103934665603ull; for (int m : kv.second) y = (y ^ m) * 1099511628211ull; h += y; }
  state(h);
  bump(CNT_steps, done);
  R->sim_time += isfinite(now) ? now : 0;
}

static void independent(const Plan& p) {
  Drawn d;
  auto& q = d.q;
  auto& sojourns = d.sojourns;
  long hops = p.ci("len", 2000);
  if (p.ci("unseeded")) {
    // nothing but the time tells sites, clusters and systems apart, and the clock may stand still
    seam::clock_set(1600000000000000000ll + p.ci("since"), p.ci("tick"));
    if (!p.ci("tick")) bump(CNT_fault_clock_stalled);
    draws(p, hops, d);
    seam::clock_jump(p.ci("later"));
    draws(p, min(hops, 1000l), d);
  } else draws(p, hops, d);
  // nothing is drawn twice
  sort(q.begin(), q.end());
  bump(CNT_oracle_evals);
  auto same = [](double u, double v, double tol) { return fabs(u - v) <= tol * max(u, v); };
  for (size_t i = 0; i + 1 < q.size(); ++i)
    if (same(q[i][0], q[i + 1][0], 4e-15) && same(q[i][1], q[i + 1][1], 4e-15))
      violate("independent.repeated", "two waiting times in a row on site %g are, in units of the mean, the same as two on site %g: %.15g, %.15g", q[i][2], q[i + 1][2], q[i][0], q[i][1]);
  sort(sojourns.begin(), sojourns.end());
  for (size_t i = 0; i + 1 < sojourns.size(); ++i)
    if (same(sojourns[i].first, sojourns[i + 1].first, max(sojourns[i].second, sojourns[i + 1].second)))
      violate("independent.repeated-sojourn", "two sojourns on clusters are, in units of the time constant, both %.12g long", sojourns[i].first);
  size_t j = 0;
  for (auto& y : sojourns) {
    while (j < q.size() && q[j][0] < y.first && !same(q[j][0], y.first, y.second)) ++j;
    if (j < q.size() && same(q[j][0], y.first, y.second))
      violate("independent.repeated-sojourn", "a sojourn on a cluster and a waiting time on site %g are, in units of the mean, both %.12g long", q[j][2], y.first);
  }
}

void run_sys(const Plan& p) {
  if (p.prop == "C20") { independent(p); return; }
  if (p.prop == "C13") { fidelity(p); return; }
  if (p.prop == "C19") { passing(p); return; }
  SEnv e;
  Sys a(p, e);
  a.run();
  uint64_t h = R->hash;
  auto same = [&](Sys& b, const char* kind, const char* why, bool seeds) {
    size_t n = min(a.trace.size(), b.trace.size());
    (void)seeds;
    for (size_t i = 0; i < n; ++i) {
      auto &x = a.trace[i], &y = b.trace[i];
      if (x.w != y.w || x.s != y.s || x.t != y.t || !close(x.dt, y.dt, 1e-9))
        violate(kind, "event %zu: walker %d on %d goes to %d after %.12g; %s: walker %d on %d goes to %d after %.12g", i, x.w, x.s, x.t, x.dt, why, y.w, y.s, y.t, y.dt);
      if (x.part != y.part) violate(kind, "event %zu: the clusters differ %s", i, why);
    }
    if (a.trace.size() != b.trace.size()) violate(kind, "%s the run has %zu events instead of %zu", why, b.trace.size(), a.trace.size());
    bump(CNT_oracle_evals, n);
  };
  if (p.prop == "C05") {
    SEnv e2;
    e2.extraPolls = true;
    Sys b(p, e2);
    b.run();
    same(b, "visits.observer", "with counts read all along", true);
    for (int s : a.all)
      if (fabs((double)a.lastReported[s] - b.lastReported[s]) > 2 + 1e-6 * a.lastReported[s]) violate("visits.observer", "site %d ends with %d visits when read at the end, with %d when read all along", s, a.lastReported[s], b.lastReported[s]);
    R->hash = h;
  }
  if (p.prop == "C08") {
    SEnv e2;
    e2.refused = true;
    Sys b(p, e2);
    b.run();
    same(b, "system.refused-changes", "with refused and reading calls in between", true);
    for (int s : a.all)
      if (!a.rates.empty() && a.cg.getVisitFrequencyOfSite(s) != b.cg.getVisitFrequencyOfSite(s)) violate("system.refused-changes", "site %d ends with %d visits, with refused calls in between with %d", s, a.cg.getVisitFrequencyOfSite(s), b.cg.getVisitFrequencyOfSite(s));
    R->hash = h;
  }
  if (p.prop == "C18") {
    SEnv e2;
    e2.scaled = true;
    Sys b(p, e2);
    b.run();
    double f = b.unit;
    for (auto& x : b.trace) x.dt *= f;
    same(b, "unit.system", "with all rates in another unit of time", true);
    bump(CNT_fault_time_unit);
    auto ra = a.cg.getResolutionOfClusters(), ia = a.cg.getTimeIncrementOfClusters(), rb = b.cg.getResolutionOfClusters(), ib = b.cg.getTimeIncrementOfClusters();
    for (auto& kv : ra) {
      int o = *a.parts[kv.first].begin(), c = b.clusterOf[o];  // ids may differ
      if (!close(kv.second, rb[c], 1e-9) || !close(ia[kv.first], ib[c] * f, 1e-9))
        violate("unit.cluster", "the cluster of site %d has the resolution %.12g and increment %.12g, with all rates multiplied by %g %.12g and %.12g in the old unit", o, kv.second, ia[kv.first], f, rb[c], ib[c] * f);
    }
    if (!a.rates.empty()) for (int s : a.all)
      if (a.cg.getVisitFrequencyOfSite(s) != b.cg.getVisitFrequencyOfSite(s)) violate("unit.visits", "site %d ends with %d visits, with all rates multiplied by %g with %d", s, a.cg.getVisitFrequencyOfSite(s), f, b.cg.getVisitFrequencyOfSite(s));
    R->hash = h;
  }
  if (p.prop == "C21") {
    SEnv e2;
    e2.renamed = p.ci("renamed");
    e2.otherForm = p.ci("otherform");
    e2.single = p.ci("single");
    Sys b(p, e2);
    b.run();
    if (e2.renamed) bump(CNT_fault_renamed_walkers);
    if (e2.otherForm || e2.single) bump(CNT_fault_other_calls);
    same(b, "equivalent.calls", "with other names for the walkers and equivalent calls", true);
    if (!a.rates.empty()) for (int s : a.all)
      if (a.cg.getVisitFrequencyOfSite(s) != b.cg.getVisitFrequencyOfSite(s)) violate("equivalent.visits", "site %d ends with %d visits, with other names for the walkers and equivalent calls with %d", s, a.cg.getVisitFrequencyOfSite(s), b.cg.getVisitFrequencyOfSite(s));
    R->hash = h;
  }
  if (p.prop == "C09") {
    for (int k = 0; k < 2; ++k) {
      SEnv e2;
      e2.clock0 = k ? 42 : 1700000000123456789ll;
      e2.clockStep = k ? 0 : 1000003;
      e2.clockJumpSeed = p.seed + 17 + k;
      e2.heap = p.seed * 77 + 13 + k;
      e2.company = k == 1;
      Sys b(p, e2);
      b.run();
      same(b, "reproducible.system", k ? "with another clock, memory layout and company" : "with another clock and memory layout", true);
    }
    R->hash = h;
    if (a.freeTimes >= 4) {
      Plan q = p;
      q.cfg["sysseed"] = otherSeed(p.c("sysseed", 7), p.seed);
      Sys b(q, e);
      b.run();
      R->hash = h;
      bool eq = a.trace.size() == b.trace.size();
      for (size_t i = 0; eq && i < a.trace.size(); ++i) eq = a.trace[i].dt == b.trace[i].dt;
      if (eq) violate("reproducible.seed-ignored", "a different seed gives the same trajectory of %zu events", a.trace.size());
    }
  }
}

Plan gen_sys(const string& prop, uint64_t seed, int tier) {
  Plan p;
  p.prop = prop;
  p.world = "sys";
  p.seed = seed;
  Rng r(seed ^ 0x5359530a);
  map<int, unordered_map<int, double>> g;
  vector<int> ids;
  bool live = prop == "C17" && r.chance(0.3), nested = live && r.chance(0.5);
  if (prop == "C13" || live) {
    // a ring or chain of fast groups joined by slow links, all two-way
    int groups = nested ? 3 : r.range(2, 4), sz = nested ? 2 : live ? r.range(2, 5) : r.range(2, 4), n = groups * sz;
    bool near = live && !nested && r.chance(0.4);  // hardly slower outside than inside
    double scale = pow(10.0, r.range(-3, 6)), slow = near ? r.logu(0.05, 0.2) : pow(10.0, -r.range(3, 4)), spread = r.chance(0.5) ? 2 : 4;
    // inside a group all rates are (almost) equal, so that the search for
    // basins finds the whole group from any of its sites
    vector<double> base;
    for (int k = 0; k < groups; ++k) base.push_back(scale * r.logu(1, spread));
    auto link = [&](int a, int b, double f) {
      if (g[a].count(b)) return;
      if (f == 1) {
        g[a][b] = base[a / sz] * (r.chance(0.5) ? 1 : 0.99999);
        g[b][a] = base[a / sz] * (r.chance(0.5) ? 1 : 0.99999);
        return;
      }
      g[a][b] = scale * f * r.logu(1, spread);
      g[b][a] = scale * f * r.logu(1, spread);
    };
    p.cfg["groupsize"] = sz;
    if (nested) {
      p.cfg["nested"] = 1;
      int k = r.range(1, 2);
      double mid = scale * slow;
      for (int i = 0; i < k; ++i) { int a = r.below(sz), b = sz + r.below(sz); g[a][b] = mid * (r.chance(0.5) ? 1 : 0.99999); g[b][a] = mid * (r.chance(0.5) ? 1 : 0.99999); }
      slow *= 1e-6;
    }
    for (int k = 0; k < groups; ++k)
      for (int i = 0; i + 1 < sz; ++i) { link(k * sz + i, k * sz + i + 1, 1); if (r.chance(0.4) && i + 2 < sz) link(k * sz + i, k * sz + i + 2, 1); }
    for (int k = nested; k + 1 < groups; ++k) link(k * sz + r.below(sz), (k + 1) * sz + r.below(sz), slow);
    if (groups > 2 && !nested && r.chance(0.5)) link(r.below(sz), (groups - 1) * sz + r.below(sz), slow);
    (void)n;
    p.cfg["threshold"] = live && r.chance(0.4) ? r.below(5) : r.range(5, 60);
    p.cfg["timeres"] = (nested ? 1e7 : r.chance(0.5) ? 1e3 : 1e6) / scale;
    if (live) {
      p.cfg["sysseed"] = anySeed(r);
      if (near) p.cfg["perf"] = r.logu(0.002, 0.1);
      else if (r.chance(0.2)) p.cfg["perf"] = r.logu(0.1, 10);
      for (auto& kv : g) for (auto& e : kv.second) p.add("edge", {(double)kv.first, (double)e.first, e.second});
      Op pl{"place", {}};
      int nw = r.range(1, 3), wm = r.below(5);
      for (int i = 0; i < nw; ++i) { pl.a.push_back(walkerId(wm, i)); pl.a.push_back(r.below(nested ? 2 * sz : n)); }
      p.ops.push_back(pl);
      p.add("live", {});
      p.add("hop", {(double)r.range(50, 600)});
      return p;
    }
    p.cfg["burn"] = 30000;
    p.cfg["len"] = tier ? 1500 : 300;
    p.cfg["sysseed"] = anySeed(r);
    for (auto& kv : g) for (auto& e : kv.second) p.add("edge", {(double)kv.first, (double)e.first, e.second});
    return p;
  }
  bool basin = r.chance(0.75);
  bool big = r.chance(tier ? 0.08 : 0.04);
  makeGraph(r, basin, big ? 2 : tier, true, g, ids);
  if (basin && r.chance(0.3)) {
    // near ties: rates of one order of magnitude differ by less than the
    // margin the search for basins allows
    double top = 0;
    map<int, vector<int>> nb;
    for (auto& kv : g) for (auto& e : kv.second) { top = max(top, e.second); nb[kv.first].push_back(e.first); }
    for (auto& kv : nb) {
      sort(kv.second.begin(), kv.second.end());
      for (int b : kv.second) {
        double& e = g[kv.first][b];
        double dec = floor(log10(top / e) / 3);
        e = top * pow(10.0, -3 * dec) * (1 - 6e-5 * r.below(6));
      }
    }
  }
  double slowest = 1e300, fastest = 0;
  for (auto& kv : g) for (auto& e : kv.second) {
    p.add("edge", {(double)kv.first, (double)e.first, e.second});
    slowest = min(slowest, e.second);
    fastest = max(fastest, e.second);
  }
  p.cfg["threshold"] = r.chance(0.3) ? r.below(3) : r.range(2, 40);
  p.cfg["off"] = r.chance(prop == "C03" ? 0.5 : prop == "C20" ? 0.3 : 0.08);
  p.cfg["timeres"] = r.chance(0.5) ? 1e3 / slowest : r.logu(1 / fastest, 1e3 / slowest);
  if (r.chance(0.2)) p.cfg["perf"] = r.logu(0.1, 10);
  p.cfg["sysseed"] = anySeed(r);
  p.cfg["pairhop"] = r.below(2);
  if (prop == "C20") {
    p.cfg["walkers"] = r.chance(0.3) ? 1 : r.range(2, 5);
    p.cfg["len"] = r.chance(0.2) ? r.range(50, 500) : r.range(1000, tier ? 20000 : 6000);
    p.cfg["freeze"] = r.chance(0.3) ? 1 : r.uni() * 0.5;
    p.cfg["leave"] = r.chance(0.6) ? 0 : r.logu(0.001, 0.3);
    if (r.chance(0.25)) {
      static const int ticks[] = {0, 0, 1, 100, 1000, 1000000}, gaps[] = {0, 1, 1000, 1000000, 1000000000};
      p.cfg["unseeded"] = 1;
      p.cfg["since"] = r.below(1000000000);
      p.cfg["tick"] = ticks[r.below(6)];
      p.cfg["later"] = gaps[r.below(5)];
    }
    return p;
  }
  if (prop == "C19") {
    p.cfg["walkers"] = r.chance(0.3) ? 1 : r.range(2, 8);
    p.cfg["hops"] = r.chance(0.2) ? r.range(0, 3) : r.range(4, 60);
    p.cfg["firstid"] = r.chance(0.5) ? 0 : r.range(0, 1000000);
    p.cfg["waiting"] = r.below(4);
    if (r.chance(0.25)) { p.cfg["oom"] = 1 + floor(r.logu(1, 3000)); p.cfg["nth"] = floor(r.logu(1, r.chance(0.5) ? 8 : 1000)); }
    p.cfg["warm"] = r.range(0, 120);
    p.cfg["rest"] = r.range(60, 120);
    p.cfg["rounds"] = r.range(300, tier ? 3000 : 700);
    return p;
  }
  if (prop == "C21") {
    int how = r.range(1, 15);
    p.cfg["renamed"] = how & 3;
    p.cfg["otherform"] = how >> 2 & 1;
    p.cfg["single"] = how >> 3;
  }
  if (prop == "C18") p.cfg["unit"] = (r.chance(0.5) ? 1 : -1) * (r.chance(0.3) ? r.range(1, 8) : r.range(9, 300));
  int nw = big ? r.range(5, 30) : r.range(1, 6), wm = r.below(5);
  Op pl{"place", {}};
  for (int i = 0; i < nw; ++i) { pl.a.push_back(walkerId(wm, i)); pl.a.push_back(ids[r.below(ids.size())]); }
  p.ops.push_back(pl);
  int n = r.range(10, tier ? 150 : 70);
  double wt = (prop == "C12" || prop == "C17" || prop == "C18") && r.chance(0.3) ? 2 : 0, wc = (prop == "C17" || prop == "C18") && r.chance(0.3) ? 4 : 0, wf = prop == "C12" && r.chance(0.25) ? 2 : 0;
  if (wt > 0) p.cfg["thrchanges"] = 1;
  double wr = r.chance(0.6) ? 8 : 0, wp = r.chance(0.7) ? 10 : 2, wh = r.chance(0.6) ? 12 : 0, wq = r.chance(0.5) ? 5 : 0;
  for (int i = 0; i < n; ++i) {
    double x = r.uni() * (40 + wr + wp + wh + wq + wt + wf + wc);
    if (x < wc) { if (r.chance(0.5)) p.add("tres", {r.logu(1 / fastest, 1e3 / slowest)}); else p.add("perf", {r.logu(0.1, 10)}); continue; }
    x -= wc;
    if (x < wt) { p.add("thr", {(double)(r.chance(0.3) ? -1 : r.chance(0.5) ? r.below(3) : r.range(1, 40))}); continue; }
    if ((x -= wt) < wf) { p.add("ff", {(double)r.below(6)}); continue; }
    x -= wf;
    if (x < 40) p.add("hop", {(double)(r.chance(0.003) ? r.range(300, 6000) : r.chance(0.5) ? 1 : r.range(2, 60))});
    else if ((x -= 40) < wr) p.add("rem", {(double)walkerId(wm, r.below(nw + 2)), (double)r.below(2)});
    else if ((x -= wr) < wp) {
      Op o{"place", {}};
      int k = r.chance(prop == "C21" ? 0.3 : 0.75) ? 1 : r.range(2, 5);
      for (int j = 0; j < k; ++j) { o.a.push_back(walkerId(wm, r.below(nw + (k > 1 ? 6 : 2)))); o.a.push_back(ids[r.below(ids.size())]); }
      p.ops.push_back(o);
    }
    else if ((x -= wp) < wh) p.add("hopw", {(double)r.below(16)});
    else if (r.chance(0.5)) p.add("poll", {});
    else p.add("poll", {(double)ids[r.below(ids.size())]});
  }
  return p;
}
}  // namespace sim
#endif
