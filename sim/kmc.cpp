// World "kmc": walkers hopping on real sites and clusters, driven by the real
// event queue, under a seeded schedule.  The driver below only does what the
// library's own front end does with these parts (hop, create cluster, absorb
// sites, merge clusters, remove a walker); every decision is in the plan.
#include <algorithm>
#include <deque>
#include <functional>
#include <limits>
#include <memory>
#include <unordered_map>

#include "core.hpp"
#include "libmythical/cluster_container.hpp"
#include "libmythical/site_container.hpp"
#include "libmythical/topologyfeatures/cluster.hpp"
#include "libmythical/topologyfeatures/site.hpp"
#include "mythical/queue.hpp"
#include "mythical/walker.hpp"

using namespace std;
using namespace mythical;

namespace sim {

typedef map<int, unordered_map<int, double>> Rates;

static bool hasRate(const Rates& r, int a, int b) {
  auto i = r.find(a);
  return i != r.end() && i->second.count(b);
}

// ------------------------------------------------------- exact reference
// stationary distribution of the members with only the inside rates (GTH)
static vector<double> innerStationary(const vector<int>& ids, const Rates& r) {
  int n = ids.size();
  vector<vector<long double>> a(n, vector<long double>(n, 0));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (i != j && hasRate(r, ids[i], ids[j])) a[i][j] = r.at(ids[i]).at(ids[j]);
  vector<vector<long double>> w = a;
  for (int k = n - 1; k > 0; --k) {
    long double s = 0;
    for (int j = 0; j < k; ++j) s += w[k][j];
    if (s == 0) return {};
    for (int i = 0; i < k; ++i) w[i][k] /= s;
    for (int i = 0; i < k; ++i)
      for (int j = 0; j < k; ++j)
        if (i != j) w[i][j] += w[i][k] * w[k][j];
  }
  vector<long double> pi(n, 0);
  pi[0] = 1;
  long double tot = 1;
  for (int k = 1; k < n; ++k) {
    for (int i = 0; i < k; ++i) pi[k] += pi[i] * w[i][k];
    tot += pi[k];
  }
  vector<double> out(n);
  for (int i = 0; i < n; ++i) out[i] = (double)(pi[i] / tot);
  return out;
}
// Largest relative error of the probabilities on the members if the search for
// them, the power method on the half-lazy jump chain starting from equal
// probabilities, ends when two iterations differ by tol (tol >= 0), or after a
// number of iterations.  With Z the deviation matrix of the chain an iterate
// that differs by d from the one before is off by at most |d| |Z column|.
static double searchError(const vector<int>& ids, const Rates& r, const vector<double>& pi, double tol, double iters) {
  size_t n = ids.size();
  map<int, size_t> at;
  for (size_t i = 0; i < n; ++i) at[ids[i]] = i;
  typedef vector<vector<double>> M;
  M L(n, vector<double>(n, 0));
  vector<double> w(n);
  double tot = 0;
  for (size_t i = 0; i < n; ++i) {
    double sum = 0;
    for (auto& kv : r.at(ids[i])) if (at.count(kv.first)) sum += kv.second;
    w[i] = pi[i] * sum;
    tot += w[i];
    L[i][i] = 0.5;
    for (auto& kv : r.at(ids[i])) if (at.count(kv.first)) L[i][at[kv.first]] += 0.5 * kv.second / sum;
  }
  for (auto& x : w) x /= tot;
  double worst = 0;
  if (tol >= 0) {
    // invert I - L + 1 w
    M A(n, vector<double>(2 * n, 0));
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < n; ++j) A[i][j] = (i == j) - L[i][j] + w[j];
      A[i][n + i] = 1;
    }
    for (size_t c = 0; c < n; ++c) {
      size_t p = c;
      for (size_t i = c; i < n; ++i) if (fabs(A[i][c]) > fabs(A[p][c])) p = i;
      if (A[p][c] == 0) return 1e9;
      swap(A[p], A[c]);
      double f = A[c][c];
      for (auto& x : A[c]) x /= f;
      for (size_t i = 0; i < n; ++i)
        if (i != c) { double g = A[i][c]; if (g != 0) for (size_t j = 0; j < 2 * n; ++j) A[i][j] -= g * A[c][j]; }
    }
    for (size_t j = 0; j < n; ++j) {
      double q = 0;
      for (size_t i = 0; i < n; ++i) { double z = A[i][n + j] - w[j]; q += z * z; }
      worst = max(worst, (tol + 1e-12) * sqrt(q) / w[j]);
    }
    return worst;
  }
  vector<double> v(n, 1.0 / n);
  for (double k = floor(iters); k >= 1; k = floor(k / 2)) {  // v L^iters
    auto times = [&](const M& m) { vector<double> u(n, 0); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) u[j] += v[i] * m[i][j]; v = u; };
    if (fmod(k, 2) == 1) times(L);
    M q(n, vector<double>(n, 0));
    for (size_t i = 0; i < n; ++i) for (size_t k2 = 0; k2 < n; ++k2) for (size_t j = 0; j < n; ++j) q[i][j] += L[i][k2] * L[k2][j];
    L = q;
  }
  for (size_t j = 0; j < n; ++j) worst = max(worst, fabs(v[j] - w[j]) / w[j]);
  return worst;
}

double inverted(int way, double u) { return way == 2 ? -log1p(-u) : -log(u); }
// How a draw u becomes a time: 1 for -log(u), 2 for -log(1-u), 0 for a way not
// known here (then only the distribution is judged, not the single draw).
void calibrateDraws(int& exactSite, int& exactCluster) {
  unordered_map<int, double> r1{{2, 3.0}, {9, 0.5}}, r2{{1, 2.0}};
  Site a, b;
  a.setId(1); b.setId(2);
  a.setRatesToNeighbors(r1);
  b.setRatesToNeighbors(r2);
  a.setRandomSeed(12345);
  bool ok[3] = {false, true, true};
  for (int i = 0; i < 3; ++i) {
    uint64_t d0 = seam::draws;
    double dt = a.getDwellTime(1), T = a.getTimeConstant(), u = seam::last_u;
    for (int way = 1; way < 3; ++way)
      if (seam::draws == d0 || !close(dt, inverted(way, u) * T, 1e-9)) ok[way] = false;
  }
  exactSite = ok[1] ? 1 : ok[2] ? 2 : 0;
  Cluster c;
  vector<Site> v{a, b};
  c.addSites(v);
  c.updateProbabilitiesAndTimeConstant();
  c.setRandomSeed(54321);
  ok[1] = ok[2] = true;
  for (int w = 1; w <= 24; ++w) {
    uint64_t d0 = seam::draws;
    double dt = c.getDwellTime(w), T = c.getTimeConstant(), u = seam::last_u, inc = c.getTimeIncrement();
    for (int way = 1; way < 3; ++way)
      if (seam::draws == d0 || !close(dt, min(inc, inverted(way, u) * T), 1e-9)) ok[way] = false;
  }
  exactCluster = ok[1] && ok[2] ? exactSite : ok[1] ? 1 : ok[2] ? 2 : 0;
  c.setRandomSeed(54321);
}

// -------------------------------------------------------------- the system
struct Env {
  long long clock0 = 1600000000000000000ll, clockStep = 1;
  uint64_t clockJumpSeed = 0;  // 0: none
  uint64_t heap = 0;
  bool extraPolls = false;
  bool company = false;
  bool scaled = false;  // all rates in another unit of time
  int renamed = 0;      // walkers known to the library by other names
  bool otherForm = false;  // equivalent calls, where there are several
};
struct TraceRow {
  int w, s, t;
  double dt;
};

struct ClSet {  // settings of a cluster
  int method = 1;
  long iters = 3;
  double tol = 0.01, res = 20;
};

// walkers used by probes on copies of a cluster: ids no live walker has
static const int PROBE = 1 << 28;

struct KSys {
  const Plan& plan;
  Env env;
  Rates rates;
  Site_Container sites;
  Cluster_Container clusters;
  map<int, TopologyFeature*> feat;
  set<int> all, drains;
  map<int, int> clusterOf;          // model: site -> cluster id (absent: lone)
  map<int, set<int>> members;       // model
  map<int, ClSet> settings;
  map<int, int> occ;                // model: site -> walker
  struct Wk {
    Walker real;
    int site = -1;
    bool drained = false;
    double when = 0;
    // sojourn model
    bool active = false;      // inside a sojourn with known remaining time
    bool unsure = false;      // its cluster was merged away under it
    int cid = -1;
    double rem = 0, lastDt = 0, lastInc = 0;
  };
  map<int, Wk> walkers;             // present walkers
  set<int> everSeen;
  Queue queue;
  double now = 0;
  map<int, long> loneVisits;        // model
  map<int, double> clVisits;        // model, real valued
  map<int, int> visitSlack;         // roundings that may have happened
  map<int, int> lastReported;
  set<pair<int, int>> dirtyRates;   // changed since last registration/update
  set<int> dirtyClusters;
  int maxClusterId = -1;
  unsigned long nextClusterSeed = 777;
  double fDwell = -1, fPick = -1;   // forced draws for the next hop
  int exactSite = 0, exactCluster = 0;
  vector<TraceRow> trace;
  long freeTimes = 0;  // waiting times on lone sites; on clusters most are equal to the increment
  Rng jumps, polls;
  unique_ptr<KSys> companySys;
  bool c01, c02, c03, c04, c05, c06, c07, c09, c10, c13;
  double unit = 1;  // factor on all rates
  string P;

  KSys(const Plan& p, const Env& e) : plan(p), env(e), jumps(e.clockJumpSeed ? e.clockJumpSeed : 1), polls(p.seed + 5) {
    P = p.prop;
    c01 = P == "C01"; c02 = P == "C02"; c03 = P == "C03"; c04 = P == "C04"; c05 = P == "C05";
    c06 = P == "C06"; c07 = P == "C07"; c09 = P == "C09"; c10 = P == "C10"; c13 = P == "C13";
    if (e.scaled) unit = ldexp(1.0, max(-300, min(300, p.ci("unit", 1))));
  }

  int lib(int w) const { return renamedWalker(env.renamed, w, plan.seed); }
  // the same calls, in one of the forms the library offers
  void occupySite(int s) {
    if (!env.otherForm || !lone(s)) feat[s]->occupy(s);
    else if (s & 1) feat[s]->occupy();
    else sites.occupy(s);
  }
  void vacateSite(int s) {
    if (!env.otherForm || !lone(s)) feat[s]->vacate(s);
    else if (s & 1) feat[s]->vacate();
    else sites.vacate(s);
  }
  bool siteTaken(int s) {
    if (!env.otherForm || !lone(s)) return feat.at(s)->isOccupied(s);
    return s & 1 ? feat[s]->isOccupied() : sites.isOccupied(s);
  }
  double dwellOf(int s, int w) {
    if (!env.otherForm) return feat[s]->getDwellTime(lib(w));
    return lone(s) ? sites.getDwellTime(s) : clusters.getDwellTime(lib(w), clusterOf[s]);
  }
  int pickFrom(int s, int w) {
    if (!env.otherForm || !lone(s)) return feat[s]->pickNewSiteId(lib(w));
    return sites.getSite(s).pickNewSiteId();
  }
  void takeOff(int s, int w) {
    if (!env.otherForm || !lone(s)) feat[s]->removeWalker(lib(w), s);
    else vacateSite(s);
  }

  // ------------------------------------------------------------ building
  void build() {
    seam::clock_set(env.clock0, env.clockStep);
    seam::heap_layout(env.heap);
    if (env.heap) bump(CNT_fault_heap_layout);
    calibrateDraws(exactSite, exactCluster);
    for (auto& o : plan.ops)
      if (o.name == "edge") {
        int a = o.in(0), b = o.in(1);
        double r = o.at(2) * unit;
        if (a == b || a == NOID || b == NOID || !(r > 0) || !isfinite(r)) continue;
        rates[a][b] = r;
        all.insert(a);
        all.insert(b);
      }
    for (int s : all)
      if (!rates.count(s)) drains.insert(s);
    int how = plan.ci("register");
    if (env.otherForm) how = (max(0, how) + 1) % 3;
    vector<Site> batch;
    unsigned long seed = (unsigned long)plan.c("sysseed", 7);
    for (int s : all) {
      Site st;
      st.setId(s);
      if (!drains.count(s)) {
        if (how == 0) st.setRatesToNeighbors(rates[s]);
        else
          for (auto& kv : rates[s]) {
            if (how == 1) st.addNeighRate(pair<int, double*>(kv.first, &kv.second));
            else st.resetNeighRate(pair<int, double*>(kv.first, &kv.second));
          }
      }
      st.setRandomSeed(seed++);
      if (env.otherForm) batch.push_back(st);
      else sites.addSite(st);
      loneVisits[s] = 0;
      clVisits[s] = 0;
    }
    if (env.otherForm) sites.addSites(batch);
    nextClusterSeed = seed + 1000;
    for (int s : all) feat[s] = &sites.getSite(s);
    if (env.company) {
      Env e2;
      companySys.reset(new KSys(plan, e2));
      companySys->build();
    }
  }

  bool lone(int s) const { return !clusterOf.count(s); }
  Cluster& cl(int id) { return clusters.getCluster(id); }
  double outsideRate(const set<int>& m) const {
    double x = 0;
    for (int s : m) {
      auto it = rates.find(s);
      if (it == rates.end()) continue;
      for (auto& kv : it->second)
        if (!m.count(kv.first)) x += kv.second;
    }
    return x;
  }
  set<int> outsideOf(const set<int>& m) const {
    set<int> x;
    for (int s : m) {
      auto it = rates.find(s);
      if (it == rates.end()) continue;
      for (auto& kv : it->second)
        if (!m.count(kv.first)) x.insert(kv.first);
    }
    return x;
  }
  // usable as a cluster: connected through two-way rates, every inside rate
  // two-way, and at least one way out
  bool legal(const set<int>& m) const {
    if (m.size() < 2) return false;
    for (int s : m) {
      if (!all.count(s) || drains.count(s)) return false;
      for (auto& kv : rates.at(s))
        if (m.count(kv.first) && !hasRate(rates, kv.first, s)) return false;
      // a member that hardly ever stays inside is lost in the rounding of the
      // library's iteration
      double in = 0, tot = 0;
      for (auto& kv : rates.at(s)) { tot += kv.second; if (m.count(kv.first)) in += kv.second; }
      if (in < 1e-8 * tot) return false;
    }
    set<int> seen{*m.begin()};
    deque<int> q{*m.begin()};
    while (!q.empty()) {
      int s = q.front();
      q.pop_front();
      for (auto& kv : rates.at(s))
        if (m.count(kv.first) && seen.insert(kv.first).second) q.push_back(kv.first);
    }
    return seen.size() == m.size() && outsideRate(m) > 0;
  }

  // a tight tolerance on sites joined only by rare hops takes the iteration
  // very many rounds; not done here
  bool affordable(const set<int>& m, const ClSet& st) const {
    if (st.method != 2 || st.tol >= 1e-4) return true;
    map<int, int> at;
    for (int s : m) { int k = (int)at.size(); at[s] = k; }
    int n = (int)m.size();
    struct E { int from, to; double p; };
    vector<E> e;
    for (int s : m) {
      double tot = 0;
      for (auto& kv : rates.at(s)) tot += kv.second;
      for (auto& kv : rates.at(s)) if (m.count(kv.first)) e.push_back({at[s], at[kv.first], kv.second / tot});
    }
    vector<double> x(n, 1.0 / n), y(n);
    for (int round = 0; round < 3000; ++round) {
      fill(y.begin(), y.end(), 0.0);
      for (auto& k : e) y[k.to] += x[k.from] * k.p;
      double tot = 0, err = 0;
      for (double v : y) tot += v;
      if (!(tot > 0)) return false;
      for (int i = 0; i < n; ++i) { double d = (y[i] / tot - x[i]) / 2; x[i] += d; err += d * d; }
      if (sqrt(err) <= max(st.tol * 0.5, 1e-16 * n)) return true;
    }
    return false;
  }

  void apply(Cluster& c, const ClSet& st) {
    c.setConvergenceMethod(st.method == 0 ? Cluster::converge_by_iterations_per_cluster : st.method == 1 ? Cluster::converge_by_iterations_per_site : Cluster::converge_by_tolerance);
    c.setConvergenceIterations(st.iters);
    c.setConvergenceTolerance(st.tol);
  }

  // ------------------------------------------------------------ cluster ops
  bool form(const Op& o) {
    ClSet st;
    st.method = ((o.in(0) % 3) + 3) % 3;
    st.iters = max(1, o.in(1, 3));
    st.tol = min(0.5, max(0.0, o.at(2, 0.01)));
    st.res = max(2.0, o.at(3, 20));
    set<int> m;
    vector<int> order;
    for (size_t i = 4; i < o.a.size(); ++i) {
      int s = o.in(i, NOID);
      if (!all.count(s) || !lone(s) || m.count(s)) return false;
      m.insert(s);
      order.push_back(s);
    }
    if (!legal(m) || !affordable(m, st)) return false;
    Cluster c;
    int id = c.getId();
    if (c07 && id <= maxClusterId) violate("membership.id-order", "new cluster has id %d, not above all earlier ids (%d)", id, maxClusterId);
    maxClusterId = max(maxClusterId, id);
    apply(c, st);
    vector<Site> v;
    for (int s : order) v.push_back(sites.getSite(s));
    if (o.in(0) >= 3) for (auto& x : v) c.addSite(x);
    else c.addSites(v);
    if (c07)
      for (auto& x : v)
        if (x.getClusterId() != id) violate("membership.added-site-id", "site %d added to cluster %d carries cluster id %d", x.getId(), id, x.getClusterId());
    c.updateProbabilitiesAndTimeConstant();
    c.setResolution(st.res);
    c.setRandomSeed(nextClusterSeed++);
    if (env.otherForm) { vector<Cluster> one{c}; clusters.addClusters(one); }
    else clusters.addCluster(c);
    for (int s : order) {
      sites.setClusterId(s, id);
      feat[s] = &clusters.getCluster(id);
      clusterOf[s] = id;
      if (occ.count(s)) bump(CNT_walker_on_site_at_form);
    }
    members[id] = m;
    settings[id] = st;
    for (int s : m) for (auto& kv : rates[s]) dirtyRates.erase({s, kv.first});
    bump(CNT_clusters_formed);
    return true;
  }
  bool absorb(const Op& o) {
    int a = o.in(0, NOID);
    if (lone(a) || !all.count(a)) return false;
    int id = clusterOf[a];
    set<int> m = members[id];
    vector<Site> v;
    for (size_t i = 1; i < o.a.size(); ++i) {
      int s = o.in(i, NOID);
      if (!all.count(s) || !lone(s) || m.count(s)) return false;
      m.insert(s);
      v.push_back(sites.getSite(s));
    }
    if (v.empty() || !legal(m) || !affordable(m, settings[id])) return false;
    cl(id).addSites(v);
    cl(id).updateProbabilitiesAndTimeConstant();
    for (auto& x : v) {
      int s = x.getId();
      sites.setClusterId(s, id);
      feat[s] = &cl(id);
      clusterOf[s] = id;
      if (occ.count(s)) bump(CNT_walker_on_site_at_form);
    }
    for (int s : m) ++visitSlack[s];
    members[id] = m;
    settled(id);
    bump(CNT_cluster_absorb);
    return true;
  }
  bool merge(const Op& o) {
    int a = o.in(0, NOID), b = o.in(1, NOID);
    if (!all.count(a) || !all.count(b) || lone(a) || lone(b)) return false;
    int x = clusterOf[a], y = clusterOf[b];
    if (x == y) return false;
    if (o.in(2) == 0 && x > y) swap(x, y);  // keep the smaller id, or the first
    set<int> m = members[x];
    m.insert(members[y].begin(), members[y].end());
    if (!legal(m) || !affordable(m, settings[x])) return false;
    Cluster& keep = cl(x);
    Cluster& gone = cl(y);
    keep.migrateSitesFrom(gone);
    if (c07) {
      if (!gone.getSiteIdsInCluster().empty() || gone.getNumberOfSitesInCluster() != 0 || !gone.getSitesInCluster().empty())
        violate("membership.merge-source", "cluster %d still holds %d sites after its sites were moved to %d", y, gone.getNumberOfSitesInCluster(), x);
      if (!gone.getSiteIdsNeighboringCluster().empty())
        violate("membership.merge-source-neighbours", "emptied cluster %d still reports outside neighbours", y);
      for (int s : members[y])
        if (gone.siteIsInCluster(s)) violate("membership.merge-source", "emptied cluster %d still claims site %d", y, s);
    }
    clusters.erase(y);
    for (int s : members[y]) {
      sites.setClusterId(s, x);
      feat[s] = &cl(x);
      clusterOf[s] = x;
    }
    for (auto& kv : walkers) {
      if (kv.second.cid == y) {
        kv.second.unsure = true;
        kv.second.cid = x;
        bump(CNT_walker_in_cluster_at_merge);
      }
    }
    members.erase(y);
    settings.erase(y);
    for (int s : m) ++visitSlack[s];
    members[x] = m;
    dirtyClusters.erase(y);
    settled(x);
    bump(CNT_cluster_merge);
    return true;
  }
  void settled(int id) {  // the cluster has just been updated
    dirtyClusters.erase(id);
  }
  bool update(const Op& o) {
    int a = o.in(0, NOID);
    if (!all.count(a) || lone(a)) return false;
    int id = clusterOf[a];
    if (!legal(members[id]) || !affordable(members[id], settings[id])) return false;
    int reps = max(1, min(5, o.in(1, 1)));
    for (int i = 0; i < reps; ++i) {
      cl(id).updateProbabilitiesAndTimeConstant();
      for (int s : members[id]) ++visitSlack[s];
    }
    settled(id);
    bump(CNT_cluster_update);
    return true;
  }
  // an update cut short by an allocation failure, then repeated
  bool oomUpdate(const Op& o) {
    int a = o.in(0, NOID);
    if (!all.count(a) || lone(a)) return false;
    int id = clusterOf[a];
    if (!affordable(members[id], settings[id])) return false;
    Cluster& c = cl(id);
    bool threw = false;
    seam::alloc_arm(max(1, o.in(1, 1)));
    try {
      c.updateProbabilitiesAndTimeConstant();
    } catch (const bad_alloc&) {
      threw = true;
    }
    seam::alloc_disarm();
    if (threw) {
      bump(CNT_update_retried);
      c.updateProbabilitiesAndTimeConstant();
    }
    settled(id);
    bump(CNT_cluster_update);
    return true;
  }
  bool resolution(const Op& o) {
    int a = o.in(0, NOID);
    if (!all.count(a) || lone(a)) return false;
    int id = clusterOf[a];
    double r = max(2.0, min(1e6, o.at(1, 20)));
    cl(id).setResolution(r);
    settings[id].res = r;
    if (c02 && cl(id).getResolution() != r) violate("residence.resolution", "resolution set to %g is reported as %g", r, cl(id).getResolution());
    bump(CNT_cluster_resolution);
    return true;
  }
  void liveViews(Site& st, int a, const char* what) {
    auto& want = rates[a];
    auto live = st.getNeighborsAndRates();
    auto& fixed = st.getNeighborsAndRatesConst();
    if (live.size() != want.size() || fixed.size() != want.size()) violate("rates.live", "%s %d lists %zu rates, it has %zu", what, a, live.size(), want.size());
    multiset<double> l;
    double fast = 0;
    for (auto& kv : want) {
      fast = max(fast, kv.second);
      l.insert(kv.second);
      if (!st.isNeighbor(kv.first)) violate("rates.live", "%s %d does not know its neighbour %d", what, a, kv.first);
      if (!live.count(kv.first) || *live[kv.first] != kv.second || !fixed.count(kv.first) || *fixed.at(kv.first) != kv.second || st.getRateToNeighbor(kv.first) != kv.second)
        violate("rates.live", "rate %d->%d is now %g but is not seen through %s", a, kv.first, kv.second, what);
    }
    auto v = st.getRateToNeighbors();
    if (multiset<double>(v.begin(), v.end()) != l) violate("rates.live", "the list of rates of %s %d is not the current one", what, a);
    if (!want.empty() && st.getFastestRate() != fast) violate("rates.live-fastest", "fastest rate off %s %d should be %g, reported %g", what, a, fast, st.getFastestRate());
    bump(CNT_oracle_evals);
  }
  // the user changes a rate behind the library's back
  bool changeRate(const Op& o) {
    int a = o.in(0, NOID), b = o.in(1, NOID);
    if (!hasRate(rates, a, b)) return false;
    double v = o.at(2, 1);
    if (!(v > 1e-15 && v < 1e18)) return false;
    rates[a][b] = v * unit;
    rateChanged(a, {b}, o.in(3));
    return true;
  }
  bool swapRates(const Op& o) {
    int a = o.in(0, NOID), b = o.in(1, NOID), c = o.in(2, NOID);
    if (b == c || !hasRate(rates, a, b) || !hasRate(rates, a, c)) return false;
    swap(rates[a][b], rates[a][c]);
    rateChanged(a, {b, c}, o.in(3));
    return true;
  }
  void rateChanged(int a, vector<int> bs, int how) {
    bump(CNT_fault_rate_change);
    if (c10) {
      for (int b : bs) {
      double v = rates[a][b];
      // reported rates follow at once
      if (sites.getRateToNeighborOfSite(a, b) != v)
        violate("rates.live", "rate %d->%d is now %g but is reported as %g", a, b, v, sites.getRateToNeighborOfSite(a, b));
      }
      double fast = 0;
      for (auto& kv : rates[a]) fast = max(fast, kv.second);
      if (sites.getFastestRateOffSite(a) != fast)
        violate("rates.live-fastest", "fastest rate off site %d should be %g, reported %g", a, fast, sites.getFastestRateOffSite(a));
      liveViews(sites.getSite(a), a, "the site");
      for (auto& kv : members)
        for (auto& st : cl(kv.first).getSitesInCluster()) liveViews(st, st.getId(), "a member of a cluster");
      auto copies = sites.getSites();
      auto table = sites.getRates();
      for (int x : all) {
        if (!copies.count(x)) violate("rates.live", "site %d is not in the copy of all sites", x);
        liveViews(copies[x], x, "a copy of the site");
        auto& row = table[x];
        for (auto& kv : rates[x]) if (!row.count(kv.first) || *row[kv.first] != kv.second) violate("rates.live", "rate %d->%d is %g but not so in the table of all rates", x, kv.first, kv.second);
      }
      if (!lone(a)) {
        set<int>& m = members[clusterOf[a]];
        double fo = 0;
        for (int s : m) for (auto& kv : rates[s]) if (!m.count(kv.first)) fo = max(fo, kv.second);
        if (cl(clusterOf[a]).getFastestRateOffCluster() != fo)
          violate("rates.live-fastest", "fastest rate off the cluster of %d should be %g, reported %g", a, fo, cl(clusterOf[a]).getFastestRateOffCluster());
        if (clusters.getFastestRateOffCluster(clusterOf[a]) != fo) violate("rates.live-fastest", "the registry reports the fastest rate off the cluster of %d as %g, it is %g", a, clusters.getFastestRateOffCluster(clusterOf[a]), fo);
      }
    }
    if (lone(a)) {
      // re-register with the lone site
      Site& s = sites.getSite(a);
      if (how == 0) for (int b : bs) s.resetNeighRate(pair<int, double*>(b, &rates[a][b]));
      else s.setRatesToNeighbors(rates[a]);
    } else {
      dirtyClusters.insert(clusterOf[a]);
      if (how != 2) {
        Op u{"upd", {(double)a, 1}};
        update(u);
      }
    }
  }

  // ------------------------------------------------------------ walkers
  void draw(int w) {
    Wk& k = walkers[w];
    int s = k.site;
    if (drains.count(s)) {
      k.drained = true;
      bump(CNT_drain_reached);
      return;
    }
    TopologyFeature* f = feat[s];
    bool inCl = !lone(s);
    uint64_t d0 = seam::draws;
    if (fDwell >= 0) { seam::force(fDwell); if (fDwell < 1e-15 || fDwell > 1 - 1e-15) bump(CNT_extreme_draw_dwell); }
    fDwell = -1;
    double inc = 0, T = f->getTimeConstant();
    if (inCl) inc = cl(clusterOf[s]).getTimeIncrement();
    double dt = dwellOf(s, w);
    seam::unforce();
    uint64_t nd = seam::draws - d0;
    double u = seam::last_u;
    if (c02 || c09) {
      if (!(dt > 0) || !isfinite(dt)) violate("residence.positive", "walker %d on %s %d gets the residence time %g (draw %.17g)", w, inCl ? "cluster of site" : "site", s, dt, u);
    }
    bool predicted = false;
    if (c02) checkDwell(w, k, s, inCl, T, inc, dt, nd, u, predicted);
    uint64_t d1 = seam::draws;
    if (fPick >= 0) { seam::force(fPick); if (fPick < 1e-15 || fPick > 1 - 1e-15) bump(CNT_extreme_draw_pick); }
    fPick = -1;
    int t = pickFrom(s, w);
    seam::unforce();
    (void)d1;
    bool inside = inCl && all.count(t) && !lone(t) && clusterOf[t] == clusterOf[s];
    if (c03 || c12ish()) {
      bool ok = inCl ? (inside || (outsideOf(members[clusterOf[s]]).count(t))) : hasRate(rates, s, t);
      if (!ok) violate("hop.destination", "walker %d on site %d (%s) is sent to %d, which is not a destination (draw %.17g)", w, s, inCl ? "in a cluster" : "lone", t, seam::last_u);
    }
    if (c02 && inCl) {
      double slack = 1e-9 * (inc + T);
      bool leaves = !inside;
      if (predicted) {
        if (leaves && k.rem > slack) violate("residence.left-early", "walker %d leaves its cluster with %g of its sojourn left (increment %g)", w, k.rem, inc);
        if (!leaves && k.rem < -slack) violate("residence.overstay", "walker %d stays in its cluster although its sojourn was used up (%g)", w, k.rem);
      } else {
        if (leaves && dt > inc * (1 + 1e-9)) violate("residence.increment", "residence %g longer than the increment %g", dt, inc);
        if (!leaves && dt < inc * (1 - 1e-9)) violate("residence.overstay", "walker %d stays although it was given less (%g) than a full increment (%g)", w, dt, inc);
      }
      if (leaves) k.active = false;
    }
    if (!inside) { k.active = false; k.cid = inCl ? clusterOf[s] : -1; }
    if (!all.count(t)) {
      // not a site: a violation of C03; other properties cannot go on with it
      violate("hop.destination", "walker %d on site %d is sent to %d, which is not a site (draw %.17g)", w, s, t, seam::last_u);
    }
    k.real.setDwellTime(dt);
    k.real.setPotentialSite(t);
    k.when = now + dt;
    if (plan.ci("queuemode") == 0) queue.sortedAdd({w, k.when});
    else { queue.add({w, k.when}); queue.sort(); }
    trace.push_back({w, s, t, dt});
    if (!inCl) ++freeTimes;
    hashv(w * 1000003ull + s * 101ull + (uint64_t)t);
    hashd(dt);
    if (inCl) bump(inside ? CNT_hops_cluster_internal : CNT_hops_cluster_exit);
  }
  bool c12ish() const { return false; }

  void checkDwell(int w, Wk& k, int s, bool inCl, double T, double inc, double dt, uint64_t nd, double u, bool& predicted) {
    bump(CNT_oracle_evals);
    if (!inCl) {
      double sum = 0;
      for (auto& kv : rates[s]) sum += kv.second;
      if (!dirtyLone(s) && !close(T, 1 / sum, 1e-9)) violate("residence.site-constant", "site %d has time constant %g, its rates give %g", s, T, 1 / sum);
      if (exactSite && nd >= 1 && u > 0 && !close(dt, inverted(exactSite, u) * T, 1e-9))
        violate("residence.site-law", "residence time %g on site %d does not follow from the draw %.17g and the time constant %g", dt, s, u, T);
      return;
    }
    Cluster& c = cl(clusterOf[s]);
    if (!close(inc, c.getTimeConstant() / c.getResolution(), 1e-9))
      violate("residence.increment-value", "time increment %g is not time constant %g over resolution %g", inc, c.getTimeConstant(), c.getResolution());
    if (dt > inc * (1 + 1e-9)) violate("residence.increment", "walker %d gets %g at once, more than the increment %g", w, dt, inc);
    bool fresh = !k.active;
    if (exactCluster) {
      if (fresh || (k.unsure && nd >= 1)) {
        if (nd == 0) violate("residence.stale", "walker %d starts a new sojourn in the cluster of site %d without a new draw: it was not forgotten", w, s);
        double want = inverted(exactCluster, u) * T;
        if (!close(dt, min(inc, want), 1e-9)) violate("residence.cluster-law", "first residence %g of walker %d does not follow from the draw %.17g, time constant %g, increment %g", dt, w, u, T, inc);
        k.rem = want;
      } else {
        if (nd != 0) violate("residence.resampled", "walker %d in the middle of a sojourn (%g left) is given a new one", w, k.rem);
        if (!close(dt, min(inc, k.rem), 1e-9, 1e-9 * inc)) violate("residence.piece", "walker %d has %g left and increment %g but gets %g", w, k.rem, inc, dt);
      }
      k.rem -= inc;
      predicted = true;
    }
    k.active = true;
    k.unsure = false;
    k.cid = clusterOf[s];
    k.lastDt = dt;
    k.lastInc = inc;
  }
  bool dirtyLone(int) const { return false; }

  void arrive(int s) {  // model of an arrival
    if (lone(s)) loneVisits[s] = min(loneVisits[s] + 1, 2147483647l);
    else if (c05) {
      int id = clusterOf[s];
      Cluster& c = cl(id);
      double sum = 0;
      map<int, double> pt;
      for (int m : members[id]) {
        double tot = 0;
        for (auto& kv : rates[m]) tot += kv.second;
        pt[m] = c.getProbabilityOfOccupyingInternalSite(m) / tot;
        sum += pt[m];
      }
      for (int m : members[id]) {
        double in = 0;
        for (auto& kv : rates[m]) if (members[id].count(kv.first)) in += kv.second;
        clVisits[m] += c.getTimeConstant() * -expm1(-1 / c.getResolution()) * pt[m] / sum * in;
      }
    }
  }

  bool inject(const Op& o) {
    int w = o.in(0, NOID), s = o.in(1, NOID);
    if (w == NOID || !all.count(s) || drains.count(s) || walkers.count(w) || occ.count(s)) return false;
    if (everSeen.count(w)) bump(CNT_reinjected_same_id);
    everSeen.insert(w);
    Wk& k = walkers[w];
    k.real.occupySite(s);
    k.site = s;
    arrive(s);
    occupySite(s);
    occ[s] = w;
    bump(CNT_injections);
    draw(w);
    return true;
  }
  bool remove(const Op& o) {
    int w = o.in(0, NOID);
    if (!walkers.count(w)) return false;
    Wk& k = walkers[w];
    if (!k.drained) unqueue(w);
    takeOff(k.site, w);
    occ.erase(k.site);
    walkers.erase(w);
    bump(CNT_fault_removal);
    return true;
  }
  void unqueue(int w) {
    vector<pair<int, double>> rest;
    bool found = false;
    while (queue.size()) {
      auto e = queue.pop_current();
      if (e.first == w && !found) found = true;
      else rest.push_back(e);
    }
    if (c06 && !found) violate("queue.lost", "the event of walker %d is not in the queue", w);
    for (auto& e : rest) queue.sortedAdd(e);
  }
  bool hopNext() {
    if (!queue.size()) return false;
    auto e = queue.pop_current();
    auto it = walkers.find(e.first);
    if (it == walkers.end() || it->second.drained || it->second.when != e.second)
      violate("queue.phantom", "the queue hands out walker %d at %g, which has no such event", e.first, e.second);
    if (c06)
      for (auto& kv : walkers)
        if (!kv.second.drained && kv.second.when < e.second) violate("queue.order", "event at %g handed out although walker %d is due at %g", e.second, kv.first, kv.second.when);
    if (e.second > now) now = e.second;
    hop(e.first);
    return true;
  }
  bool hopWalker(const Op& o) {
    vector<int> ws;
    for (auto& kv : walkers) if (!kv.second.drained) ws.push_back(kv.first);
    if (ws.empty()) return false;
    int w = ws[(unsigned)o.in(0) % ws.size()];
    unqueue(w);
    bump(CNT_fault_out_of_order_hop);
    now = max(now, walkers[w].when);
    hop(w);
    return true;
  }
  bool stall(const Op& o) {
    if (!queue.size()) return false;
    auto e = queue.pop_current();
    auto it = walkers.find(e.first);
    if (it == walkers.end()) violate("queue.phantom", "the queue hands out an unknown walker %d", e.first);
    double base = max(e.second, now);
    it->second.when = base + fabs(o.at(0, 1)) * (base > 0 ? base : 1);
    queue.sortedAdd({e.first, it->second.when});
    bump(CNT_fault_stall);
    return true;
  }
  void hop(int w) {
    Wk& k = walkers[w];
    int s = k.real.getIdOfSiteCurrentlyOccupying(), t = k.real.getPotentialSite();
    bool blocked = siteTaken(t);
    if (c01 && blocked != (occ.count(t) != 0))
      violate("occupancy.site", "site %d %s but reports %s", t, occ.count(t) ? "holds a walker" : "is free", blocked ? "occupied" : "free");
    if (!blocked && occ.count(t)) violate("occupancy.site", "site %d holds walker %d but lets walker %d in", t, occ[t], w);
    if (!blocked) {
      arrive(t);
      vacateSite(s);
      occupySite(t);
      k.real.occupySite(t);
      occ.erase(s);
      occ[t] = w;
      k.site = t;
    } else {
      arrive(s);
      vacateSite(s);
      occupySite(s);
      bump(CNT_hops_blocked);
      if (!lone(s) && (lone(t) || clusterOf[t] != clusterOf[s])) bump(CNT_occupied_exit_blocked);
    }
    bump(CNT_hops);
    draw(w);
  }

  // ------------------------------------------------------------ visit counts
  int reportedVisits(int s) {
    long long v = sites.getSite(s).getVisitFrequency();
    if (!lone(s)) v += cl(clusterOf[s]).getVisitFrequency(s);
    return (int)min(v, 2147483647ll);
  }
  void checkVisits(int s) {
    int v = reportedVisits(s);
    bump(CNT_oracle_evals);
    if (c05) {
      double want = loneVisits[s] + clVisits[s];
      want = min(want, 2147483647.0);  // the range of the reported integer
      double tol = lone(s) ? 0 : 1.01 + 0.51 * visitSlack[s] + 1e-6 * want;
      if (fabs(v - want) > tol) violate(lone(s) ? "visits.lone" : "visits.cluster", "site %d (%s) reports %d visits, %.2f expected (tolerance %.2f)", s, lone(s) ? "lone" : "in a cluster", v, want, tol);
      if (lastReported.count(s) && v < lastReported[s]) violate("visits.decrease", "visit count of site %d went from %d to %d", s, lastReported[s], v);
      lastReported[s] = v;
    }
    hashv(v);
  }
  bool poll(const Op& o) {
    int s = o.in(0, NOID);
    if (all.count(s)) checkVisits(s);
    else for (int x : all) checkVisits(x);
    bump(CNT_fault_poll);
    return true;
  }

  // the user continues earlier counts (for instance those of a restart file)
  bool setVisits(const Op& o) {
    int s = o.in(0, NOID);
    if (!c05 || !all.count(s)) return false;
    checkVisits(s);
    double want = min(2147483647.0, max(0.0, floor(o.at(1))));
    if (lone(s)) {
      if (want < loneVisits[s]) return false;
      sites.getSite(s).setVisitFrequency((int)want);
      loneVisits[s] = (long)want;
    } else {
      if (want < clVisits[s] + 1) return false;
      cl(clusterOf[s]).setVisitFrequency((int)want, s);
      clVisits[s] = want;
    }
    checkVisits(s);
    return true;
  }

  // ------------------------------------------------------------ invariants
  void invariants() {
    if (c01) {
      for (int s : all) {
        bool want = occ.count(s);
        if (feat[s]->isOccupied(s) != want) violate("occupancy.site", "site %d (%s) %s but reports %s", s, lone(s) ? "lone" : "in a cluster", want ? "holds a walker" : "is free", want ? "free" : "occupied");
        if (lone(s) && (sites.isOccupied(s) != want || sites.getSite(s).isOccupied() != want))
          violate("occupancy.site", "lone site %d %s but the registry reports %s", s, want ? "holds a walker" : "is free", want ? "free" : "occupied");
      }
      for (auto& kv : members) {
        bool want = false;
        for (int s : kv.second) want = want || occ.count(s);
        if (cl(kv.first).isOccupied() != want || clusters.isOccupied(kv.first) != want)
          violate("occupancy.cluster", "cluster of site %d %s but reports %s", *kv.second.begin(), want ? "holds a walker" : "is empty", want ? "unoccupied" : "occupied");
        for (auto& st : cl(kv.first).getSitesInCluster())
          if (st.isOccupied() != (occ.count(st.getId()) != 0))
            violate("occupancy.member", "member %d as handed out by its cluster reports the wrong occupancy", st.getId());
      }
      bump(CNT_oracle_evals, all.size());
    }
    if (c07) {
      set<int> ids;
      for (int i : clusters.getClusterIds()) ids.insert(i);
      if (ids.size() != members.size() || clusters.size() != members.size())
        violate("membership.clusters", "%zu clusters exist, %zu expected", clusters.size(), members.size());
      auto listed = clusters.getSiteIdsOfClusters();
      map<int, int> seen;
      for (auto& kv : members) {
        int id = kv.first;
        if (!ids.count(id) || !clusters.exist(id)) violate("membership.clusters", "cluster with site %d is not in the registry", *kv.second.begin());
        Cluster& c = cl(id);
        if (c.getId() != id) violate("membership.id", "cluster %d says its id is %d", id, c.getId());
        auto v = c.getSiteIdsInCluster();
        set<int> got(v.begin(), v.end());
        auto& lv = listed[id];
        set<int> got2(lv.begin(), lv.end());
        if (got != kv.second || v.size() != kv.second.size() || (size_t)c.getNumberOfSitesInCluster() != kv.second.size())
          violate("membership.members", "cluster of site %d reports %zu members, %zu expected (or different ones)", *kv.second.begin(), v.size(), kv.second.size());
        if (got2 != kv.second || lv.size() != kv.second.size()) violate("membership.members", "the list of clusters disagrees about the members of the cluster of site %d", *kv.second.begin());
        for (int s : all) if (c.siteIsInCluster(s) != (kv.second.count(s) != 0)) violate("membership.test", "membership test of site %d in the cluster of %d is wrong", s, *kv.second.begin());
        for (auto& st : c.getSitesInCluster()) {
          if (st.getClusterId() != id || !st.partOfCluster()) violate("membership.site-id", "member %d carries cluster id %d instead of %d", st.getId(), st.getClusterId(), id);
          if (++seen[st.getId()] > 1) violate("membership.twice", "site %d is in two clusters", st.getId());
        }
        auto nv = c.getSiteIdsNeighboringCluster();
        set<int> ns(nv.begin(), nv.end());
        if (ns.size() != nv.size() || ns != outsideOf(kv.second)) violate("membership.neighbours", "cluster of site %d reports %zu outside neighbours, %zu expected (or different ones)", *kv.second.begin(), nv.size(), outsideOf(kv.second).size());
        auto nv2 = clusters.getSiteIdsOfNeighbors(id);
        if (set<int>(nv2.begin(), nv2.end()) != ns) violate("membership.neighbours", "registry and cluster disagree about outside neighbours");
      }
      for (int s : all) {
        int id = sites.getClusterIdOfSite(s);
        if (sites.partOfCluster(s) != !lone(s) || (!lone(s) && id != clusterOf[s]) || (lone(s) && id != constants::unassignedId))
          violate("membership.site-view", "site %d says cluster %d, expected %d", s, id, lone(s) ? -1 : clusterOf[s]);
      }
      bump(CNT_oracle_evals, all.size());
    }
    if (c06) {
      size_t pend = 0;
      for (auto& kv : walkers) if (!kv.second.drained) ++pend;
      if (queue.size() != pend) violate("queue.size", "%zu events in the queue, %zu walkers waiting", queue.size(), pend);
      multiset<pair<int, double>> want, got;
      for (auto& kv : walkers) if (!kv.second.drained) want.insert({kv.first, kv.second.when});
      for (size_t i = 0; i < queue.size(); ++i) {
        got.insert(queue.at(i));
        if (i && queue.at(i).second < queue.at(i - 1).second) violate("queue.order", "queue is out of order at %zu", i);
      }
      if (want != got) violate("queue.contents", "the events in the queue are not those of the waiting walkers");
      bump(CNT_oracle_evals, pend);
    }
    // state measure: partition into clusters with occupancy
    uint64_t h = 1469598103934665603ull;
    for (auto& kv : members) {
      uint64_t x = 0;
      for (int s : kv.second) x = x * 31 + (uint64_t)s * 2 + occ.count(s);
      h ^= x * 0x9E3779B97F4A7C15ull;
    }
    for (auto& kv : occ) h ^= ((uint64_t)kv.first + 1) * 0xC2B2AE3D27D4EB4Full;
    state(h);
  }

  // ------------------------------------------------------------ probes
  // Frequencies with which a copy of a cluster picks its members / exits.
  // Controlled draws (a grid over the unit interval) where one pick takes one
  // draw, otherwise samples.
  struct Mass {
    bool grid = true;
    double n = 0;
    map<int, double> cnt;
  };
  // a draw with which a sojourn is very short or very long
  double sojournDraw(bool shortOne) const { return shortOne == (exactCluster != 2) ? 1 - 1e-12 : exactCluster != 2 ? 0x1p-64 : 1e-12; }
  Mass clusterMass(const Cluster& orig, bool exit, int M, uint64_t seed) {
    Cluster c = orig;
    c.setRandomSeed(seed);
    Mass m;
    // first try the grid
    for (int pass = 0; pass < 2; ++pass) {
      m = Mass();
      m.grid = pass == 0;
      bool ok = true;
      double res = c.getResolution();
      (void)res;
      int w = PROBE;
      long guard = 0;
      for (int i = 0; i < M && ok;) {
        if (++guard > 200L * M + 1000000) { if (m.n < 50) violate("hop.no-" + string(exit ? "exit" : "stay"), "in %ld attempts only %.0f walkers %s the cluster", guard, m.n, exit ? "left" : "stayed in"); break; }
        if (pass == 0) seam::force(sojournDraw(exit));
        uint64_t d0 = seam::draws;
        c.getDwellTime(w);
        bool usedForce = seam::draws > d0;
        seam::unforce();
        (void)usedForce;
        if (pass == 0) seam::force((i + 0.5) / M);
        uint64_t d1 = seam::draws;
        int t = c.pickNewSiteId(w);
        uint64_t nd = seam::draws - d1;
        seam::unforce();
        bool inside = c.siteIsInCluster(t);
        if (pass == 0 && (nd != 1 || inside == exit)) { ok = false; break; }
        if (!inside) ++w;  // sojourn over; next walker
        else if (pass == 0 && exit) ++w;
        if (inside != exit) { m.cnt[t] += 1; m.n += 1; ++i; }
      }
      bump(CNT_sampled_draws, (uint64_t)m.n);
      if (ok) return m;
      c = orig;
      c.setRandomSeed(seed + 1);
    }
    return m;
  }
  void compareMass(const Mass& m, const map<int, double>& pr, const string& kind, const char* what) {
    bump(CNT_oracle_evals);
    for (auto& kv : m.cnt)
      if (!pr.count(kv.first)) violate(kind, "%s: %d is chosen although it is not a candidate", what, kv.first);
    if (m.grid) {
      for (auto& kv : pr) {
        double got = m.cnt.count(kv.first) ? m.cnt.at(kv.first) : 0;
        if (fabs(got - kv.second * m.n) > 2.5 + 1e-6 * m.n)
          violate(kind, "%s: %d is chosen for %.5f of the random numbers, should be %.5f", what, kv.first, got / m.n, kv.second);
      }
    } else {
      vector<double> c, p;
      for (auto& kv : pr) { p.push_back(kv.second); c.push_back(m.cnt.count(kv.first) ? m.cnt.at(kv.first) : 0); }
      double st, lim;
      if (!chi2_ok(c, p, &st, &lim)) violate(kind, "%s: frequencies differ from the expected ones (chi2 %.1f > %.1f, %g draws)", what, st, lim, m.n);
    }
  }
  map<int, double> expectInternal(Cluster& c, const set<int>& m) {
    map<int, double> x;
    double sum = 0;
    for (int s : m) {
      double tot = 0;
      for (auto& kv : rates[s]) tot += kv.second;
      x[s] = c.getProbabilityOfOccupyingInternalSite(s) / tot;
      sum += x[s];
    }
    for (auto& kv : x) kv.second /= sum;
    return x;
  }
  map<int, double> expectExit(Cluster& c, const set<int>& m) {
    map<int, double> x;
    for (int s : outsideOf(m)) x[s] = c.getProbabilityOfHoppingToNeighborOfCluster(s);
    return x;
  }
  bool clusterArg(const Op& o, int& id) {
    int a = o.in(0, NOID);
    if (!all.count(a) || lone(a)) return false;
    id = clusterOf[a];
    return true;
  }
  bool probePick(const Op& o) {
    int id;
    if (!clusterArg(o, id) || dirtyClusters.count(id)) return false;
    Cluster& c = cl(id);
    int M = max(64, o.in(1, 512));
    compareMass(clusterMass(c, false, M, o.in(2, 1)), expectInternal(c, members[id]), "hop.internal-frequency", "staying in the cluster");
    compareMass(clusterMass(c, true, M, o.in(2, 1) + 7), expectExit(c, members[id]), "hop.exit-frequency", "leaving the cluster");
    // the ends of the unit interval
    for (double u : {0.0, 0x1p-64, 0x1p-53, 1 - 1e-9, 0x1.fffffffffffffp-1})
      for (int exit = 0; exit < 2; ++exit) {
        Cluster k = c;
        k.setRandomSeed(5);
        seam::force(sojournDraw(exit));
        k.getDwellTime(PROBE);
        seam::force(u);
        int t = k.pickNewSiteId(PROBE);
        seam::unforce();
        bump(CNT_extreme_draw_pick);
        bool inside = members[id].count(t), out = outsideOf(members[id]).count(t);
        if (!inside && !out) violate("hop.destination", "with the draw %.17g a walker in the cluster of site %d is sent to %d", u, *members[id].begin(), t);
        bool may = exit || inverted(exactCluster, sojournDraw(0)) * k.getResolution() > 1.01;
        if (exactCluster && may && inside == (exit == 1)) violate("hop.stay-or-leave", "with the draw %.17g a walker that should %s the cluster is sent to %d", u, exit ? "leave" : "stay in", t);
      }
    bump(CNT_probe_pick);
    return true;
  }
  bool probeSite(const Op& o) {
    int s = o.in(0, NOID);
    if (!all.count(s) || !lone(s) || drains.count(s)) return false;
    Site st = sites.getSite(s);
    st.setRandomSeed(o.in(2, 1));
    int M = max(64, o.in(1, 512));
    double sum = 0;
    for (auto& kv : rates[s]) sum += kv.second;
    if (c03 || c10) {
      map<int, double> pr;
      for (auto& kv : rates[s]) pr[kv.first] = kv.second / sum;
      string kind = c10 ? "rates.site-frequency" : "hop.site-frequency";
      Mass m;
      for (int pass = 0; pass < 2; ++pass) {
        m = Mass();
        m.grid = pass == 0;
        bool ok = true;
        for (int i = 0; i < M; ++i) {
          if (pass == 0) seam::force((i + 0.5) / M);
          uint64_t d0 = seam::draws;
          int t = i % 2 ? st.pickNewSiteId() : st.pickNewSiteId(i);
          uint64_t nd = seam::draws - d0;
          seam::unforce();
          if (pass == 0 && nd != 1) { ok = false; break; }
          m.cnt[t] += 1;
          m.n += 1;
        }
        if (ok) break;
      }
      compareMass(m, pr, kind, strf("hops from site %d", s).c_str());
      for (auto& kv : pr) {
        double got = st.getProbabilityOfHoppingToNeighboringSite(kv.first);
        if (!close(got, kv.second, 1e-9)) violate(kind, "site %d reports probability %g towards %d, rates give %g", s, got, kv.first, kv.second);
      }
      for (auto& kv : st.getProbabilitiesAndIdsOfNeighbors())
        if (!pr.count(kv.first) || !close(kv.second, pr[kv.first], 1e-9)) violate(kind, "site %d lists probability %g towards %d", s, kv.second, kv.first);
      if (c03)
        for (double u : {0.0, 0x1p-64, 0x1p-53, 1 - 1e-9, 0x1.fffffffffffffp-1}) {
          seam::force(u);
          int t = st.pickNewSiteId(1);
          seam::unforce();
          bump(CNT_extreme_draw_pick);
          if (!rates[s].count(t)) violate("hop.destination", "with the draw %.17g a walker on site %d is sent to %d", u, s, t);
        }
    }
    if (c02 || c10) {
      if (!close(st.getTimeConstant(), 1 / sum, 1e-9) || !close(sites.getTimeConstant(s), 1 / sum, 1e-9))
        violate(c10 ? "rates.site-constant" : "residence.site-constant", "site %d has time constant %g, its rates give %g", s, st.getTimeConstant(), 1 / sum);
      vector<double> x;
      int N = exactSite ? M : 20000;
      for (int i = 0; i < N; ++i) {
        x.push_back(st.getDwellTime(i));
        if (!(x.back() > 0) || !isfinite(x.back())) violate("residence.positive", "site %d gives the residence time %g", s, x.back());
      }
      bump(CNT_sampled_draws, N);
      double ks;
      if (!ks_exp_ok(x, 1 / sum, &ks)) violate(c10 ? "rates.site-law" : "residence.site-law", "residence times on site %d are not exponential with mean %g (KS %.2f over %d)", s, 1 / sum, ks, N);
      if (c02)
        for (double u : {0.0, 0x1p-64, 0x1p-60, 0x1p-53, 0.5, 1 - 1e-12, 0x1.fffffffffffffp-1}) {
          seam::force(u);
          double dt = st.getDwellTime(1);
          seam::unforce();
          bump(CNT_extreme_draw_dwell);
          if (!(dt > 0) || !isfinite(dt)) violate("residence.positive", "with the draw %.17g site %d gives the residence time %g", u, s, dt);
        }
    }
    bump(CNT_probe_site);
    return true;
  }
  bool probeSojourn(const Op& o) {
    int id;
    if (!clusterArg(o, id)) return false;
    int N = max(50, o.in(1, 300));
    if (!exactCluster) N = 4000;
    Cluster c = cl(id);
    c.setRandomSeed(o.in(2, 1));
    double T = c.getTimeConstant(), inc = c.getTimeIncrement();
    if (!(T > 0) || !isfinite(T)) violate("residence.cluster-constant", "time constant %g", T);
    if (!close(inc, T / c.getResolution(), 1e-9)) violate("residence.increment-value", "time increment %g is not time constant %g over resolution %g", inc, T, c.getResolution());
    vector<double> tot;
    // several walkers at once, round robin in a seeded order
    Rng r(o.in(2, 1) + 99);
    struct L { double used = 0; };
    map<int, L> live;
    int next = PROBE, K = 1 + r.below(4);
    long steps = 0;
    long budget = (long)(N * (c.getResolution() + 2) * 8) + 100000;
    while ((int)tot.size() < N) {
      while ((int)live.size() < K) live[next++] = L();
      auto it = live.begin();
      advance(it, r.below(live.size()));
      if (++steps > budget) violate("residence.no-progress", "%ld steps gave only %zu finished sojourns", steps, tot.size());
      double dt = c.getDwellTime(it->first);
      if (!(dt > 0) || dt > inc * (1 + 1e-9)) violate("residence.increment", "residence %g, increment %g", dt, inc);
      int t = c.pickNewSiteId(it->first);
      it->second.used += dt;
      bool inside = c.siteIsInCluster(t);
      if (inside && dt < inc * (1 - 1e-9)) violate("residence.overstay", "stays after a piece of %g, less than the increment %g", dt, inc);
      if (!inside) { tot.push_back(it->second.used); live.erase(it); }
    }
    bump(CNT_sampled_draws, N);
    double ks;
    if (!ks_exp_ok(tot, T, &ks)) violate("residence.cluster-law", "sojourns are not exponential with the time constant %g (KS %.2f over %d)", T, ks, N);
    for (double u : {0.0, 0x1p-64, 0x1p-53, 0.5, 1 - 1e-12, 0x1.fffffffffffffp-1}) {
      Cluster k = cl(id);
      k.setRandomSeed(3);
      seam::force(u);
      double dt = k.getDwellTime(PROBE);
      seam::unforce();
      bump(CNT_extreme_draw_dwell);
      if (!(dt > 0) || !isfinite(dt) || dt > inc * (1 + 1e-9)) violate("residence.positive", "with the draw %.17g the cluster gives the residence time %g (increment %g)", u, dt, inc);
    }
    // a walker that has been removed starts afresh
    {
      Cluster k = cl(id);
      k.setRandomSeed(o.in(2, 1) + 3);
      int member = *members[id].begin();
      seam::force(exactCluster == 2 ? 1 - 0x1p-53 : 0x1p-64);  // about 37 or 44 time constants
      uint64_t d0 = seam::draws;
      k.getDwellTime(PROBE);
      bool used = seam::draws > d0;
      seam::unforce();
      k.pickNewSiteId(PROBE);
      k.occupy(member);
      k.removeWalker(PROBE, member);
      double sum = 0;
      bool out = false;
      for (long i = 0; i < 33 * (long)(k.getResolution() + 1) && !out; ++i) {
        sum += k.getDwellTime(PROBE);
        out = !k.siteIsInCluster(k.pickNewSiteId(PROBE));
      }
      if (used && exactCluster && !out) violate("residence.stale", "a walker removed during a very long sojourn comes back and is still in it after %g time constants", sum / T);
    }
    bump(CNT_probe_sojourn);
    return true;
  }
  bool sameCluster(Cluster& c, Cluster& f, const set<int>& m, string& kind, string& msg, double rel) {
    const double ab = 1e-15;
    auto no = [&](const char* k, const string& t) { kind = k; msg = t; return false; };
    for (int s : m) {
      double a = c.getProbabilityOfOccupyingInternalSite(s), b = f.getProbabilityOfOccupyingInternalSite(s);
      if (!close(a, b, rel, ab)) return no("probability", strf("probability on member %d is %.12g, a new cluster of the same sites gives %.12g", s, a, b));
    }
    auto na = c.getSiteIdsNeighboringCluster(), nb = f.getSiteIdsNeighboringCluster();
    if (multiset<int>(na.begin(), na.end()) != multiset<int>(nb.begin(), nb.end())) return no("neighbours", strf("outside neighbours differ from those of a new cluster of the same sites (%zu / %zu)", na.size(), nb.size()));
    for (int s : nb) {
      double a = c.getProbabilityOfHoppingToNeighborOfCluster(s), b = f.getProbabilityOfHoppingToNeighborOfCluster(s);
      if (!close(a, b, rel, ab)) return no("exit-probability", strf("probability to leave to %d is %.12g, a new cluster of the same sites gives %.12g", s, a, b));
    }
    if (!close(c.getTimeConstant(), f.getTimeConstant(), rel)) return no("time-constant", strf("time constant %.12g, a new cluster of the same sites has %.12g", c.getTimeConstant(), f.getTimeConstant()));
    if (!close(c.getTimeIncrement(), f.getTimeIncrement(), rel)) return no("increment", strf("time increment %.12g, a new cluster of the same sites has %.12g", c.getTimeIncrement(), f.getTimeIncrement()));
    if (c.getResolution() != f.getResolution()) return no("resolution", strf("resolution %g, a new cluster has %g", c.getResolution(), f.getResolution()));
    if (!close(c.getFastestRateOffCluster(), f.getFastestRateOffCluster(), 1e-12)) return no("fastest-rate", strf("fastest rate out %g, a new cluster has %g", c.getFastestRateOffCluster(), f.getFastestRateOffCluster()));
    return true;
  }
  // compare with a newly built cluster of the same sites
  bool probeFresh(const Op& o) {
    int id;
    if (!clusterArg(o, id) || dirtyClusters.count(id)) return false;
    string pre = c10 ? "rates.cluster-" : "history.";
    Cluster& c = cl(id);
    const set<int>& m = members[id];
    double rel = 1e-8, inner = 1;
    for (int s : m) {
      double in = 0, tot = 0;
      for (auto& kv : rates[s]) { tot += kv.second; if (m.count(kv.first)) in += kv.second; }
      inner = min(inner, in / tot);
    }
    rel = max(rel, 1e-12 / inner);  // rounding counts for more where walkers hardly ever stay
    if (settings[id].method == 2 && settings[id].tol < 1e-9) {
      // where rounding alone ends the iteration the last digits differ
      rel = max(rel, 1e-5);
      for (int s : m) if (c.getProbabilityOfOccupyingInternalSite(s) < 1e-5) return false;
    }
    vector<int> order(m.begin(), m.end());
    Rng r(o.in(1, 1));
    for (size_t i = order.size(); i > 1; --i) swap(order[i - 1], order[r.below(i)]);
    Rates own;
    for (int s : m) own[s] = rates[s];
    // A cluster that converges to a tolerance may stop one step earlier or
    // later when the last step lies on the tolerance up to rounding: also
    // compare with clusters whose tolerance differs in the tenth digit.
    string kind, msg;
    Cluster f;
    bool fits = false;
    int tries = settings[id].method == 2 ? 3 : 1;
    for (int t = 0; t < tries && !fits; ++t) {
      ClSet st = settings[id];
      if (t) st.tol *= t == 1 ? 1 + 1e-10 : 1 - 1e-10;
      Cluster g;
      maxClusterId = max(maxClusterId, g.getId());
      apply(g, st);
      vector<Site> v;
      for (int s : order) {
        Site x;
        x.setId(s);
        x.setRatesToNeighbors(own[s]);
        v.push_back(x);
      }
      g.addSites(v);
      g.updateProbabilitiesAndTimeConstant();
      g.setResolution(st.res);
      string k, m2;
      fits = sameCluster(c, g, m, k, m2, rel);
      if (t == 0) { kind = k; msg = m2; f = g; }
      else if (fits) f = g;
    }
    bump(CNT_oracle_evals);
    if (!fits) violate(pre + kind, "%s", msg.c_str());
    if (c.getConvergenceIterations() != settings[id].iters || c.getConvergenceTolerance() != settings[id].tol) violate(pre + "settings", "convergence settings changed");
    // behaviour: choices and sojourns
    int M = 256;
    for (int exit = 0; exit < 2; ++exit) {
      Mass a = clusterMass(c, exit, M, 11), b = clusterMass(f, exit, M, 11);
      set<int> keys;
      for (auto& kv : a.cnt) keys.insert(kv.first);
      for (auto& kv : b.cnt) keys.insert(kv.first);
      if (a.grid && b.grid)
        for (int k : keys) {
          double x = a.cnt.count(k) ? a.cnt[k] : 0, y = b.cnt.count(k) ? b.cnt[k] : 0;
          if (fabs(x - y) > 3.5) violate(pre + (exit ? "exit-choice" : "stay-choice"), "%d is chosen in %.0f of %d cases, by a new cluster of the same sites in %.0f", k, x, M, y);
        }
      map<int, double> want = exit ? expectExit(c, m) : expectInternal(c, m);
      compareMass(a, want, pre + (exit ? "exit-choice" : "stay-choice"), exit ? "leaving the cluster" : "staying in the cluster");
    }
    bump(CNT_probe_fresh);
    return true;
  }
  // compare with the exact solution of the rate equations
  bool probeFidelity(const Op& o) {
    int id;
    if (!clusterArg(o, id) || dirtyClusters.count(id)) return false;
    Cluster& c = cl(id);
    const set<int>& m = members[id];
    vector<int> ids(m.begin(), m.end());
    double sp = 0, se = 0;
    for (int s : ids) {
      double p = c.getProbabilityOfOccupyingInternalSite(s);
      if (!(p >= 0) || p > 1 + 1e-9) violate("kinetics.normalised", "probability on member %d is %g", s, p);
      sp += p;
    }
    if (!close(sp, 1, 1e-9)) violate("kinetics.normalised", "probabilities on the members add up to %.12g", sp);
    for (int s : outsideOf(m)) {
      double p = c.getProbabilityOfHoppingToNeighborOfCluster(s);
      if (!(p >= 0) || p > 1 + 1e-9) violate("kinetics.normalised", "probability to leave to %d is %g", s, p);
      se += p;
    }
    if (!close(se, 1, 1e-9)) violate("kinetics.normalised", "exit probabilities add up to %.12g", se);
    double T = c.getTimeConstant();
    if (!(T > 0) || !isfinite(T)) violate("kinetics.escape-time", "time constant is %g", T);
    bump(CNT_oracle_evals);
    // local equilibrium?
    double slowIn = 1e300, fastIn = 0;
    for (int s : ids)
      for (auto& kv : rates[s])
        if (m.count(kv.first)) { slowIn = min(slowIn, kv.second); fastIn = max(fastIn, kv.second); }
    double R = outsideRate(m);
    if (R > 2e-5 * slowIn || fastIn > 200 * slowIn || ids.size() > 10) return true;
    vector<double> pi = innerStationary(ids, rates);
    if (pi.empty()) return true;
    // how far from the solution may the search for it have ended?
    bool byTol = settings[id].method == 2;
    double off = searchError(ids, rates, pi, byTol ? settings[id].tol : -1, settings[id].iters * (settings[id].method == 1 ? (double)ids.size() : 1.0));
    double tol = 0.01 + 3 * off;
    if (!(tol < 0.25)) return true;
    bump(CNT_probe_fidelity);
    double esc = 0;
    map<int, double> ex;
    for (size_t i = 0; i < ids.size(); ++i)
      for (auto& kv : rates[ids[i]])
        if (!m.count(kv.first)) { esc += pi[i] * kv.second; ex[kv.first] += pi[i] * kv.second; }
    for (auto& kv : ex) kv.second /= esc;
    if (!close(T, 1 / esc, tol)) violate("kinetics.escape-time", "mean time in the cluster of site %d is %g, site-by-site dynamics give %g", ids[0], T, 1 / esc);
    auto in = expectInternal(c, m);
    for (size_t i = 0; i < ids.size(); ++i)
      if (fabs(in[ids[i]] - pi[i]) > tol * pi[i] + 1e-4 + tol * 0.1) violate("kinetics.occupation", "share of time on member %d is %.5f, site-by-site dynamics give %.5f", ids[i], in[ids[i]], pi[i]);
    for (auto& kv : ex) {
      double got = c.getProbabilityOfHoppingToNeighborOfCluster(kv.first);
      if (fabs(got - kv.second) > tol * kv.second + 1e-4 + tol * 0.1) violate("kinetics.exit", "probability to leave to %d is %.5f, site-by-site dynamics give %.5f", kv.first, got, kv.second);
    }
    // behaviour of the sampled trajectories
    int M = max(200, o.in(1, 600));
    Cluster k = c;
    k.setRandomSeed(o.in(2, 1));
    map<int, double> timeOn, exits;
    double total = 0, total2 = 0;
    long steps = 0;
    int cur = ids[0];
    bool first = true;
    (void)first;
    for (int n = 0; n < M;) {
      if (++steps > 400000) break;
      double dt = k.getDwellTime(PROBE + n);
      int t = k.pickNewSiteId(PROBE + n);
      total += dt;
      if (m.count(t)) { timeOn[t] += 1; cur = t; }
      else { exits[t] += 1; ++n; }
    }
    (void)cur; (void)total2;
    double nEx = 0;
    for (auto& kv : exits) nEx += kv.second;
    if (nEx >= 100) {
      double mean = total / nEx, want = 1 / esc;
      if (fabs(mean - want) > want * (7 / sqrt(nEx) + tol)) violate("kinetics.escape-time", "sampled mean time in the cluster is %g over %.0f visits, site-by-site dynamics give %g", mean, nEx, want);
      for (auto& kv : exits) if (!ex.count(kv.first)) violate("kinetics.exit", "a walker leaves to %d, not an outside neighbour", kv.first);
      for (auto& kv : ex) {
        double got = (exits.count(kv.first) ? exits[kv.first] : 0) / nEx;
        if (fabs(got - kv.second) > tol * kv.second + tol * 0.1 + 7 * sqrt(kv.second / nEx) + 12 / nEx) violate("kinetics.exit", "share of exits to %d is %.4f over %.0f, site-by-site dynamics give %.4f", kv.first, got, nEx, kv.second);
      }
    }
    double nIn = 0;
    for (auto& kv : timeOn) nIn += kv.second;
    if (nIn >= 200)
      for (size_t i = 0; i < ids.size(); ++i) {
        double got = timeOn[ids[i]] / nIn;
        if (fabs(got - pi[i]) > tol * pi[i] + tol * 0.1 + 7 * sqrt(pi[i] / nIn) + 12 / nIn) violate("kinetics.occupation", "share of stays on %d is %.4f over %.0f, site-by-site dynamics give %.4f", ids[i], got, nIn, pi[i]);
      }
    return true;
  }

  // each part draws from its own seed: the same seed gives the same numbers,
  // another seed others
  bool probeSeed(const Op& o) {
    int s = o.in(0, NOID);
    if (!all.count(s) || drains.count(s)) return false;
    unsigned long x = (unsigned long)o.at(1), y = (unsigned long)otherSeed((double)x, (uint64_t)o.in(2));
    typedef pair<vector<double>, vector<int>> Seq;
    double top = 0;
    if (lone(s)) for (auto& kv : sites.getSite(s).getProbabilitiesAndIdsOfNeighbors()) top = max(top, kv.second);
    else for (auto& kv : expectInternal(cl(clusterOf[s]), members[clusterOf[s]])) top = max(top, kv.second);
    auto seq = [&](unsigned long seed, bool company) {
      Seq q;
      Site a, b;
      Cluster c, d;
      TopologyFeature *f, *g;
      if (lone(s)) { a = b = sites.getSite(s); f = &a; g = &b; }
      else { c = d = cl(clusterOf[s]); f = &c; g = &d; }
      f->setRandomSeed(seed);
      g->setRandomSeed(seed ^ 12345);
      for (int i = 0; i < 200; ++i) {
        q.first.push_back(f->getDwellTime(PROBE + i));
        int t = f->pickNewSiteId(PROBE + i);
        if (lone(s) || members[clusterOf[s]].count(t)) q.second.push_back(t);
        if (company) { g->getDwellTime(PROBE + i); g->pickNewSiteId(PROBE + i); }
      }
      return q;
    };
    Seq q1 = seq(x, false), q2 = seq(x, true), q3 = seq(y, false);
    bump(CNT_oracle_evals);
    for (size_t i = 0; i < q1.first.size(); ++i)
      if (!close(q1.first[i], q2.first[i], 1e-9)) violate("reproducible.part", "with the same seed %lu the %zu-th residence time on %s %d is %.12g and then %.12g", x, i, lone(s) ? "site" : "the cluster of", s, q1.first[i], q2.first[i]);
    if (q1.second != q2.second) violate("reproducible.part", "with the same seed %lu the choices on %s %d differ", x, lone(s) ? "site" : "the cluster of", s);
    set<double> u(q1.first.begin(), q1.first.end());
    if (q1.first == q3.first && u.size() > 1) violate("reproducible.seed-ignored", "seeds %lu and %lu give the same residence times on %s %d", x, y, lone(s) ? "site" : "the cluster of", s);
    if (q1.second == q3.second && q1.second.size() >= 100 && top < 0.8) violate("reproducible.seed-ignored", "seeds %lu and %lu give the same choices on %s %d", x, y, lone(s) ? "site" : "the cluster of", s);
    return true;
  }

  // ------------------------------------------------------------ the loop
  void step(const Op& o) {
    bool did = true;
    const string& n = o.name;
    if (n == "edge") return;
    else if (n == "hop") did = hopNext();
    else if (n == "hops") { int k = max(1, min(200000, o.in(0, 1))); for (int i = 0; i < k && did; ++i) { did = hopNext(); if (i % 97 == 0) invariants(); } did = true; }
    else if (n == "hopw") did = hopWalker(o);
    else if (n == "setv") did = setVisits(o);
    else if (n == "inj") did = inject(o);
    else if (n == "rem") did = remove(o);
    else if (n == "stall") did = stall(o);
    else if (n == "form") did = form(o);
    else if (n == "abs") did = absorb(o);
    else if (n == "mrg") did = merge(o);
    else if (n == "upd") did = update(o);
    else if (n == "oomupd") did = oomUpdate(o);
    else if (n == "res") did = resolution(o);
    else if (n == "rate") did = changeRate(o);
    else if (n == "swap") did = swapRates(o);
    else if (n == "poll") did = poll(o);
    else if (n == "fdwell") fDwell = min(0x1.fffffffffffffp-1, max(0.0, o.at(0)));
    else if (n == "fpick") fPick = min(0x1.fffffffffffffp-1, max(0.0, o.at(0)));
    else if (n == "ppick") did = probePick(o);
    else if (n == "psite") did = probeSite(o);
    else if (n == "psoj") did = probeSojourn(o);
    else if (n == "pfresh") did = probeFresh(o);
    else if (n == "pfid") did = probeFidelity(o);
    else if (n == "pseed") did = probeSeed(o);
    else did = false;
    if (!did) { bump(CNT_skipped_ops); return; }
    bump(CNT_steps);
  }
  void run() {
    build();
    int i = 0;
    for (auto& o : plan.ops) {
      R->op_index = i++;
      if (o.name == "edge") continue;
      if (env.clockJumpSeed && jumps.chance(0.3)) {
        seam::clock_jump((long long)((jumps.uni() - 0.5) * 1e18));
        bump(CNT_fault_clock_jump);
      }
      if (env.clockJumpSeed && jumps.chance(0.1)) seam::clock_set((long long)(jumps.uni() * 2e18), jumps.chance(0.5) ? 0 : jumps.below(1000000));
      if (companySys && jumps.chance(0.7)) {
        companySys->step(o);
        bump(CNT_fault_foreign_system);
      }
      step(o);
      if (env.extraPolls) {
        for (int s : all) if (polls.chance(0.7)) { checkVisitsQuiet(s); }
      }
      invariants();
    }
    if (c05) { Op p{"poll", {}}; poll(p); }
    R->sim_time += isfinite(now) ? now : 0;
  }
  void checkVisitsQuiet(int s) {
    uint64_t h = R->hash;
    checkVisits(s);
    R->hash = h;
    bump(CNT_fault_poll);
  }
};

void run_kmc(const Plan& p) {
  Env e;
  KSys a(p, e);
  a.run();
  if (p.prop == "C05") {
    // the same history with counts read all the time
    uint64_t h = R->hash;
    Env e2;
    e2.extraPolls = true;
    KSys b(p, e2);
    b.run();
    R->hash = h;
    for (int s : a.all) {
      int x = a.lastReported[s], y = b.lastReported[s];
      if (fabs((double)x - y) > 2 + 1e-6 * x) violate("visits.observer", "site %d ends with %d visits when read at the end, with %d when read all along", s, x, y);
    }
  }
  if (p.prop == "C18") {
    uint64_t h = R->hash;
    Env e2;
    e2.scaled = true;
    KSys b(p, e2);
    b.run();
    R->hash = h;
    double f = b.unit;
    bump(CNT_fault_time_unit);
    for (size_t i = 0; i < min(a.trace.size(), b.trace.size()); ++i) {
      auto &x = a.trace[i], &y = b.trace[i];
      if (x.w != y.w || x.s != y.s || x.t != y.t || !close(x.dt, y.dt * f, 1e-9))
        violate("unit.trajectory", "event %zu: walker %d on %d goes to %d after %.12g; with all rates multiplied by %g: walker %d on %d goes to %d after %.12g in the old unit", i, x.w, x.s, x.t, x.dt, f, y.w, y.s, y.t, y.dt * f);
    }
    if (a.trace.size() != b.trace.size()) violate("unit.trajectory", "with all rates multiplied by %g the run has %zu events instead of %zu", f, b.trace.size(), a.trace.size());
    bump(CNT_oracle_evals, a.trace.size());
    if (a.members.size() != b.members.size()) violate("unit.clusters", "the clusters differ with all rates multiplied by %g", f);
    for (auto& kv : a.members) {
      int first = *kv.second.begin();  // ids differ
      if (b.lone(first) || b.members[b.clusterOf[first]] != kv.second) violate("unit.clusters", "the cluster of site %d is another with all rates multiplied by %g", first, f);
      Cluster &x = a.cl(kv.first), &y = b.cl(b.clusterOf[first]);
      if (!close(x.getTimeConstant(), y.getTimeConstant() * f, 1e-9) || !close(x.getTimeIncrement(), y.getTimeIncrement() * f, 1e-9))
        violate("unit.cluster-time", "cluster %d has the time constant %.12g and increment %.12g, with all rates multiplied by %g %.12g and %.12g in the old unit", kv.first, x.getTimeConstant(), x.getTimeIncrement(), f, y.getTimeConstant() * f, y.getTimeIncrement() * f);
      for (int s : kv.second)
        if (!close(x.getProbabilityOfOccupyingInternalSite(s), y.getProbabilityOfOccupyingInternalSite(s), 1e-9, 1e-300))
          violate("unit.cluster-probability", "member %d of cluster %d has the probability %.12g, with all rates multiplied by %g %.12g", s, kv.first, x.getProbabilityOfOccupyingInternalSite(s), f, y.getProbabilityOfOccupyingInternalSite(s));
    }
    for (int s : a.all) if (!a.drains.count(s) && a.lone(s) && !close(a.feat[s]->getTimeConstant(), b.feat[s]->getTimeConstant() * f, 1e-9))
      violate("unit.site-time", "site %d has the time constant %.12g, with all rates multiplied by %g %.12g in the old unit", s, a.feat[s]->getTimeConstant(), f, b.feat[s]->getTimeConstant() * f);
    for (int s : a.all) if (a.reportedVisits(s) != b.reportedVisits(s))
      violate("unit.visits", "site %d ends with %d visits, with all rates multiplied by %g with %d", s, a.reportedVisits(s), f, b.reportedVisits(s));
    R->hash = h;
  }
  if (p.prop == "C21") {
    uint64_t h = R->hash;
    Env e2;
    e2.renamed = p.ci("renamed");
    e2.otherForm = p.ci("otherform");
    KSys b(p, e2);
    b.run();
    R->hash = h;
    if (e2.renamed) bump(CNT_fault_renamed_walkers);
    if (e2.otherForm) bump(CNT_fault_other_calls);
    for (size_t i = 0; i < min(a.trace.size(), b.trace.size()); ++i) {
      auto &x = a.trace[i], &y = b.trace[i];
      if (x.w != y.w || x.s != y.s || x.t != y.t || !close(x.dt, y.dt, 1e-9))
        violate("equivalent.trajectory", "event %zu: walker %d on %d goes to %d after %.12g; with other names for the walkers and equivalent calls: walker %d on %d goes to %d after %.12g", i, x.w, x.s, x.t, x.dt, y.w, y.s, y.t, y.dt);
    }
    if (a.trace.size() != b.trace.size()) violate("equivalent.trajectory", "with other names for the walkers and equivalent calls the run has %zu events instead of %zu", b.trace.size(), a.trace.size());
    bump(CNT_oracle_evals, a.trace.size());
    for (int s : a.all) {
      if (a.reportedVisits(s) != b.reportedVisits(s)) violate("equivalent.visits", "site %d ends with %d visits, with other names for the walkers and equivalent calls with %d", s, a.reportedVisits(s), b.reportedVisits(s));
      if (a.siteTaken(s) != b.siteTaken(s)) violate("equivalent.occupancy", "site %d is %s, with other names for the walkers and equivalent calls it is not", s, a.siteTaken(s) ? "occupied" : "free");
    }
    R->hash = h;
  }
  if (p.prop == "C09") {
    uint64_t h = R->hash;
    for (int k = 0; k < 2; ++k) {
      Env e2;
      e2.clock0 = k ? 42 : 1700000000123456789ll;
      e2.clockStep = k ? 0 : 1000003;
      e2.clockJumpSeed = p.seed + 17 + k;
      e2.heap = p.seed * 77 + 13 + k;
      e2.company = k == 1;
      KSys b(p, e2);
      b.run();
      size_t n = min(a.trace.size(), b.trace.size());
      for (size_t i = 0; i < n; ++i) {
        auto &x = a.trace[i], &y = b.trace[i];
        if (x.w != y.w || x.s != y.s || x.t != y.t || !close(x.dt, y.dt, 1e-9))
          violate("reproducible.trajectory", "event %zu: walker %d on %d goes to %d after %.12g; with another clock/memory layout%s: walker %d on %d goes to %d after %.12g", i, x.w, x.s, x.t, x.dt, k ? "/company" : "", y.w, y.s, y.t, y.dt);
      }
      if (a.trace.size() != b.trace.size()) violate("reproducible.trajectory", "the repeated run has %zu events instead of %zu", b.trace.size(), a.trace.size());
      bump(CNT_oracle_evals, n);
    }
    R->hash = h;
    // different seeds differ
    if (a.freeTimes >= 4) {
      Plan q = p;
      q.cfg["sysseed"] = otherSeed(p.c("sysseed", 7), p.seed);
      KSys b(q, e);
      b.run();
      R->hash = h;
      bool same = a.trace.size() == b.trace.size();
      for (size_t i = 0; same && i < a.trace.size(); ++i) same = a.trace[i].dt == b.trace[i].dt;
      if (same) violate("reproducible.seed-ignored", "a different seed gives the same trajectory of %zu events", a.trace.size());
    }
  }
}

// -------------------------------------------------------------- generation
static double rateIn(Rng& r, int regime) {
  switch (regime) {
    case 0: return 1.0;
    case 1: return r.logu(0.1, 10);
    case 2: return r.logu(1e-6, 1e6);
    case 3: return r.logu(1e9, 1e13);
    case 4: return ldexp(1.0, r.range(-4, 4));
    case 5: return r.logu(1e-12, 1e12);
    default: return r.logu(0.5, 2);
  }
}
// size: 0 quick, 1 thorough, 2 big
void makeGraph(Rng& r, bool basin, int size, bool allowDrains, map<int, unordered_map<int, double>>& g, vector<int>& ids) {
  int n = size == 2 ? r.range(30, 110) : r.range(4, size ? 30 : 18);
  int idmode = r.below(6);
  set<int> used;
  for (int i = 0; i < n; ++i) {
    int id = idmode == 0 ? i : idmode == 1 ? i + 1 : idmode == 2 ? i - n / 2 : idmode == 3 ? 1999999000 - i : idmode == 4 ? (r.below(1000000) - 500000) * 3999 : r.below(1000000);
    while (used.count(id)) ++id;
    used.insert(id);
    ids.push_back(id);
  }
  int type = r.below(6), regime = r.below(7);
  double scale = basin ? pow(10.0, r.range(-6, 9)) : 1.0;
  vector<int> group(n, 0);
  int k = 1;
  if (basin) {
    int sz = r.range(2, 6);
    k = 0;
    for (int i = 0; i < n; ++i) { group[i] = i / sz; k = group[i] + 1; }
    if (r.chance(0.5)) for (int i = 0; i < n; ++i) if (r.chance(0.15)) group[i] = 1000 + i;
  }
  double slow = basin ? pow(10.0, -r.range(6, 9)) : 1, spread = basin ? (r.chance(0.5) ? 3 : 10) : 1;
  auto link = [&](int i, int j) {
    if (i == j || i < 0 || j < 0 || i >= n || j >= n) return;
    int a = ids[i], b = ids[j];
    if (hasRate(g, a, b)) return;
    double x, y;
    if (basin) {
      double f = group[i] == group[j] ? 1.0 : slow;
      x = scale * f * r.logu(1, spread);
      y = scale * f * r.logu(1, spread);
    } else { x = rateIn(r, regime); y = r.chance(0.15) ? x : rateIn(r, regime); }
    g[a][b] = x;
    g[b][a] = y;
  };
  int w = max(2, (int)sqrt((double)n));
  for (int i = 0; i < n; ++i) {
    if (type == 0 || type == 1) link(i, i + 1);
    if (type == 2) { if ((i + 1) % w) link(i, i + 1); link(i, i + w); }
    if (type == 3) link(i, r.below(i + 1));
    if (type == 4) for (int j = 0; j < i && i < 7; ++j) link(i, j);
    if (type == 4 && i >= 7) link(i, r.below(i));
    if (type == 5) { link(i, 0); if (n > 12 && i > 2 && r.chance(0.3)) link(i, 1 + r.below(2)); }
  }
  if (type == 1) link(n - 1, 0);
  int extra = r.below(n);
  for (int i = 0; i < extra; ++i) link(r.below(n), r.below(n));
  // drains and one-way rates to the outside
  if (allowDrains && r.chance(0.35)) {
    int d = r.range(1, 3);
    for (int i = 0; i < d; ++i) {
      int id = idmode == 2 ? -2000000 - i * 7 : 2000000 + i * 7;
      while (used.count(id)) ++id;
      int a = ids[r.below(n)];
      g[a][id] = basin ? scale * slow : rateIn(r, regime);
    }
  }
  (void)k;
}

struct Gen {
  Plan p;
  Rng r;
  Rates g;
  vector<int> ids;
  set<int> lone;
  vector<set<int>> cls;
  int tier;
  bool big = false;
  Gen(const string& prop, uint64_t seed, int t) : r(seed ^ (hash<string>()(prop) * 31)), tier(t) {
    p.prop = prop;
    p.world = "kmc";
    p.seed = seed;
  }
  void graph(bool basin) {
    makeGraph(r, basin, big ? 2 : tier, true, g, ids);
    for (auto& kv : g) lone.insert(kv.first);
    for (auto& kv : g)
      for (auto& e : kv.second) p.add("edge", {(double)kv.first, (double)e.first, e.second});
  }
  int anySite() { return ids[r.below(ids.size())]; }
  bool pickSet(set<int>& m, int want) {
    vector<int> l(lone.begin(), lone.end());
    if (l.empty()) return false;
    int s = l[r.below(l.size())];
    m = {s};
    vector<int> fr{s};
    for (int guard = 0; guard < 400 && (int)m.size() < want && !fr.empty(); ++guard) {
      int a = fr[r.below(fr.size())];
      vector<int> nb;
      double best = 0;
      for (auto& kv : g[a]) if (lone.count(kv.first) && !m.count(kv.first) && hasRate(g, kv.first, a)) best = max(best, kv.second);
      for (auto& kv : g[a])
        if (lone.count(kv.first) && !m.count(kv.first) && hasRate(g, kv.first, a) && (!basinPick || kv.second > best * 1e-3)) nb.push_back(kv.first);
      if (basinPick && best < fastest * 1e-4) nb.clear();
      if (nb.empty()) { fr.erase(find(fr.begin(), fr.end(), a)); continue; }
      sort(nb.begin(), nb.end());
      int b = nb[r.below(nb.size())];
      m.insert(b);
      fr.push_back(b);
    }
    return m.size() >= 2;
  }
  bool basinPick = false, tightToo = false;
  double fastest = 0;
  void settings(vector<double>& a, int prefer) {
    int method = r.below(3);
    double it = r.chance(0.06) ? r.range(9, 120) : r.range(1, 8), tol = pow(10.0, -r.range(1, 4)), res = r.chance(0.3) ? 2 : r.chance(0.5) ? 20 : r.logu(2, 200);
    if (prefer == 1) {  // converged
      int z = r.below(5);
      static const double tight[] = {0, 5e-324, 1e-300, 1e-19, 1e-17, 1e-16, 1e-15, 1e-12};
      if (z == 4) { method = 2; tol = tight[r.below(8)]; }
      else if (z == 0) { method = 0; it = 1500; }
      else if (z == 1) { method = 1; it = 300; }
      else if (z == 2) { method = 2; tol = 1e-7; }
      else { method = 2; tol = 1e-3; }
      res = r.chance(0.5) ? 2 : r.logu(2, 30);
    }
    else if (tightToo && method == 2 && r.chance(0.15)) tol = r.chance(0.3) ? 0 : r.logu(1e-18, 1e-6);
    a = {(double)(method + (r.chance(0.3) ? 3 : 0)), it, tol, res};
  }
  void opForm(int prefer, int maxsz) {
    set<int> m;
    if (!pickSet(m, r.range(2, maxsz))) return;
    vector<double> a;
    settings(a, prefer);
    vector<int> v(m.begin(), m.end());
    for (size_t i = v.size(); i > 1; --i) swap(v[i - 1], v[r.below(i)]);
    for (int s : v) a.push_back(s);
    p.ops.push_back(Op{"form", a});
    // (the interpreter may refuse it; then later references are skipped too)
    for (int s : m) lone.erase(s);
    cls.push_back(m);
  }
  void opAbs() {
    if (cls.empty()) return;
    int c = r.below(cls.size());
    set<int>& m = cls[c];
    vector<int> nb;
    for (int s : m)
      for (auto& kv : g[s]) if (lone.count(kv.first) && hasRate(g, kv.first, s)) nb.push_back(kv.first);
    if (nb.empty() || m.size() > (big ? 30u : 9u)) return;
    sort(nb.begin(), nb.end());
    vector<double> a{(double)*m.begin()};
    int b = nb[r.below(nb.size())];
    a.push_back(b);
    m.insert(b);
    lone.erase(b);
    if (r.chance(0.3) && nb.size() > 1) {
      int d = nb[r.below(nb.size())];
      if (!m.count(d)) { a.push_back(d); m.insert(d); lone.erase(d); }
    }
    p.ops.push_back(Op{"abs", a});
  }
  void opMrg() {
    if (cls.size() < 2) return;
    for (int t = 0; t < 6; ++t) {
      int i = r.below(cls.size()), j = r.below(cls.size());
      if (i == j) continue;
      bool adj = false;
      for (int s : cls[i]) for (auto& kv : g[s]) if (cls[j].count(kv.first)) adj = true;
      if (!adj || cls[i].size() + cls[j].size() > (big ? 40u : 14u)) continue;
      p.add("mrg", {(double)*cls[i].begin(), (double)*cls[j].rbegin(), (double)r.below(2)});
      cls[i].insert(cls[j].begin(), cls[j].end());
      cls.erase(cls.begin() + j);
      return;
    }
  }
  double memb() {
    if (cls.empty()) return anySite();
    set<int>& m = cls[r.below(cls.size())];
    auto it = m.begin();
    advance(it, r.below(m.size()));
    return *it;
  }
  double extreme() {
    static const double v[] = {0.0, 0x1p-64, 0x1p-53, 0x1p-60, 1e-12, 0.5, 1 - 1e-12, 0x1.fffffffffffffp-1, 0x1.ffffffffffffep-1};
    return v[r.below(9)];
  }
};

Plan gen_kmc(const string& prop, uint64_t seed, int tier) {
  Gen g(prop, seed, tier);
  Rng& r = g.r;
  bool basin = prop == "C13" || (prop == "C05" && r.chance(0.3));
  g.big = prop != "C13" && r.chance(tier ? 0.08 : 0.04);
  g.tightToo = prop == "C04" || prop == "C13" || prop == "C10";
  g.graph(basin);
  if (basin) {
    g.basinPick = true;
    for (auto& kv : g.g) for (auto& e : kv.second) g.fastest = max(g.fastest, e.second);
  }
  Plan& p = g.p;
  p.cfg["register"] = r.below(3);
  p.cfg["queuemode"] = r.below(2);
  p.cfg["sysseed"] = anySeed(r);
  // swarm: each run enables a random subset of operation kinds
  auto on = [&](double q) { return r.chance(q) ? 1.0 : 0.0; };
  map<string, double> w;
  w["hop"] = 30 * on(0.9);
  w["hopw"] = 10 * on(0.6);
  w["inj"] = 8;
  w["rem"] = 5 * on(0.7);
  w["stall"] = 2 * on(0.4);
  w["form"] = 5;
  w["abs"] = 4 * on(0.7);
  w["mrg"] = 3 * on(0.7);
  w["upd"] = 3 * on(0.6);
  w["res"] = 1 * on(0.4);
  w["poll"] = 2 * on(0.5);
  w["fdwell"] = 2 * on(0.4);
  w["fpick"] = 2 * on(0.4);
  bool lng = r.chance(0.05);
  if (prop == "C05") w["setv"] = 2 * on(0.25);
  int nops = r.range(20, tier ? 260 : 140);
  bool heavy = false;
  if (prop == "C02") { w["psoj"] = 0.6; w["psite"] = 0.6; w["fdwell"] = 4 * on(0.6); w["rem"] = 6; }
  if (prop == "C03") { w["ppick"] = 1.2; w["psite"] = 1.2; w["fpick"] = 5; }
  if (prop == "C04") { w["pfresh"] = 3; w["oomupd"] = 2 * on(0.5); w["upd"] = 5; w["abs"] = 6; w["mrg"] = 6; nops = r.range(8, tier ? 120 : 60); heavy = true; }
  if (prop == "C05") { w["poll"] = 6 * on(0.8); w["rem"] = 2; w["fdwell"] = 0; w["fpick"] = 0; nops = r.range(60, tier ? 700 : 350); }
  if (prop == "C10") { w["rate"] = 8; w["pfresh"] = 3; w["psite"] = 1.5; nops = r.range(10, tier ? 140 : 70); heavy = true; }
  if (prop == "C13") { w["pfid"] = 4; w["form"] = 8; w["abs"] = 4; w["mrg"] = 2; w["hop"] = 8; w["hopw"] = 0; nops = r.range(10, 40); heavy = true; }
  if (prop == "C07") { w["form"] = 7; w["abs"] = 6; w["mrg"] = 6; }
  if (prop == "C06") { w["stall"] = 6; w["hopw"] = 8; }
  if (prop == "C18") { w["fdwell"] *= 0.5; w["fpick"] *= 0.5; p.cfg["unit"] = (r.chance(0.5) ? 1 : -1) * (r.chance(0.3) ? r.range(1, 8) : r.range(9, 300)); w["rate"] = 3 * on(0.3); }
  if (prop == "C21") { int how = r.range(1, 7); p.cfg["renamed"] = how & 3; p.cfg["otherform"] = how >> 2; w["rem"] *= 2; w["rate"] = 3 * on(0.3); }
  if (prop == "C09") { w["fdwell"] = 0; w["fpick"] = 0; w["pseed"] = 1; }
  if (prop == "C05" || prop == "C09") { w["rate"] = 0; }
  (void)heavy;
  double tot = 0;
  for (auto& kv : w) tot += kv.second;
  int nw = g.big ? r.range(5, 40) : r.range(1, 8), wm = r.below(5);
  auto W = [&](int i) { return (double)walkerId(wm, i); };
  int maxsz = g.big && r.chance(0.5) ? 24 : r.chance(0.7) ? 4 : 8;
  int pref = prop == "C13" ? (r.chance(0.85) ? 1 : 0) : 0;
  for (int i = 0; i < nw; ++i) p.add("inj", {W(i), (double)g.anySite()});
  if (r.chance(0.7)) g.opForm(pref, maxsz);
  for (int i = 0; i < nops; ++i) {
    double x = r.uni() * tot;
    string k;
    for (auto& kv : w) { if (x < kv.second) { k = kv.first; break; } x -= kv.second; }
    if (k == "hop") { if (lng && r.chance(0.1)) p.add("hops", {(double)r.range(100, tier ? 20000 : 2500)}); else p.add("hop", {}); }
    else if (k == "setv") p.add("setv", {r.chance(0.5) ? g.memb() : (double)g.anySite(), r.chance(0.6) ? 2147483647.0 - r.below(40) : (double)r.below(100000)});
    else if (k == "hopw") p.add("hopw", {(double)r.below(16)});
    else if (k == "inj") p.add("inj", {W(r.below(nw + 2)), (double)g.anySite()});
    else if (k == "rem") p.add("rem", {W(r.below(nw + 2))});
    else if (k == "stall") p.add("stall", {r.logu(0.01, 10)});
    else if (k == "form") g.opForm(pref, maxsz);
    else if (k == "abs") g.opAbs();
    else if (k == "mrg") g.opMrg();
    else if (k == "upd") p.add("upd", {g.memb(), (double)r.range(1, 3)});
    else if (k == "oomupd") p.add("oomupd", {g.memb(), (double)(r.chance(0.5) ? r.range(1, 60) : r.range(1, 900))});
    else if (k == "res") p.add("res", {g.memb(), r.chance(0.3) ? 2.0 : r.logu(2, 500)});
    else if (k == "poll") { if (r.chance(0.5)) p.add("poll", {}); else p.add("poll", {(double)g.anySite()}); }
    else if (k == "fdwell") p.add("fdwell", {g.extreme()});
    else if (k == "fpick") p.add("fpick", {g.extreme()});
    else if (k == "rate") {
      int a = g.anySite();
      if (!g.cls.empty() && r.chance(0.6)) a = (int)g.memb();
      if (!g.g.count(a) || g.g[a].empty()) continue;
      vector<int> nb;
      for (auto& kv : g.g[a]) nb.push_back(kv.first);
      sort(nb.begin(), nb.end());
      int b = nb[r.below(nb.size())];
      double v = g.g[a][b] * (r.chance(0.2) ? 1.0 : r.logu(1e-4, 1e4));
      if (nb.size() > 1 && r.chance(0.25)) {
        // two rates of a site trade places: their sum stays the same
        int c = nb[r.below(nb.size())];
        if (c == b) continue;
        p.add("swap", {(double)a, (double)b, (double)c, (double)r.below(3)});
        continue;
      }
      p.add("rate", {(double)a, (double)b, v, (double)r.below(3)});
    }
    else if (k == "ppick") p.add("ppick", {g.memb(), (double)r.range(200, 600), (double)r.below(100000)});
    else if (k == "psite") p.add("psite", {(double)g.anySite(), (double)r.range(200, 600), (double)r.below(100000)});
    else if (k == "psoj") p.add("psoj", {g.memb(), (double)r.range(150, 400), (double)r.below(100000)});
    else if (k == "pfresh") p.add("pfresh", {g.memb(), (double)r.below(100000)});
    else if (k == "pseed") p.add("pseed", {r.chance(0.5) ? g.memb() : (double)g.anySite(), anySeed(r), (double)r.below(9)});
    else if (k == "pfid") p.add("pfid", {g.memb(), (double)r.range(200, 600), (double)r.below(100000)});
  }
  if (prop == "C04" || prop == "C10") for (auto& m : g.cls) p.add("pfresh", {(double)*m.begin(), (double)r.below(100000)});
  if (prop == "C03") { p.add("ppick", {g.memb(), 500, 5}); p.add("psite", {(double)g.anySite(), 500, 5}); }
  if (prop == "C13") for (auto& m : g.cls) p.add("pfid", {(double)*m.begin(), 500, (double)r.below(100000)});
  return p;
}

}  // namespace sim
