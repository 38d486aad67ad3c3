// Worlds "queue" (event queue), "registry" (site, cluster and rate
// registries under allocation failure) and "place" (random placement).
#include <algorithm>
#include <functional>
#include <limits>
#include <memory>
#include <unordered_map>

#include "core.hpp"
#include "libmythical/cluster_container.hpp"
#include "libmythical/rate_container.hpp"
#include "libmythical/site_container.hpp"
#include "libmythical/topologyfeatures/cluster.hpp"
#include "libmythical/topologyfeatures/site.hpp"
#include "mythical/charge_transport/cuboid_lattice.hpp"
#include "mythical/queue.hpp"

using namespace std;
using namespace mythical;

namespace sim {

// ==================================================================== queue
typedef pair<int, double> Ev;

struct QWorld {
  Queue q;
  vector<Ev> view;       // the queue as last seen, in order
  bool ordered = true;   // order is promised: sorted, or only ordered inserts since
  multiset<Ev> look() {
    vector<Ev> v;
    for (size_t i = 0; i < q.size(); ++i) v.push_back(q.at((int)i));
    view = v;
    return multiset<Ev>(v.begin(), v.end());
  }
  multiset<Ev> model;
  void check(const char* after) {
    bump(CNT_oracle_evals);
    if (q.size() != model.size()) violate("queue.size", "after %s the queue holds %zu events, %zu expected", after, q.size(), model.size());
    if (look() != model) violate("queue.contents", "after %s the queue does not hold the events put in and not yet taken out", after);
    bool inOrder = true;
    for (size_t i = 1; i < view.size(); ++i)
      if (view[i].second < view[i - 1].second) inOrder = false;
    if (q.isSorted() && !inOrder) violate("queue.claims-sorted", "after %s the queue says it is sorted but is not", after);
    if (ordered && !inOrder) violate("queue.order", "after %s the queue is out of order", after);
    uint64_t h = 99;
    for (auto& e : view) { uint64_t b; memcpy(&b, &e.second, 8); h = (h ^ e.first ^ b) * 0x100000001b3ull; }
    state(h ^ (q.isSorted() ? 1 : 0));
  }
  void step(const Op& o) {
    const string& n = o.name;
    Ev e{o.in(0), o.at(1)};
    if (n == "add" || n == "sadd") {
      long k = o.in(2);
      vector<Ev> before = view;
      bool sortedBefore = q.isSorted(), threw = false;
      if (k > 0) seam::alloc_arm(k);
      try {
        if (n == "add") q.add(e);
        else q.sortedAdd(e);
      } catch (const bad_alloc&) { threw = true; }
      bool fired = seam::alloc_disarm();
      if (threw && !fired) violate("queue.error", "an insertion fails without cause");
      if (threw) {
        check("a failed insertion");
        if (view != before) violate("queue.failed-insert", "a failed insertion changed the order of the queue");
        if (sortedBefore && !q.isSorted()) violate("queue.failed-insert", "a failed insertion made the queue forget that it is sorted");
        if (n == "add") q.add(e); else q.sortedAdd(e);
      }
      model.insert(e);
      if (n == "add") ordered = false;
      bool expectOrder = ordered;
      check(n == "add" ? "an insertion" : "an ordered insertion");
      (void)expectOrder;
    } else if (n == "sort") {
      q.sort();
      ordered = true;
      if (!q.isSorted()) violate("queue.sort-flag", "after a sort the queue does not say it is sorted");
      check("a sort");
    } else if (n == "pop") {
      int times = max(1, o.in(0, 1));
      for (int i = 0; i < times && !model.empty(); ++i) {
        Ev front = view.front();
        Ev g = q.pop_current();
        auto it = model.find(g);
        if (it == model.end()) violate("queue.phantom", "the queue hands out (%d, %g), which is not in it", g.first, g.second);
        if (g != front) violate("queue.front", "the queue hands out (%d, %g) while (%d, %g) stood at the front", g.first, g.second, front.first, front.second);
        if (ordered && g.second > model_min()) violate("queue.order", "the queue hands out an event at %g before one at %g", g.second, model_min());
        model.erase(it);
        hashd(g.second);
        check("a removal");
      }
      if (model.empty()) ordered = q.isSorted();
    } else if (n == "look") {
      bool bad = false;
      for (int i : {-1, (int)q.size(), (int)q.size() + 5}) {
        try { q.at(i); bad = true; } catch (const exception&) {}
        if (bad) violate("queue.bounds", "reading position %d of %zu is not refused", i, q.size());
      }
      bump(CNT_fault_rejected_call);
      check("reading");
    } else if (n == "copy") {
      Queue c = q;
      q.add({-7, -1e300});
      q = c;
      check("copying back");
    } else { bump(CNT_skipped_ops); return; }
    bump(CNT_queue_ops);
    bump(CNT_steps);
    hashv(q.size() * 2 + q.isSorted());
  }
  double model_min() {
    double m = numeric_limits<double>::infinity();
    for (auto& e : model) m = min(m, e.second);
    return m;
  }
};
void run_queue(const Plan& p) {
  QWorld w;
  int i = 0;
  double t = 0;
  for (auto& o : p.ops) {
    R->op_index = i++;
    w.step(o);
    if (o.name == "pop") t += 1;
  }
  // drain
  if (!w.model.empty()) {
    if (p.ci("finalsort")) { Op s{"sort", {}}; w.step(s); }
    Op d{"pop", {(double)w.model.size()}};
    w.step(d);
    if (w.q.size()) violate("queue.size", "an emptied queue has size %zu", w.q.size());
  }
  R->sim_time += t;
}
Plan gen_queue(const string& prop, uint64_t seed, int tier) {
  Plan p;
  p.prop = prop;
  p.world = "queue";
  p.seed = seed;
  Rng r(seed ^ 0x51ed270b);
  int n = r.range(5, tier ? 400 : 160);
  int tm = r.below(5), mode = r.below(4);
  p.cfg["finalsort"] = r.below(2);
  bool oom = r.chance(0.5);
  double now = 0;
  for (int i = 0; i < n; ++i) {
    double t = 0;
    switch (tm) {
      case 0: t = r.below(5); break;                                  // many ties
      case 1: t = r.logu(1e-15, 1e15); break;
      case 2: t = now + r.logu(1e-3, 10); break;                      // as in a simulation
      case 3: t = r.uni() * 2 - 1; break;
      default: {
        static const double v[] = {0.0, -0.0, 1, 1 + 0x1p-52, 1e300, numeric_limits<double>::infinity(), 5e-324, -1e300};
        t = v[r.below(8)];
      }
    }
    if (tm == 4 && !isfinite(t)) t = numeric_limits<double>::max();
    double k = oom && r.chance(0.3) ? 1 : 0;
    double id = r.chance(0.7) ? i : r.below(4);
    int x = r.below(100);
    if (mode == 0) {        // ordered use only
      if (x < 55) p.add("sadd", {id, t, k});
      else if (x < 90) p.add("pop", {(double)r.range(1, 3)});
      else p.add("look", {});
    } else if (mode == 1) { // fill, sort, drain, repeat
      if (x < 60) p.add("add", {id, t, k});
      else if (x < 75) p.add("sort", {});
      else p.add("pop", {1});
    } else {
      if (x < 30) p.add("add", {id, t, k});
      else if (x < 60) p.add("sadd", {id, t, k});
      else if (x < 70) p.add("sort", {});
      else if (x < 92) p.add("pop", {(double)(r.chance(0.1) ? 1000 : r.range(1, 4))});
      else if (x < 96) p.add("look", {});
      else p.add("copy", {});
    }
    now += 0.5;
  }
  if (r.chance(0.3)) {  // many events: several blocks of the container
    size_t at = r.below(p.ops.size());
    vector<Op> extra;
    int m = r.range(60, 300);
    bool srt = r.chance(0.5);
    for (int i = 0; i < m; ++i) extra.push_back(Op{srt ? "sadd" : "add", {(double)(5000 + i), r.uni(), oom && r.chance(0.1) ? 1.0 : 0.0}});
    p.ops.insert(p.ops.begin() + at, extra.begin(), extra.end());
  }
  return p;
}

// ================================================================= registry
struct RegWorld {
  Site_Container S;
  Cluster_Container C;
  Rate_Container Rt;
  vector<unique_ptr<double>> store;
  vector<unique_ptr<unordered_map<int, double>>> tables;
  struct MSite {
    unordered_map<int, double>* rates;
    bool occ = false;
    int visits = 0;
    int cluster = constants::unassignedId;
  };
  map<int, MSite> ms;
  struct MCl { set<int> members, out; double T, res, inc, fast; int occ = 0; map<int, double> prob; };
  set<int> erased;
  map<int, pair<Cluster, MCl>> graveyard;
  map<int, MCl> mc;
  map<pair<int, int>, double*> mr;
  const int U = 40;  // number of site ids used
  int mode = 0;      // which ids
  int ID(int i) const {
    i = ((i % U) + U) % U;
    return mode == 1 ? i - 20 : mode == 2 ? (i - 20) * 50000017 : mode == 3 ? 1999999000 - i : mode == 4 ? i * 8 : i;
  }

  // ------------------------------------------------------------ site checks
  void checkSite(int id, const char* after) {
    const MSite& m = ms.at(id);
    Site& s = S.getSite(id);
    if (s.getId() != id) violate("registry.site-changed", "after %s site %d says it is %d", after, id, s.getId());
    if (s.isOccupied() != m.occ || S.isOccupied(id) != m.occ) violate("registry.site-changed", "after %s the occupancy of site %d is wrong", after, id);
    if (S.getClusterIdOfSite(id) != m.cluster) violate("registry.site-changed", "after %s site %d carries cluster id %d", after, id, S.getClusterIdOfSite(id));
    if (s.getVisitFrequency() != m.visits) violate("registry.site-changed", "after %s site %d has %d visits, %d expected", after, id, s.getVisitFrequency(), m.visits);
    auto nr = s.getNeighborsAndRates();
    bool same = nr.size() == m.rates->size();
    double sum = 0;
    for (auto& kv : *m.rates) {
      sum += kv.second;
      if (!nr.count(kv.first) || nr[kv.first] != &kv.second) same = false;
      if (S.getRateToNeighborOfSite(id, kv.first) != kv.second) same = false;
    }
    if (!same) violate("registry.site-changed", "after %s the rates of site %d are not those it was added with", after, id);
    if (!m.rates->empty() && !close(S.getTimeConstant(id), 1 / sum, 1e-9)) violate("registry.site-changed", "after %s the time constant of site %d is %g instead of %g", after, id, S.getTimeConstant(id), 1 / sum);
    auto nb = S.getSiteIdsOfNeighbors(id);
    if (nb.size() != m.rates->size()) violate("registry.site-changed", "after %s site %d lists %zu neighbours", after, id, nb.size());
    for (int n : nb) if (!m.rates->count(n)) violate("registry.site-changed", "after %s site %d lists %d as a neighbour", after, id, n);
    if (S.partOfCluster(id) != (m.cluster != constants::unassignedId)) violate("registry.site-changed", "after %s cluster membership of site %d is wrong", after, id);
  }
  void checkCopy(Site& s, int id, const char* after) {
    const MSite& m = ms.at(id);
    auto nr = s.getNeighborsAndRates();
    bool same = s.getId() == id && s.isOccupied() == m.occ && s.getClusterId() == m.cluster && s.getVisitFrequency() == m.visits && nr.size() == m.rates->size();
    for (auto& kv : *m.rates) if (!nr.count(kv.first) || nr[kv.first] != &kv.second) same = false;
    if (!same) violate("registry.copy", "after %s the copy handed out of site %d is not the site stored", after, id);
  }
  void checkSites(const char* after) {
    bump(CNT_oracle_evals);
    if (S.size() != ms.size()) violate("registry.site-count", "after %s %zu sites are stored, %zu expected", after, S.size(), ms.size());
    auto ids = S.getSiteIds();
    set<int> got(ids.begin(), ids.end()), want;
    for (auto& kv : ms) want.insert(kv.first);
    if (got != want || ids.size() != ms.size()) violate("registry.site-ids", "after %s the listed site ids are not those added", after);
    for (int k = -1; k <= U; ++k) {
      int i = k < 0 ? -1 : k == U ? 123456789 : ID(k);
      if (S.exist(i) != (ms.count(i) != 0)) violate("registry.site-exist", "after %s site %d is reported as %s", after, i, S.exist(i) ? "stored" : "missing");
    }
    auto all = S.getSites();
    if (all.size() != ms.size()) violate("registry.site-count", "after %s a copy of all sites holds %zu, %zu expected", after, all.size(), ms.size());
    auto rm = S.getRates();
    if (rm.size() != ms.size()) violate("registry.site-rates", "after %s the table of all rates lists %zu sites, %zu expected", after, rm.size(), ms.size());
    for (auto& kv : ms) {
      checkSite(kv.first, after);
      if (!all.count(kv.first)) violate("registry.copy", "after %s site %d is missing in the copy of all sites", after, kv.first);
      checkCopy(all[kv.first], kv.first, after);
      for (auto& e : *kv.second.rates) { auto& row = rm[kv.first]; if (!row.count(e.first) || row[e.first] != &e.second) violate("registry.site-rates", "after %s the table of all rates is wrong for the rate %d->%d", after, kv.first, e.first); }
      if (!rm.count(kv.first) || rm[kv.first].size() != kv.second.rates->size()) violate("registry.site-rates", "after %s the table of all rates is wrong for site %d", after, kv.first);
    }
    if (S.size() != ms.size()) violate("registry.lookup-creates", "reading the site registry changed the number of sites to %zu", S.size());
  }
  template <class F>
  void refuse(const char* what, int id, F f) {
    bump(CNT_fault_rejected_call);
    bool threw = false;
    try { f(); } catch (const exception&) { threw = true; }
    if (!threw) violate("registry.not-refused", "%s of %d, which is not stored, is not reported as an error", what, id);
  }
  Site makeSite(int id, uint64_t seed, MSite& m) {
    Rng r(seed + 1);
    tables.emplace_back(new unordered_map<int, double>);
    m.rates = tables.back().get();
    int k = r.below(5);
    for (int i = 0; i < k; ++i) { int b = ID(r.below(U)); if (b != id) (*m.rates)[b] = r.logu(1e-3, 1e3); }
    Site s;
    s.setId(id);
    if (!m.rates->empty()) s.setRatesToNeighbors(*m.rates);
    if (r.chance(0.3)) { s.occupy(); m.occ = true; m.visits = 1; }
    if (r.chance(0.2)) { m.cluster = r.range(0, 9); s.setClusterId(m.cluster); }
    return s;
  }
  void addSite(const Op& o) {
    int id = ID(o.in(0));
    MSite m;
    Site s = makeSite(id, (uint64_t)o.at(1), m);
    bool dup = ms.count(id);
    long k = o.in(2);
    bool threwBad = false, threwDup = false;
    if (k > 0) seam::alloc_arm(k);
    try { S.addSite(s); } catch (const bad_alloc&) { threwBad = true; } catch (const exception&) { threwDup = true; }
    bool fired = seam::alloc_disarm();
    if (dup) {
      if (!threwDup && !(threwBad && fired)) violate("registry.duplicate", "adding site %d twice is not refused", id);
      bump(CNT_fault_rejected_call);
      checkSites("a refused addition of a site");
      return;
    }
    if (threwDup) violate("registry.add-refused", "adding the new site %d is refused", id);
    if (threwBad) {
      if (!fired) violate("registry.error", "adding site %d fails without cause", id);
      checkSites("an addition of a site that ran out of memory");
      try { S.addSite(s); } catch (const exception& e) { violate("registry.retry", "after an addition of site %d that ran out of memory it cannot be added: %s", id, e.what()); }
      bump(CNT_update_retried);
    }
    ms[id] = m;
    checkSites("adding a site");
  }
  void addSites(const Op& o) {
    Rng r((uint64_t)o.at(0));
    int n = r.range(1, 5);
    vector<Site> v;
    vector<pair<int, MSite>> mv;
    for (int i = 0; i < n; ++i) {
      int id = ID(r.below(U));
      MSite m;
      v.push_back(makeSite(id, r.next() >> 40, m));
      mv.push_back({id, m});
    }
    set<int> before, batch;
    bool clash = false;
    for (auto& kv : ms) before.insert(kv.first);
    for (auto& x : mv) { if (before.count(x.first) || batch.count(x.first)) clash = true; batch.insert(x.first); }
    long k = o.in(1);
    bool threw = false;
    if (k > 0) seam::alloc_arm(k);
    try { S.addSites(v); } catch (const exception&) { threw = true; }
    bool fired = seam::alloc_disarm();
    if (clash && !threw) violate("registry.duplicate", "adding sites of which one is stored already is not refused");
    if (!clash && threw && !fired) violate("registry.add-refused", "adding new sites is refused");
    // each element wholly there or wholly absent
    for (auto& x : mv)
      if (!ms.count(x.first) && S.exist(x.first)) ms[x.first] = x.second;
    if (!threw) for (auto& x : mv) if (!ms.count(x.first)) violate("registry.lost", "site %d was added but is not there", x.first);
    checkSites("adding several sites");
  }
  void missSite(int id) {
    id = ID(id);
    if (ms.count(id)) return;
    refuse("getting", id, [&] { S.getSite(id); });
    refuse("getting the cluster id", id, [&] { S.getClusterIdOfSite(id); });
    refuse("setting the cluster id", id, [&] { S.setClusterId(id, 3); });
    refuse("asking for cluster membership", id, [&] { S.partOfCluster(id); });
    refuse("asking for occupancy", id, [&] { S.isOccupied(id); });
    refuse("vacating", id, [&] { S.vacate(id); });
    refuse("occupying", id, [&] { S.occupy(id); });
    refuse("asking for a residence time", id, [&] { S.getDwellTime(id); });
    refuse("asking for the time constant", id, [&] { S.getTimeConstant(id); });
    refuse("asking for the fastest rate", id, [&] { S.getFastestRateOffSite(id); });
    refuse("asking for a rate", id, [&] { S.getRateToNeighborOfSite(id, 1); });
    refuse("asking for neighbours", id, [&] { S.getSiteIdsOfNeighbors(id); });
    refuse("copying", id, [&] { S.getSites(vector<int>{id}); });
    if (!ms.empty()) {
      refuse("copying", id, [&] { S.getSites(vector<int>{ms.begin()->first, id}); });
      refuse("asking for the smallest cluster id", id, [&] { S.getSmallestClusterId(vector<int>{ms.begin()->first, id}); });
    }
    refuse("asking for the smallest cluster id", id, [&] { S.getSmallestClusterId(vector<int>{id}); });
    checkSites("asking for a site that is not stored");
  }
  void readSites(uint64_t seed) {
    Rng r(seed);
    vector<int> v;
    int best = constants::unassignedId;
    for (auto& kv : ms) if (r.chance(0.5)) {
      v.push_back(kv.first);
      int c = kv.second.cluster;
      if (c != constants::unassignedId && (best == constants::unassignedId || c < best)) best = c;
    }
    auto got = S.getSites(v);
    if (got.size() != v.size()) violate("registry.copy", "asked for %zu sites, got %zu", v.size(), got.size());
    for (int id : v) { if (!got.count(id)) violate("registry.copy", "asked for site %d and did not get it", id); checkCopy(got[id], id, "asking for some sites"); }
    for (int id : v) {
      if (ms[id].rates->empty()) continue;
      // the residence time asked of the registry is the one of the site stored
      Site c = S.getSite(id);
      double x = c.getDwellTime(constants::unassignedId), y = S.getDwellTime(id), z = c.getDwellTime(constants::unassignedId), w = S.getDwellTime(id);
      if (x != y || z != w || !(x > 0)) violate("registry.dwell", "the registry gives residence times %g, %g for site %d, the site itself %g, %g", y, w, id, x, z);
    }
    if (S.getSmallestClusterId(v) != best) violate("registry.smallest-cluster", "smallest cluster id of the chosen sites is %d, expected %d", S.getSmallestClusterId(v), best);
    for (auto& kv : ms) {
      if (kv.second.rates->empty()) continue;
      double f = 0;
      for (auto& e : *kv.second.rates) f = max(f, e.second);
      if (S.getFastestRateOffSite(kv.first) != f) violate("registry.fastest", "fastest rate off site %d is %g, reported %g", kv.first, f, S.getFastestRateOffSite(kv.first));
    }
    checkSites("reading");
  }
  void touchSite(const Op& o) {
    if (ms.empty()) return;
    auto it = ms.begin();
    advance(it, (unsigned)o.in(0) % ms.size());
    int id = it->first;
    switch ((unsigned)o.in(1) % 3) {
      case 0: if (!it->second.occ) { S.occupy(id); it->second.occ = true; ++it->second.visits; } break;
      case 1: if (it->second.occ) { S.vacate(id); it->second.occ = false; } break;
      default: it->second.cluster = o.in(2); S.setClusterId(id, o.in(2));
    }
    checkSites("using a site");
  }

  // --------------------------------------------------------- cluster checks
  void checkClusters(const char* after) {
    bump(CNT_oracle_evals);
    if (C.size() != mc.size()) violate("registry.cluster-count", "after %s %zu clusters are stored, %zu expected", after, C.size(), mc.size());
    auto ids = C.getClusterIds();
    set<int> got(ids.begin(), ids.end()), want;
    for (auto& kv : mc) want.insert(kv.first);
    if (got != want || ids.size() != mc.size()) violate("registry.cluster-ids", "after %s the listed cluster ids are not those added", after);
    auto mem = C.getSiteIdsOfClusters();
    auto rs = C.getResolutionOfClusters();
    auto ti = C.getTimeIncrementOfClusters();
    if (mem.size() != mc.size() || rs.size() != mc.size() || ti.size() != mc.size()) violate("registry.cluster-count", "after %s the tables of clusters have the wrong size", after);
    for (auto& kv : mc) {
      if (!C.exist(kv.first)) violate("registry.cluster-lost", "after %s a cluster is missing", after);
      auto& v = mem[kv.first];
      Cluster& c = C.getCluster(kv.first);
      if (set<int>(v.begin(), v.end()) != kv.second.members || c.getId() != kv.first || !close(C.getTimeConstant(kv.first), kv.second.T, 1e-12) || rs[kv.first] != kv.second.res || !close(ti[kv.first], kv.second.inc, 1e-12))
        violate("registry.cluster-changed", "after %s a cluster is not as it was added", after);
      auto nb = C.getSiteIdsOfNeighbors(kv.first);
      if (set<int>(nb.begin(), nb.end()) != kv.second.out || nb.size() != kv.second.out.size()) violate("registry.cluster-changed", "after %s the outside neighbours of a cluster are not as they were", after);
      if (C.getFastestRateOffCluster(kv.first) != kv.second.fast) violate("registry.cluster-changed", "after %s the fastest rate off a cluster is %g instead of %g", after, C.getFastestRateOffCluster(kv.first), kv.second.fast);
      if (C.isOccupied(kv.first) != (kv.second.occ > 0) || c.isOccupied() != (kv.second.occ > 0)) violate("registry.cluster-changed", "after %s the occupancy of a cluster is wrong", after);
      if (c.getResolution() != kv.second.res || !close(c.getTimeIncrement(), kv.second.inc, 1e-12)) violate("registry.cluster-changed", "after %s the resolution of a cluster is not as it was", after);
      for (auto& pr : kv.second.prob) if (!close(c.getProbabilityOfOccupyingInternalSite(pr.first), pr.second, 1e-12)) violate("registry.cluster-changed", "after %s the probabilities of a cluster are not as they were", after);
    }
    for (int id : erased) if (!mc.count(id) && C.exist(id)) violate("registry.erase", "after %s an erased cluster is there again", after);
    if (C.size() != mc.size()) violate("registry.lookup-creates", "reading the cluster registry changed its size");
  }
  bool makeCluster(uint64_t seed, Cluster& c, MCl& m) {
    Rng r(seed + 3);
    int n = r.range(2, 4);
    vector<Site> v;
    int base = r.below(1000) * 10;
    for (int i = 0; i < n; ++i) {
      tables.emplace_back(new unordered_map<int, double>);
      auto& t = *tables.back();
      if (i > 0) t[base + i - 1] = r.logu(0.1, 10);
      if (i + 1 < n) t[base + i + 1] = r.logu(0.1, 10);
      t[base + 100 + i] = r.logu(0.01, 0.1);
      m.out.insert(base + 100 + i);
      m.fast = max(i ? m.fast : 0.0, t[base + 100 + i]);
      Site s;
      s.setId(base + i);
      s.setRatesToNeighbors(t);
      v.push_back(s);
      m.members.insert(base + i);
    }
    c.addSites(v);
    c.updateProbabilitiesAndTimeConstant();
    c.setResolution(r.range(2, 9));
    m.T = c.getTimeConstant();
    m.res = c.getResolution();
    m.inc = c.getTimeIncrement();
    for (int x : m.members) m.prob[x] = c.getProbabilityOfOccupyingInternalSite(x);
    return true;
  }
  void addClusters(const Op& o) {
    Rng r((uint64_t)o.at(0));
    int n = r.range(1, 4);
    vector<Cluster> v;
    vector<MCl> mv;
    for (int i = 0; i < n; ++i) {
      Cluster c;
      MCl m;
      makeCluster(r.next() >> 40, c, m);
      v.push_back(c);
      mv.push_back(m);
    }
    bool clash = false;
    if (r.chance(0.3)) { v.push_back(v[r.below(n)]); clash = true; }
    else if (!mc.empty() && r.chance(0.3)) { v.insert(v.begin() + r.below(n), C.getCluster(mc.begin()->first)); clash = true; }
    long k = o.in(1);
    bool threw = false;
    if (k > 0) seam::alloc_arm(k);
    try { C.addClusters(v); } catch (const exception&) { threw = true; }
    bool fired = seam::alloc_disarm();
    if (clash && !threw) violate("registry.duplicate", "adding clusters of which one is stored already is not refused");
    if (!clash && threw && !fired) violate("registry.add-refused", "adding new clusters is refused");
    // each wholly there or wholly absent
    size_t j = 0;
    for (auto& c : v) {
      int id = c.getId();
      if (mc.count(id)) continue;
      if (j >= mv.size()) break;
      // (the models are in the order of the new clusters)
      MCl m = mv[j++];
      if (C.exist(id)) mc[id] = m;
      else if (!threw) violate("registry.lost", "a cluster was added but is not there");
    }
    checkClusters("adding several clusters");
  }
  void useCluster(const Op& o) {
    if (mc.empty()) return;
    auto it = mc.begin();
    advance(it, (unsigned)o.in(0) % mc.size());
    int id = it->first;
    MCl& m = it->second;
    switch ((unsigned)o.in(1) % 4) {
      case 0: C.occupy(id); ++m.occ; break;
      case 1: if (m.occ) { C.vacate(id); --m.occ; } break;
      case 2: {
        C.getCluster(id).setResolution(2 + (unsigned)o.in(2) % 50);
        m.res = 2 + (unsigned)o.in(2) % 50;
        m.inc = m.T / m.res;
        break;
      }
      default: {
        // the residence time asked of the registry is the one of the cluster stored
        Cluster c = C.getCluster(id);
        int w = o.in(2);
        double x = c.getDwellTime(w), y = C.getDwellTime(w, id), z = c.getDwellTime(w + 1), q = C.getDwellTime(w + 1, id);
        if (x != y || z != q || !(x > 0)) violate("registry.dwell", "the registry gives residence times %g, %g for a cluster, the cluster itself %g, %g", y, q, x, z);
        C.getCluster(id).removeWalker(w, *m.members.begin());
        C.getCluster(id).removeWalker(w + 1, *m.members.begin());
        C.getCluster(id).occupy(*m.members.begin());
        C.getCluster(id).vacate(*m.members.begin());
      }
    }
    checkClusters("using a cluster");
  }
  void readd(const Op& o) {
    if (graveyard.empty()) return;
    auto it = graveyard.begin();
    advance(it, (unsigned)o.in(0) % graveyard.size());
    try { C.addCluster(it->second.first); } catch (const exception& e) { violate("registry.add-refused", "an erased cluster cannot be added again: %s", e.what()); }
    mc[it->first] = it->second.second;
    graveyard.erase(it);
    checkClusters("adding an erased cluster again");
  }
  void addCluster(const Op& o) {
    Cluster c;
    MCl m;
    makeCluster((uint64_t)o.at(0), c, m);
    long k = o.in(1);
    bool bad = false, other = false;
    if (k > 0) seam::alloc_arm(k);
    try { C.addCluster(c); } catch (const bad_alloc&) { bad = true; } catch (const exception&) { other = true; }
    bool fired = seam::alloc_disarm();
    if (other) violate("registry.add-refused", "adding a new cluster is refused");
    if (bad) {
      if (!fired) violate("registry.error", "adding a cluster fails without cause");
      checkClusters("an addition of a cluster that ran out of memory");
      if (C.exist(c.getId())) violate("registry.phantom", "a cluster whose addition failed is reported as stored");
      try { C.addCluster(c); } catch (const exception& e) { violate("registry.retry", "after an addition that ran out of memory the cluster cannot be added: %s", e.what()); }
      bump(CNT_update_retried);
    }
    mc[c.getId()] = m;
    checkClusters("adding a cluster");
    Cluster d = c;
    bool threw = false;
    try { C.addCluster(d); } catch (const exception&) { threw = true; }
    if (!threw) violate("registry.duplicate", "adding a cluster twice is not refused");
    bump(CNT_fault_rejected_call);
    checkClusters("a refused addition of a cluster");
  }
  void missCluster(int d) {
    int id = (mc.empty() ? 5 : mc.rbegin()->first) + 1 + abs(d % 50);
    if (d % 3 == 0) id = -3;
    if (d % 3 == 1 && !erased.empty()) { auto e = erased.begin(); advance(e, (unsigned)d % erased.size()); id = *e; }
    if (mc.count(id)) return;
    refuse("getting cluster", id, [&] { C.getCluster(id); });
    refuse("asking for occupancy of cluster", id, [&] { C.isOccupied(id); });
    refuse("vacating cluster", id, [&] { C.vacate(id); });
    refuse("occupying cluster", id, [&] { C.occupy(id); });
    refuse("asking for a residence time in cluster", id, [&] { C.getDwellTime(1, id); });
    refuse("asking for the time constant of cluster", id, [&] { C.getTimeConstant(id); });
    refuse("asking for the fastest rate off cluster", id, [&] { C.getFastestRateOffCluster(id); });
    refuse("asking for neighbours of cluster", id, [&] { C.getSiteIdsOfNeighbors(id); });
    if (C.exist(id)) violate("registry.phantom", "a cluster that was never added is reported as stored");
    try { C.erase(id); } catch (const exception&) {}
    checkClusters("asking for a cluster that is not stored");
  }
  void eraseCluster(int k) {
    if (mc.empty()) return;
    auto it = mc.begin();
    advance(it, (unsigned)k % mc.size());
    int id = it->first;
    Cluster kept = C.getCluster(id);
    graveyard[id] = {kept, it->second};
    C.erase(id);
    mc.erase(it);
    erased.insert(id);
    if (C.exist(id)) violate("registry.erase", "an erased cluster is still there");
    checkClusters("erasing a cluster");
  }

  // ------------------------------------------------------------ rate checks
  void checkRates(const char* after) {
    bump(CNT_oracle_evals);
    map<int, int> in, out;
    set<int> src, snk;
    for (auto& kv : mr) { ++out[kv.first.first]; ++in[kv.first.second]; }
    for (auto& kv : out) if (!in.count(kv.first)) src.insert(kv.first);
    for (auto& kv : in) if (!out.count(kv.first)) snk.insert(kv.first);
    auto a = Rt.getSourceSiteIds(), b = Rt.getSinkSiteIds();
    if (set<int>(a.begin(), a.end()) != src || a.size() != src.size()) violate("registry.rate-sources", "after %s %zu sites are listed as sources, %zu expected (or different ones)", after, a.size(), src.size());
    if (set<int>(b.begin(), b.end()) != snk || b.size() != snk.size()) violate("registry.rate-sinks", "after %s %zu sites are listed as sinks, %zu expected (or different ones)", after, b.size(), snk.size());
    for (int k = 0; k < U; ++k) {
      int i = ID(k);
      if (Rt.incomingRateCount(i) != (size_t)(in.count(i) ? in[i] : 0)) violate("registry.rate-count", "after %s %zu rates to site %d are counted, %d expected", after, Rt.incomingRateCount(i), i, in.count(i) ? in[i] : 0);
      if (Rt.outgoingRateCount(i) != (size_t)(out.count(i) ? out[i] : 0)) violate("registry.rate-count", "after %s %zu rates from site %d are counted, %d expected", after, Rt.outgoingRateCount(i), i, out.count(i) ? out[i] : 0);
      auto om = Rt.getOutgoingRates(i);
      auto im = Rt.getIncomingRates(i);
      size_t no = 0, ni = 0;
      for (auto& s : om) for (auto& n : s.second) { ++no; auto it = mr.find({s.first, n.first}); if (s.first != i || it == mr.end() || it->second != n.second) violate("registry.rate-listing", "after %s the rates from %d list %d->%d wrongly", after, i, s.first, n.first); }
      for (auto& s : im) for (auto& n : s.second) { ++ni; auto it = mr.find({s.first, n.first}); if (n.first != i || it == mr.end() || it->second != n.second) violate("registry.rate-listing", "after %s the rates to %d list %d->%d wrongly", after, i, s.first, n.first); }
      if (no != (size_t)(out.count(i) ? out[i] : 0) || ni != (size_t)(in.count(i) ? in[i] : 0)) violate("registry.rate-listing", "after %s the listing of rates from or to %d is incomplete", after, i);
      if (!out.count(i) && !om.empty()) violate("registry.rate-listing", "after %s site %d, which has no rates, is listed", after, i);
    }
    for (auto& kv : mr) if (Rt.getRate(kv.first.first, kv.first.second) != kv.second) violate("registry.rate-changed", "after %s the rate %d->%d is not the one added", after, kv.first.first, kv.first.second);
    // and again: the reads above must not have changed anything
    auto a2 = Rt.getSourceSiteIds(), b2 = Rt.getSinkSiteIds();
    if (a2.size() != a.size() || b2.size() != b.size()) violate("registry.lookup-creates", "counting and listing rates changed the sources (%zu to %zu) or sinks (%zu to %zu)", a.size(), a2.size(), b.size(), b2.size());
  }
  double* newRate(double v) { store.emplace_back(new double(v)); return store.back().get(); }
  void addRate(const Op& o) {
    int a = ID(o.in(0)), b = ID(o.in(1));
    long k = o.in(2);
    double* v = newRate(1 + a + 100.0 * b);
    bool dup = mr.count({a, b}), bad = false, other = false;
    if (k > 0) seam::alloc_arm(k);
    try { Rt.addRate(a, b, v); } catch (const bad_alloc&) { bad = true; } catch (const exception&) { other = true; }
    bool fired = seam::alloc_disarm();
    if (dup) {
      if (!other && !(bad && fired)) violate("registry.duplicate", "adding the rate %d->%d twice is not refused", a, b);
      bump(CNT_fault_rejected_call);
      checkRates("a refused addition of a rate");
      return;
    }
    if (other) violate("registry.add-refused", "adding the new rate %d->%d is refused", a, b);
    if (bad) {
      if (!fired) violate("registry.error", "adding a rate fails without cause");
      checkRates("an addition of a rate that ran out of memory");
      try { Rt.addRate(a, b, v); } catch (const exception& e) { violate("registry.retry", "after an addition that ran out of memory the rate cannot be added: %s", e.what()); }
      bump(CNT_update_retried);
    }
    mr[{a, b}] = v;
    checkRates("adding a rate");
  }
  void addRates(const Op& o) {
    Rng r((uint64_t)o.at(0));
    Rate_Map m;
    map<pair<int, int>, double*> want;
    int n = r.range(1, 7);
    bool clash = false;
    for (int i = 0; i < n; ++i) {
      int a = ID(r.below(U)), b = ID(r.below(U));
      if (r.chance(0.6)) a = ID(r.below(4));
      double* v = newRate(r.uni());
      m[a][b] = v;
      want[{a, b}] = v;
    }
    for (auto& kv : want) if (mr.count(kv.first)) clash = true;
    long k = o.in(1);
    bool threw = false;
    {
      Rate_Map arg = m;
      if (k > 0) seam::alloc_arm(k);
      try { Rt.addRates(arg); } catch (const exception&) { threw = true; }
    }
    bool fired = seam::alloc_disarm();
    if (clash && !threw) violate("registry.duplicate", "adding rates of which one is stored already is not refused");
    if (!clash && threw && !fired) violate("registry.add-refused", "adding new rates is refused");
    for (auto& kv : want) {
      if (mr.count(kv.first)) continue;
      auto om = Rt.getOutgoingRates(kv.first.first);
      bool there = om.count(kv.first.first) && om[kv.first.first].count(kv.first.second);
      if (there) mr[kv.first] = kv.second;
      else if (!threw) violate("registry.lost", "rate %d->%d was added but is not there", kv.first.first, kv.first.second);
    }
    checkRates("adding several rates");
  }
  void missRate(const Op& o) {
    int a = ID(o.in(0)), b = ID(o.in(1));
    if (mr.count({a, b})) return;
    refuse("getting a rate", a, [&] { Rt.getRate(a, b); });
    checkRates("asking for a rate that is not stored");
    if (!mr.empty()) {
      int x = mr.begin()->first.first;
      if (!mr.count({x, b})) {
        refuse("getting a rate from a known site", x, [&] { Rt.getRate(x, b); });
        checkRates("asking for a rate that is not stored");
      }
    }
  }
  void step(const Op& o) {
    const string& n = o.name;
    if (n == "site") addSite(o);
    else if (n == "sites") addSites(o);
    else if (n == "nosite") missSite(o.in(0));
    else if (n == "rsite") readSites((uint64_t)o.at(0));
    else if (n == "use") touchSite(o);
    else if (n == "cl") addCluster(o);
    else if (n == "nocl") missCluster(o.in(0));
    else if (n == "ercl") eraseCluster(o.in(0));
    else if (n == "cls") addClusters(o);
    else if (n == "usecl") useCluster(o);
    else if (n == "recl") readd(o);
    else if (n == "rate") addRate(o);
    else if (n == "rates") addRates(o);
    else if (n == "norate") missRate(o);
    else { bump(CNT_skipped_ops); return; }
    bump(CNT_registry_ops);
    bump(CNT_steps);
    uint64_t h = 7;
    for (auto& kv : ms) h = h * 31 + (uint64_t)kv.first * 4 + kv.second.occ;
    for (auto& kv : mr) h = h * 37 + (uint64_t)kv.first.first * 64 + (uint64_t)kv.first.second;
    h = h * 41 + mc.size();
    state(h);
    hashv(h);
  }
};
void run_registry(const Plan& p) {
  RegWorld w;
  w.mode = p.ci("idmode");
  int i = 0;
  for (auto& o : p.ops) {
    R->op_index = i++;
    w.step(o);
  }
  R->sim_time += p.ops.size();
}
Plan gen_registry(const string& prop, uint64_t seed, int tier) {
  Plan p;
  p.prop = prop;
  p.world = "registry";
  p.seed = seed;
  Rng r(seed ^ 0x7265670a);
  int n = r.range(4, tier ? 120 : 50);
  bool oom = r.chance(0.7);
  int span = r.chance(0.5) ? 8 : 40;
  p.cfg["idmode"] = r.below(5);
  double wS = r.chance(0.7), wC = r.chance(0.6), wR = r.chance(0.7);
  if (wS + wC + wR == 0) wS = 1;
  auto fail = [&](int hi) { return oom && r.chance(0.5) ? (double)r.range(1, r.chance(0.5) ? 4 : hi) : 0.0; };
  while ((int)p.ops.size() < n) {
    int g = r.below(3), x = r.below(100);
    if (g == 0 && wS) {
      if (x < 40) p.add("site", {(double)r.below(span), (double)r.below(100000), fail(20)});
      else if (x < 55) p.add("sites", {(double)r.below(1000000), fail(50)});
      else if (x < 75) p.add("nosite", {(double)r.below(40)});
      else if (x < 85) p.add("rsite", {(double)r.below(100000)});
      else p.add("use", {(double)r.below(40), (double)r.below(3), (double)r.below(10)});
    } else if (g == 1 && wC) {
      if (x < 30) p.add("cl", {(double)r.below(100000), fail(120)});
      else if (x < 40) p.add("cls", {(double)r.below(1000000), fail(300)});
      else if (x < 60) p.add("nocl", {(double)r.below(100)});
      else if (x < 80) p.add("usecl", {(double)r.below(100), (double)r.below(4), (double)r.below(1000)});
      else if (x < 85) p.add("recl", {(double)r.below(100)});
      else p.add("ercl", {(double)r.below(100)});
    } else if (g == 2 && wR) {
      if (x < 45) p.add("rate", {(double)r.below(span), (double)r.below(span), fail(6)});
      else if (x < 70) p.add("rates", {(double)r.below(1000000), fail(30)});
      else p.add("norate", {(double)r.below(40), (double)r.below(40)});
    }
  }
  return p;
}

// ==================================================================== place
using charge_transport::BoundarySetting;
using charge_transport::Cuboid;

struct Lat {
  int L, W, H;
  bool px, py, pz;
  unique_ptr<Cuboid> c;
  map<pair<int, int>, vector<int>> drawn;  // (plane, index) -> sites in order
  vector<int> seq;
};
static Cuboid::Plane planeOf(int k) { return k == 0 ? Cuboid::Plane::XY : k == 1 ? Cuboid::Plane::YZ : Cuboid::Plane::XZ; }

static void placeOnce(const Plan& p, vector<Lat>& lats, int only, bool strange) {
  for (auto& o : p.ops)
    if (o.name == "lat") {
      Lat l;
      l.L = max(1, o.in(0)); l.W = max(1, o.in(1)); l.H = max(1, o.in(2));
      l.px = o.in(4) != 0; l.py = o.in(5) != 0; l.pz = o.in(6) != 0;
      double d = o.at(3, 1) > 0 ? o.at(3, 1) : 1;
      auto b = [](bool x) { return x ? BoundarySetting::Periodic : BoundarySetting::Fixed; };
      if (!l.px && !l.py && !l.pz && o.in(7)) l.c.reset(o.in(7) == 1 ? new Cuboid(l.L, l.W, l.H) : new Cuboid(l.L, l.W, l.H, d));
      else l.c.reset(new Cuboid(l.L, l.W, l.H, d, b(l.px), b(l.py), b(l.pz)));
      lats.push_back(move(l));
    }
  int idx = -1;
  Rng jr(p.seed + 3);
  for (auto& o : p.ops) {
    ++idx;
    if (o.name != "draw" || lats.empty()) continue;
    R->op_index = idx;
    int li = (unsigned)o.in(0) % lats.size();
    if (only >= 0 && li != only) continue;
    if (strange) { seam::clock_jump((long long)((jr.uni() - 0.5) * 1e18)); bump(CNT_fault_clock_jump); }
    Lat& l = lats[li];
    int k = (unsigned)o.in(1) % 3, at = o.in(2), n = max(1, min(20000, o.in(3)));
    int ext = k == 0 ? l.H : k == 1 ? l.L : l.W;
    bool per = k == 0 ? l.pz : k == 1 ? l.px : l.py;
    bool outside = at < 0 || at >= ext;
    for (int i = 0; i < n; ++i) {
      int s = -1;
      bool refused = false;
      try { s = l.c->getRandomSite(planeOf(k), at); } catch (const invalid_argument&) { refused = true; }
      bump(CNT_placements);
      bump(CNT_steps);
      if (refused) {
        if (!outside) violate("place.refused", "plane %d of a %dx%dx%d lattice (kind %d) is refused", at, l.L, l.W, l.H, k);
        bump(CNT_fault_rejected_call);
        break;
      }
      if (outside && !per) violate("place.not-refused", "plane %d, outside a non-periodic extent of %d, is not refused", at, ext);
      if (s < 0 || s >= l.L * l.W * l.H) violate("place.outside", "site %d is not in a %dx%dx%d lattice", s, l.L, l.W, l.H);
      // position by definition: x fastest, then y, then z
      int x = s % l.L, y = s / l.L % l.W, z = s / (l.L * l.W);
      int coord = k == 0 ? z : k == 1 ? x : y, want = ((at % ext) + ext) % ext;
      if (coord != want) violate("place.plane", "asked for plane %d (kind %d) of a %dx%dx%d lattice, got site %d at (%d,%d,%d)", at, k, l.L, l.W, l.H, s, x, y, z);
      int u = k == 1 ? y : x, v = k == 0 ? y : z, nu = k == 1 ? l.W : l.L;
      l.drawn[{k, want}].push_back(v * nu + u);
      l.seq.push_back(s);
      hashv(s);
      if (i < 8) state((uint64_t)s * 31 + k * 7 + at * 1009 + l.L * 100003ull + l.W * 10000019ull + l.H * 1000000007ull);
    }
  }
}
void run_place(const Plan& p) {
  vector<Lat> a;
  placeOnce(p, a, -1, false);
  for (auto& l : a)
    for (auto& kv : l.drawn) {
      int k = kv.first.first;
      int nu = k == 1 ? l.W : l.L, nv = k == 0 ? l.W : l.H, cells = nu * nv;
      vector<double> cnt(cells, 0);
      for (int s : kv.second) cnt[s] += 1;
      double n = kv.second.size(), st, lim;
      bump(CNT_oracle_evals);
      if (n >= 10.0 * cells && cells > 1) {
        if (!chi2_ok(cnt, vector<double>(cells, 1.0 / cells), &st, &lim)) violate("place.uniform", "sites of a plane (kind %d) of a %dx%dx%d lattice are not drawn equally often (chi2 %.1f > %.1f over %g)", k, l.L, l.W, l.H, st, lim, n);
        // each line of the plane, each site at all
        for (int i = 0; i < cells; ++i) if (cnt[i] == 0 && n > 30.0 * cells) violate("place.never", "a site of the plane is never drawn in %g draws", n);
        vector<double> cu(nu, 0), cv(nv, 0);
        for (int i = 0; i < cells; ++i) { cu[i % nu] += cnt[i]; cv[i / nu] += cnt[i]; }
        if (nu > 1 && !chi2_ok(cu, vector<double>(nu, 1.0 / nu), &st, &lim)) violate("place.uniform", "first coordinate in the plane is not uniform (chi2 %.1f > %.1f)", st, lim);
        if (nv > 1 && !chi2_ok(cv, vector<double>(nv, 1.0 / nv), &st, &lim)) violate("place.uniform", "second coordinate in the plane is not uniform (chi2 %.1f > %.1f)", st, lim);
      }
      // successive draws
      if (cells > 1 && cells <= 16 && n >= 20.0 * cells * cells) {
        vector<double> pr(cells * cells, 0);
        for (size_t i = 1; i < kv.second.size(); i += 2) pr[kv.second[i - 1] * cells + kv.second[i]] += 1;
        if (!chi2_ok(pr, vector<double>(cells * cells, 1.0 / (cells * cells)), &st, &lim)) violate("place.serial", "a draw depends on the one before (chi2 %.1f > %.1f)", st, lim);
      }
    }
  // what other lattices and the clock do makes no difference
  uint64_t h = R->hash;
  for (size_t i = 0; i < a.size() && i < 3; ++i) {
    vector<Lat> b;
    placeOnce(p, b, (int)i, true);
    if (b[i].seq != a[i].seq) violate("place.company", "the sites drawn from a lattice differ when other lattices are not used (or the clock is another)");
    bump(CNT_fault_foreign_system);
  }
  R->hash = h;
  R->sim_time += p.ops.size();
}
Plan gen_place(const string& prop, uint64_t seed, int tier) {
  Plan p;
  p.prop = prop;
  p.world = "place";
  p.seed = seed;
  Rng r(seed ^ 0x706c6163);
  int nl = r.range(1, 3);
  vector<vector<int>> d;
  vector<vector<int>> per;
  for (int i = 0; i < nl; ++i) {
    int m = r.chance(0.7) ? 6 : 14;
    vector<int> x{r.range(1, m), r.range(1, m), r.range(1, m)};
    if (r.chance(0.15)) {  // a rod or a sheet
      x[r.below(3)] = r.range(15, 60);
      x[r.below(3)] = r.range(1, 2);
    }
    vector<int> q{r.below(2), r.below(2), r.below(2)};
    if (r.chance(0.3)) q = {0, 0, 0};
    d.push_back(x);
    per.push_back(q);
    p.add("lat", {(double)x[0], (double)x[1], (double)x[2], r.logu(0.1, 10), (double)q[0], (double)q[1], (double)q[2], (double)r.below(3)});
  }
  int n = r.range(3, 14);
  for (int i = 0; i < n; ++i) {
    int l = r.below(nl), k = r.below(3);
    int ext = k == 0 ? d[l][2] : k == 1 ? d[l][0] : d[l][1];
    int cells = d[l][0] * d[l][1] * d[l][2] / ext;
    int at = r.below(ext);
    if (r.chance(0.2)) at = r.chance(0.5) ? r.range(-ext, -1) : r.range(ext, 2 * ext + 1);
    if (r.chance(0.07)) at = r.range(-1000, 1000);
    if (r.chance(0.02)) at = r.chance(0.5) ? numeric_limits<int>::min() + r.below(3) : numeric_limits<int>::max() - r.below(3);
    p.add("draw", {(double)l, (double)k, (double)at, (double)(r.chance(0.4) ? min(15000, (tier ? 120 : 60) * cells + 20) : r.range(1, 5))});
    if (cells <= 9 && r.chance(0.4)) p.add("draw", {(double)l, (double)k, (double)r.below(ext), (double)min(20000, 60 * cells * cells)});
  }
  return p;
}

}  // namespace sim
