From a87cbf97afb1d5297a7563f388ea13fa7f947763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:37 +0000
Subject: [PATCH 01/25] fix: clear a cluster's cumulative probabilities before
 recalculating them

They were appended to on every update, so that a cluster that was updated
more than once kept choosing sites by its first set of probabilities.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index c813414..fec7b8d 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -607,6 +607,7 @@ void Cluster::calculateProbabilityHopToInternalSite_() {
         return x.second>y.second;
       });
 
+  cumulitive_probabilityHopToInternalSite_.clear();
   total = 0.0;
   for(pair<int,double> site_and_prob : probabilityHopToInternalSite_){
     site_and_prob.second+=total;
@@ -659,6 +660,7 @@ void Cluster::calculateProbabilityHopToNeighbors_() {
         return x.second>y.second;
       });
 
+  cumulitive_probabilityHopToNeighbor_.clear();
   total = 0.0;
   for(pair<int,double>  site_and_prob : probabilityHopToNeighbor_){
     site_and_prob.second+=total;
-- 
2.43.0


From 60c4fb0ba7dd72a7bcad97539517ad4dfc51ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:04 +0000
Subject: [PATCH 02/25] fix: forget the remaining sojourn of a walker removed
 from a cluster

removeWalkerCluster_ was never installed, so a walker with the same id that
came back to the cluster continued the sojourn of the removed one.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index fec7b8d..8a6370d 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -63,6 +63,7 @@ Cluster::Cluster() : TopologyFeature() {
   vacate_siteId_ptr_ = vacateCluster_;
   isOccupied_siteId_ptr_ = isOccupiedCluster_;
 
+  remove_ptr_ = removeWalkerCluster_;
 }
 
 void Cluster::addSite(Site& newSite) {
-- 
2.43.0


From 2c54596c56fce6405842add405fba8930d172f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:04 +0000
Subject: [PATCH 03/25] fix: report a cluster as occupied when a walker is on
 one of its sites

Arrivals on a site of a cluster were not counted by the cluster but departures
were, so the count went negative and the cluster never reported itself
occupied.
---
 .../src/libmythical/topologyfeatures/cluster.cpp      | 11 ++++++++++-
 .../src/libmythical/topologyfeatures/cluster.hpp      |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 8a6370d..b6d20d4 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -32,6 +32,15 @@ void occupyCluster_(TopologyFeature* feature, const int& siteId){
   site.setToOccupiedStatus(); 
 }
 
+bool isOccupiedCluster_(TopologyFeature* feature){
+  auto cluster = static_cast<Cluster *>(feature);
+  if(cluster->occupied_>0) return true;
+  for(auto & site : cluster->sitesInCluster_){
+    if(site.second.isOccupied()) return true;
+  }
+  return false;
+}
+
 bool isOccupiedCluster_(TopologyFeature* feature,const int& siteId){
   auto cluster = static_cast<Cluster *>(feature);
   assert(cluster->sitesInCluster_.count(siteId));
@@ -41,7 +50,6 @@ bool isOccupiedCluster_(TopologyFeature* feature,const int& siteId){
 void vacateCluster_(TopologyFeature* feature,const int& siteId){
   auto cluster = static_cast<Cluster *>(feature);
   cluster->sitesInCluster_[siteId].vacate();
-  cluster->vacate();
 }
 
 void removeWalkerCluster_(TopologyFeature * feature,const int & walker_id){
@@ -61,6 +69,7 @@ Cluster::Cluster() : TopologyFeature() {
 
   occupy_siteId_ptr_ = occupyCluster_;
   vacate_siteId_ptr_ = vacateCluster_;
+  isOccupied_ptr_ = isOccupiedCluster_;
   isOccupied_siteId_ptr_ = isOccupiedCluster_;
 
   remove_ptr_ = removeWalkerCluster_;
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
index d5b4cb0..72d8b8b 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
@@ -469,6 +469,7 @@ class Cluster : public TopologyFeature {
 
     friend void occupyCluster_(TopologyFeature*,const int&);
     friend void vacateCluster_(TopologyFeature*,const int&);
+    friend bool isOccupiedCluster_(TopologyFeature*);
     friend bool isOccupiedCluster_(TopologyFeature*,const int&);
     friend void removeWalkerCluster_(TopologyFeature *,const int&);
   };
-- 
2.43.0


From dde90751a71f9140b0c2abb5a7d999a1ebdc8710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:04 +0000
Subject: [PATCH 04/25] fix: occupy the site a walker is placed on, also within
 a cluster

Placing a walker on a site that belongs to a cluster occupied the cluster as a
whole but not the site, which then admitted a second walker.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 5c3693d..9e44ad7 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -165,7 +165,7 @@ namespace mythical {
           "within the rates parameter.";
         throw runtime_error(error_msg);
       }
-      topology_features_[siteId]->occupy();
+      topology_features_[siteId]->occupy(siteId);
 
       auto hopTime = topology_features_[siteId]->getDwellTime(walkers.at(index).first);
       int newId = topology_features_[siteId]->pickNewSiteId(walkers.at(index).first);
-- 
2.43.0


From 3a59a31f58d068e81566570636fd3ea79061635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:04 +0000
Subject: [PATCH 05/25] fix: always pick an existing site when the cumulative
 probability is below one

By rounding the probabilities can add up to slightly less than one. A random
number above their sum sent the walker to site -1.
---
 .../src/libmythical/topologyfeatures/cluster.cpp          | 8 ++++++++
 .../src/libmythical/topologyfeatures/site.cpp             | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index b6d20d4..e8e0007 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -450,6 +450,10 @@ int Cluster::pickClusterNeighbor_(const int & walker_id) {
   }
   assert("Cummulitive probability distribution is flawed or random "
       "number is greater than 1");
+  // Rounding can leave the cumulative probability just below 1
+  if(!cumulitive_probabilityHopToNeighbor_.empty()) {
+    return cumulitive_probabilityHopToNeighbor_.back().first;
+  }
   return -1;
 }
 
@@ -463,6 +467,10 @@ int Cluster::pickInternalSite_() {
   }
   assert("cumulitive probability distribution of sites in the cluster "
     "is flawed or random number is greater than 1");
+  // Rounding can leave the cumulative probability just below 1
+  if(!cumulitive_probabilityHopToInternalSite_.empty()) {
+    return cumulitive_probabilityHopToInternalSite_.back().first;
+  }
   return -1;
 }
 
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
index 9c7106e..af991cf 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
@@ -104,6 +104,8 @@ int Site::pickNewSiteId() {
   assert("Error cummulitive probability distribution is flawed or "
       " the random number generator has calculated a value greater than 1, or"
       " the site has no neighbors");
+  // Rounding can leave the cumulative probability just below 1
+  if(!probabilityHopToNeighbor_.empty()) return probabilityHopToNeighbor_.back().first;
   return -1;
 }
 
-- 
2.43.0


From 95eb09a74605fa0a86d61759f426a586c2b1c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:04 +0000
Subject: [PATCH 06/25] fix: never return an infinite dwell time

The uniform distribution includes 0.0, for which the logarithm is infinite.
---
 .../src/libmythical/topologyfeatures/topology_feature.cpp       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
index 00e5a38..7f4635a 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
@@ -63,6 +63,8 @@ namespace mythical {
 
   double TopologyFeature::getDwellTime(const int & ){
     double number = random_distribution_(random_engine_);
+    // The logarithm of 0 would give an infinite dwell time
+    while(number<=0.0) number = random_distribution_(random_engine_);
     return (-1.0)*log(number) * escape_time_constant_;
   }
 
-- 
2.43.0


From 117ed72cc252a17741cbf9c7987d530e54cb585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:04 +0000
Subject: [PATCH 07/25] fix: re-point every site of a merged cluster to the
 remaining cluster

Only the sites found in the basin were re-pointed, the other sites of the
erased cluster kept a dangling pointer and the id of a cluster that is gone.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 9e44ad7..46d1feb 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -366,6 +366,11 @@ namespace mythical {
     clusters_->getCluster(favoredClusterId).addSites(isolated_sites);
     clusters_->getCluster(favoredClusterId).updateProbabilitiesAndTimeConstant();
     for(auto clusterId : cluster_ids ){
+      // All sites of the cluster move, not only those found in the basin
+      for(auto siteId : clusters_->getCluster(clusterId).getSiteIdsInCluster()){
+        topology_features_[siteId] = &(clusters_->getCluster(favoredClusterId));
+        sites_->setClusterId(siteId,favoredClusterId);
+      }
       clusters_->getCluster(favoredClusterId).migrateSitesFrom(clusters_->getCluster(clusterId));
       clusters_->erase(clusterId);
     }
-- 
2.43.0


From dc4852291dc6a44aef1bf0837dc402ce470c1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:37 +0000
Subject: [PATCH 08/25] fix: do not create sites or rates by asking for them

getRate, outgoingRateCount and getSmallestClusterId inserted an empty entry for
an unknown id; getRate returned a null pointer when only the neighbor was
unknown.
---
 CoarseGrainSites/src/libmythical/rate_container.cpp | 11 +++++------
 CoarseGrainSites/src/libmythical/site_container.cpp |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index e0f72c4..df01d92 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -31,12 +31,10 @@ namespace mythical {
   }
 
   double * Rate_Container::getRate(int siteId, int neighId) {
-    if(rates_.count(siteId)==0){
-      if(rates_[siteId].count(neighId)==0){
-        throw invalid_argument("Cannot retrieve rate as it has not been added.");
-      }
+    if(rates_.count(siteId)==0 || rates_.at(siteId).count(neighId)==0){
+      throw invalid_argument("Cannot retrieve rate as it has not been added.");
     }
-    return rates_[siteId][neighId];
+    return rates_.at(siteId).at(neighId);
   }
 
   size_t Rate_Container::incomingRateCount(int siteId) {
@@ -46,7 +44,8 @@ namespace mythical {
   }
 
   size_t Rate_Container::outgoingRateCount(int siteId) {
-    return rates_[siteId].size();
+    if(rates_.count(siteId)==0) return 0;
+    return rates_.at(siteId).size();
   }
 
   Rate_Map Rate_Container::getIncomingRates(int siteId) {
diff --git a/CoarseGrainSites/src/libmythical/site_container.cpp b/CoarseGrainSites/src/libmythical/site_container.cpp
index 0866e21..bc975ad 100644
--- a/CoarseGrainSites/src/libmythical/site_container.cpp
+++ b/CoarseGrainSites/src/libmythical/site_container.cpp
@@ -66,7 +66,7 @@ namespace mythical {
     LOG("Getting the favored cluster Id", 1);
     int favoredClusterId = constants::unassignedId;
     for (auto siteId : siteIds) {
-      int clusterId = sites_[siteId].getClusterId();
+      int clusterId = getClusterIdOfSite(siteId);
       if (favoredClusterId == constants::unassignedId) {
         favoredClusterId = clusterId;
       } else if (clusterId != constants::unassignedId &&
-- 
2.43.0


From 4ea2db848e01de7c0be90e7fa373930dd4f187da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:37 +0000
Subject: [PATCH 09/25] fix: leave no half-added entry behind when an addition
 runs out of memory

An empty site, cluster or rate table was inserted first and filled afterwards;
if filling it failed the empty entry stayed and could not be replaced.
---
 .../src/libmythical/cluster_container.cpp           |  2 +-
 CoarseGrainSites/src/libmythical/rate_container.cpp | 13 ++++++++-----
 CoarseGrainSites/src/libmythical/site_container.cpp |  2 +-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/cluster_container.cpp b/CoarseGrainSites/src/libmythical/cluster_container.cpp
index 431cbc5..cfe1cac 100644
--- a/CoarseGrainSites/src/libmythical/cluster_container.cpp
+++ b/CoarseGrainSites/src/libmythical/cluster_container.cpp
@@ -12,7 +12,7 @@ namespace mythical {
       throw invalid_argument("Cannot add cluster as it is already stored in the"
           " container.");
     }
-    clusters_[cluster.getId()]=cluster; 
+    clusters_.insert(make_pair(cluster.getId(),cluster));
   }
 
   void Cluster_Container::addClusters(vector<Cluster>& clusters){
diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index df01d92..45c6a80 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -9,12 +9,15 @@ using namespace std;
 namespace mythical {
 
   void Rate_Container::addRate(int siteId, int neighId, double * rate){
-    if(rates_.count(siteId)){
-      if(rates_[siteId].count(neighId)){
-        throw invalid_argument("Error the rate has already been added.");
-      }
+    auto iter = rates_.find(siteId);
+    if(iter==rates_.end()){
+      rates_.insert(make_pair(siteId,unordered_map<int,double *>{{neighId,rate}}));
+      return;
+    }
+    if(iter->second.count(neighId)){
+      throw invalid_argument("Error the rate has already been added.");
     }
-    rates_[siteId][neighId]=rate;
+    iter->second.insert(make_pair(neighId,rate));
   }
 
   void Rate_Container::addRates(Rate_Map rates){
diff --git a/CoarseGrainSites/src/libmythical/site_container.cpp b/CoarseGrainSites/src/libmythical/site_container.cpp
index bc975ad..d1c6db8 100644
--- a/CoarseGrainSites/src/libmythical/site_container.cpp
+++ b/CoarseGrainSites/src/libmythical/site_container.cpp
@@ -9,7 +9,7 @@ namespace mythical {
     if(sites_.count(site.getId())){
       throw invalid_argument("Cannot add site it has already been added.");
     }
-    sites_[site.getId()] = site;
+    sites_.insert(make_pair(site.getId(),site));
   }
 
   void Site_Container::addSites(vector<Site>& sites){
-- 
2.43.0


From cbe199803da7172e12f980bb2b751708f1811ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:37 +0000
Subject: [PATCH 10/25] fix: draw the y position of a random site in an xy
 plane from the y range

It was drawn from the z range.
---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 6cc2787..89dbc92 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -312,7 +312,7 @@ namespace mythical {
             throw std::invalid_argument(error_msg);
         }
         x_lattice_pos = distribution_x_(generator_);
-        y_lattice_pos = distribution_z_(generator_);
+        y_lattice_pos = distribution_y_(generator_);
       }
       return getIndex(x_lattice_pos,y_lattice_pos,z_lattice_pos);
     }
-- 
2.43.0


From b781c9c47904ba6c42c5bccb92fe21d327a9ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:22 +0000
Subject: [PATCH 11/25] fix: use the current rates when a cluster is updated

The rates belong to the user and may change, but the probabilities and time
constants cached in the sites of a cluster were never recalculated, so that an
update mixed old and new rates.
---
 .../src/libmythical/topologyfeatures/cluster.cpp             | 2 ++
 CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp   | 5 +++++
 CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp   | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index e8e0007..c39d446 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -96,6 +96,8 @@ void Cluster::updateProbabilitiesAndTimeConstant() {
 
   unordered_map<int,int> temporary_visit_frequencies = getVisitFrequencies_();
 
+  for(auto & site : sitesInCluster_) site.second.updateProbabilitiesAndTimeConstant();
+
   solveMasterEquation_();
   calculateSumOfEscapeRatesFromSitesToTheirNeighbors_();
   calculateSumOfEscapeRatesFromSitesToInternalSites_();
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
index af991cf..2aa7597 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
@@ -65,6 +65,11 @@ void Site::resetNeighRate(const pair<int, double*> neighRate) {
   calculateProbabilityHopToNeighbors_();
 }
 
+void Site::updateProbabilitiesAndTimeConstant() {
+  calculateDwellTimeConstant_();
+  calculateProbabilityHopToNeighbors_();
+}
+
 vector<double> Site::getRateToNeighbors() const {
   vector<double> rates;
   for (auto & rate : neighRates_) rates.push_back(*(rate.second));
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp
index b1c2d96..0206752 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp
@@ -60,6 +60,11 @@ class Site : public TopologyFeature {
    **/
   void resetNeighRate(const std::pair<int, double*> neighRate);
 
+  /**
+   * \brief Recalculate what is derived from the rates, after the rates changed
+   **/
+  void updateProbabilitiesAndTimeConstant();
+
   /**
    * \brief Is the site a neighbor
    *
-- 
2.43.0


From 2c69602450afb73ce9c7bda80d79d7d686155884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:59 +0000
Subject: [PATCH 12/25] fix: count the time on all sites in a cluster's escape
 time constant

Sites without a rate off the cluster were left out, as if no time were spent on
them, and the probabilities to hop off were divided by the sum meant for the
probabilities to hop between sites.
---
 .../libmythical/topologyfeatures/cluster.cpp    | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index c39d446..8322012 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -530,7 +530,7 @@ void Cluster::calculateProbabilityHopBetweenInternalSite_() {
 
   // Normalize
   for(auto site : probabilityHopBetweenInternalSite_){
-    probabilityHopOffInternalSite_[site.first]/=sum_internal;
+    probabilityHopBetweenInternalSite_[site.first]/=sum_internal;
   }
   
 }
@@ -573,18 +573,21 @@ void Cluster::calculateSumOfEscapeRatesFromSitesToInternalSites_() {
   }
   sumOfEscapeRateFromSiteToInternalSite_ = temp;
 }
-// Requires that calculateProbabilityHopOffInternalSites has first been called
+// The mean time before leaving is one over the rate off the cluster averaged over
+// the time spent on each of the sites
 void Cluster::calculateEscapeTimeConstant_() {
   escape_time_constant_ = 0.0;
   if(getRatesToNeighborsOfCluster_().size()==0){
     escape_time_constant_ = constants::unassigned_value;
   }else{
-    for( auto site_prob : probabilityHopOffInternalSite_ ){
-      auto rate_off = sumOfEscapeRateFromSiteToNeighbor_[site_prob.first];
-      if(rate_off>0){
-        escape_time_constant_ += 1.0/rate_off *site_prob.second ;
-      }
+    double time_on_sites = 0.0;
+    double hops_off_sites = 0.0;
+    for( auto & site : sitesInCluster_ ){
+      double time = probabilityOnSite_[site.first]*site.second.getTimeConstant();
+      time_on_sites += time;
+      hops_off_sites += time*sumOfEscapeRateFromSiteToNeighbor_[site.first];
     }
+    escape_time_constant_ = time_on_sites/hops_off_sites;
   }
   time_increment_ = TopologyFeature::escape_time_constant_/resolution_;
 }
-- 
2.43.0


From 9a8ea57ef742783c9c4d9714a99f3319c7ffa85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:32 +0000
Subject: [PATCH 13/25] fix: count the visits of sites in a cluster whatever
 the unit of time and whenever they are read

---
 .../libmythical/topologyfeatures/cluster.cpp  | 51 ++++++++++---------
 .../libmythical/topologyfeatures/cluster.hpp  |  3 +-
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 8322012..53bcf25 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -94,7 +94,8 @@ void Cluster::addSites(vector<Site>& newSites) {
 
 void Cluster::updateProbabilitiesAndTimeConstant() {
 
-  unordered_map<int,int> temporary_visit_frequencies = getVisitFrequencies_();
+  updateSiteVisits_();
+  unordered_map<int,double> previous_site_visits = site_visits_;
 
   for(auto & site : sitesInCluster_) site.second.updateProbabilitiesAndTimeConstant();
 
@@ -109,21 +110,36 @@ void Cluster::updateProbabilitiesAndTimeConstant() {
   site_visits_.clear();
   for( auto site : sitesInCluster_ ){
     site_visits_[site.first] = 0.0;
-    if(temporary_visit_frequencies.count(site.first)){
-      setVisitFrequency(temporary_visit_frequencies[site.first],site.first);
+    if(previous_site_visits.count(site.first)){
+      site_visits_[site.first] = previous_site_visits[site.first];
     }
   }
   calculateInternalDwellTimes_();
 
 }
 
-unordered_map<int,int> Cluster::getVisitFrequencies_(){
-  unordered_map<int,int> frequencies;
+void Cluster::updateSiteVisits_(){
 
-  for(auto site :site_visits_){
-    frequencies[site.first] = getVisitFrequency(site.first);    
+  if(total_visit_freq_!=prev_total_visit_freq_){
+    assert(escape_time_constant_!=constants::unassigned_value);
+    double difference = total_visit_freq_ - prev_total_visit_freq_; 
+    // The last increment of a walker on the cluster is cut short, hence this
+    // is the mean length of an increment
+    double mean_increment = escape_time_constant_*(1.0-exp(-1.0/resolution_));
+    // The fraction of the time spent on a site
+    double total_time = 0.0;
+    for(auto & site_visit : site_visits_){
+      total_time += probabilityOnSite_.at(site_visit.first)*sitesInCluster_.at(site_visit.first).getTimeConstant();
+    }
+    for(auto & site_visit : site_visits_){
+      double fraction = probabilityOnSite_.at(site_visit.first)*sitesInCluster_.at(site_visit.first).getTimeConstant()/total_time;
+      double visits = difference*fraction*mean_increment;
+      visits = visits/internal_dwell_time_.at(site_visit.first);
+      // Not rounded, else the count would depend on when it is read
+      site_visit.second += visits;
+    }
+    prev_total_visit_freq_ = total_visit_freq_;
   }
-  return frequencies;
 }
 
 vector<Site> Cluster::getSitesInCluster() const {
@@ -153,10 +169,10 @@ double Cluster::getProbabilityOfOccupyingInternalSite(const int siteId) {
 
 void Cluster::migrateSitesFrom(Cluster& cluster) {
 
-  unordered_map<int,int> visits;
+  cluster.updateSiteVisits_();
+  unordered_map<int,double> visits = cluster.site_visits_;
   for (auto& site : cluster.sitesInCluster_) {
     site.second.setClusterId(getId());
-    visits[site.first] = cluster.getVisitFrequency(site.first);
   }
 
   move(cluster.sitesInCluster_.begin(),
@@ -179,7 +195,7 @@ void Cluster::migrateSitesFrom(Cluster& cluster) {
   
   // Add the visits back in
   for( auto site : visits){
-    setVisitFrequency(site.second,site.first);
+    site_visits_[site.first] = site.second;
   }
 }
 
@@ -252,18 +268,7 @@ int Cluster::getVisitFrequency(const int & siteId){
       "that you have called the update function and that there exist at least "
       "one rate off the cluster.");
 
-  if(total_visit_freq_!=prev_total_visit_freq_){
-    double difference = total_visit_freq_ - prev_total_visit_freq_; 
-    for(auto site_visit : site_visits_){
-      double visits = static_cast<double>(difference)*probabilityOnSite_[site_visit.first]*sitesInCluster_.at(site_visit.first).getTimeConstant();
-      visits = visits/internal_dwell_time_.at(site_visit.first);
-      visits = escape_time_constant_*visits;
-      visits = visits/resolution_;
-      site_visits_[site_visit.first] += round(visits);
-    }
-    prev_total_visit_freq_ = total_visit_freq_;
-  }
-
+  updateSiteVisits_();
   double visit_count = (site_visits_[siteId]); 
   return static_cast<int>(round(visit_count)); 
 }
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
index 72d8b8b..161fd61 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
@@ -365,7 +365,8 @@ class Cluster : public TopologyFeature {
 
   //void incrementVisits_();
 
-  std::unordered_map<int,int> getVisitFrequencies_();
+  /// Adds the visits since the last call to the visits of each of the sites
+  void updateSiteVisits_();
 
   /// Will solve the Master Equation
   void solveMasterEquation_();
-- 
2.43.0


From a6174947f5461f3f5330d4fe844c7f11cd9b0d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:32 +0000
Subject: [PATCH 14/25] fix: count earlier visits with the resolution they were
 made with

---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
index 161fd61..d9f61e9 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
@@ -178,6 +178,8 @@ class Cluster : public TopologyFeature {
   void setResolution(const double resolution) { 
     // Must be greater than 1
     assert(resolution>=2.0); 
+    // The visits so far were made with the former resolution
+    updateSiteVisits_();
     resolution_ = resolution; 
     time_increment_ = TopologyFeature::escape_time_constant_/static_cast<double>(resolution_);
   }
-- 
2.43.0


From f200279a36295dde442fd8f4d7c66742b4c7318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:12 +0000
Subject: [PATCH 15/25] fix: do not overflow the visit counts of fast clusters

---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp     | 4 +++-
 .../src/libmythical/topologyfeatures/cluster.cpp           | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 46d1feb..687ac51 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -131,7 +131,9 @@ namespace mythical {
     int visits = sites_->getSite(siteId).getVisitFrequency();
     if(sites_->partOfCluster(siteId)){
       int cluster_id = sites_->getClusterIdOfSite(siteId);
-      visits += clusters_->getCluster(cluster_id).getVisitFrequency(siteId);
+      int cluster_visits = clusters_->getCluster(cluster_id).getVisitFrequency(siteId);
+      if(cluster_visits > numeric_limits<int>::max()-visits) return numeric_limits<int>::max();
+      visits += cluster_visits;
     }
     return visits;
   }
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 53bcf25..8d5e7ef 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -2,6 +2,7 @@
 #include <algorithm>
 #include <chrono>
 #include <cmath>
+#include <limits>
 #include <random>
 #include <cassert>
 
@@ -269,8 +270,10 @@ int Cluster::getVisitFrequency(const int & siteId){
       "one rate off the cluster.");
 
   updateSiteVisits_();
-  double visit_count = (site_visits_[siteId]); 
-  return static_cast<int>(round(visit_count)); 
+  double visit_count = round(site_visits_[siteId]); 
+  // The number of visits in a fast cluster can exceed the range of an int
+  if(visit_count>=numeric_limits<int>::max()) return numeric_limits<int>::max();
+  return static_cast<int>(visit_count); 
 }
 
 std::ostream& operator<<(std::ostream& os,
-- 
2.43.0


From d8f1887a21cb4772e068aa2c949d2edeee644759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:26 +0000
Subject: [PATCH 16/25] fix: do not merge all sites into a cluster without a
 way out

---
 .../src/libmythical/coarsegrainsystem.cpp            | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 687ac51..6f69d44 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -264,6 +264,18 @@ namespace mythical {
         createCluster_(basin_site_ids,internal_time_limit);
         return true;
       }else if(number_clusters!=1){
+        // All sites of the clusters are merged, there has to be a way off them
+        unordered_set<int> merged_site_ids(basin_site_ids.begin(),basin_site_ids.end());
+        for(auto site_and_cluster : sites_and_clusters){
+          if(site_and_cluster.second != constants::unassignedId){
+            for(auto siteId : clusters_->getCluster(site_and_cluster.second).getSiteIdsInCluster()){
+              merged_site_ids.insert(siteId);
+            }
+          }
+        }
+        if(getTimeConstantFromSitesToNeighbors_(vector<int>(merged_site_ids.begin(),merged_site_ids.end()))==0.0){
+          return false;
+        }
         // Joint clusters and sites to an existing cluster
         int favored_clusterId = getFavoredClusterId(sites_and_clusters);
         mergeSitesAndClusters_(sites_and_clusters,favored_clusterId);
-- 
2.43.0


From c25c28a4e0cd67854798ad873d1a5920246eafc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:42 +0000
Subject: [PATCH 17/25] fix: find the same basin wherever edges lie in memory

---
 CoarseGrainSites/src/libmythical/basin_explorer.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/basin_explorer.cpp b/CoarseGrainSites/src/libmythical/basin_explorer.cpp
index 4a07888..5a828a1 100644
--- a/CoarseGrainSites/src/libmythical/basin_explorer.cpp
+++ b/CoarseGrainSites/src/libmythical/basin_explorer.cpp
@@ -1,5 +1,5 @@
 
-#include <unordered_set>
+#include <vector>
 
 #include "basin_explorer.hpp"
 #include "graph_library_adapter.hpp"
@@ -10,7 +10,8 @@ using namespace std;
 
 namespace mythical {
 
-  typedef unordered_set<shared_ptr<Edge>> shared_edge_set;
+  // Not a set, the basin must not depend on where the edges lie in memory
+  typedef vector<shared_ptr<Edge>> shared_edge_vec;
   typedef vector<weak_ptr<Edge>> weak_edge_vec;
 
   vector<int> BasinExplorer::findBasin(
@@ -19,7 +20,7 @@ namespace mythical {
       int siteId){
     
     auto edges_store = 
-      convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_set>( sites, siteId);
+      convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_vec>( sites, siteId);
 
     weak_edge_vec edges_weak(edges_store.begin(),edges_store.end());
 
@@ -45,10 +46,10 @@ namespace mythical {
       auto next_vertex = gv_largest_known.chooseTerminalVertex(next_edge);
 
       gv_largest_known.exploreEdge(next_edge);
-      auto edges_tmp = convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_set>( sites, next_vertex);
+      auto edges_tmp = convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_vec>( sites, next_vertex);
       
       weak_edge_vec edges_weak_tmp(edges_tmp.begin(),edges_tmp.end());
-      edges_store.insert(edges_tmp.begin(),edges_tmp.end());
+      edges_store.insert(edges_store.end(),edges_tmp.begin(),edges_tmp.end());
 
       addEdges_(sites,edges_weak_tmp,next_vertex,gv_largest_known);
  
-- 
2.43.0


From 5212d18c1ebeff2eb842832187afe3bec18ad313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:29 +0000
Subject: [PATCH 18/25] fix: stop visit counts at the largest number instead of
 overflowing

---
 .../src/libmythical/topologyfeatures/cluster.cpp         | 9 ++++++++-
 .../libmythical/topologyfeatures/topology_feature.cpp    | 7 +++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 8d5e7ef..ffd93c5 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -29,7 +29,14 @@ void occupyCluster_(TopologyFeature* feature, const int& siteId){
   
   Site & site = cluster->sitesInCluster_[siteId];
   assert(cluster->site_visits_.count(siteId));
-  ++cluster->total_visit_freq_; 
+  if(cluster->total_visit_freq_<numeric_limits<int>::max()){
+    ++cluster->total_visit_freq_; 
+  }else{
+    // Stop at the largest count instead of overflowing, the sites still have to
+    // get their share of the visit
+    cluster->updateSiteVisits_();
+    --cluster->prev_total_visit_freq_;
+  }
   site.setToOccupiedStatus(); 
 }
 
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
index 7f4635a..cfacf19 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
@@ -1,5 +1,6 @@
 
 #include <chrono>
+#include <limits>
 
 #include "topology_feature.hpp"
 
@@ -9,12 +10,14 @@ namespace mythical {
 
   void occupyTopology_(TopologyFeature* feature) {
     ++(feature->occupied_);
-    ++(feature->total_visit_freq_);
+    // Stop at the largest count instead of overflowing
+    if(feature->total_visit_freq_<numeric_limits<int>::max()) ++(feature->total_visit_freq_);
   }
 
   void occupyTopology_(TopologyFeature* feature,const int&) {
     ++(feature->occupied_);
-    ++(feature->total_visit_freq_);
+    // Stop at the largest count instead of overflowing
+    if(feature->total_visit_freq_<numeric_limits<int>::max()) ++(feature->total_visit_freq_);
   }
 
   void vacateTopology_(TopologyFeature* feature){
-- 
2.43.0


From 0b2cf2d89d9a901f8c78595628f368c3030eae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:16 +0000
Subject: [PATCH 19/25] fix: keep the mean length of a step precise for fine
 resolutions

---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index ffd93c5..9b907ca 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -133,7 +133,7 @@ void Cluster::updateSiteVisits_(){
     double difference = total_visit_freq_ - prev_total_visit_freq_; 
     // The last increment of a walker on the cluster is cut short, hence this
     // is the mean length of an increment
-    double mean_increment = escape_time_constant_*(1.0-exp(-1.0/resolution_));
+    double mean_increment = escape_time_constant_*(-expm1(-1.0/resolution_));
     // The fraction of the time spent on a site
     double total_time = 0.0;
     for(auto & site_visit : site_visits_){
-- 
2.43.0


From 39fe35059658c098eee1b0a0bb0eb0aef7a9629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:16 +0000
Subject: [PATCH 20/25] fix: wrap periodic positions more than one lattice
 length below zero

---
 .../charge_transport/cuboid_lattice.cpp       | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 89dbc92..da45fc1 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -155,24 +155,27 @@ namespace mythical {
 
 
     int Cuboid::getXPeriodic_( const int x ) const noexcept{
-      if(x<0){
-        return x+length_;
+      const int remainder = x % length_;
+      if(remainder<0){
+        return remainder+length_;
       }
-      return x % length_;
+      return remainder;
     }
 
     int Cuboid::getYPeriodic_( const int y ) const noexcept{
-      if(y<0){
-        return y+width_;
+      const int remainder = y % width_;
+      if(remainder<0){
+        return remainder+width_;
       }
-      return y % width_;
+      return remainder;
     }
 
     int Cuboid::getZPeriodic_( const int z ) const noexcept{
-      if(z<0){
-        return z+height_;
+      const int remainder = z % height_;
+      if(remainder<0){
+        return remainder+height_;
       }
-      return z % height_;
+      return remainder;
     }
 
     void Cuboid::setDistributions_() {
-- 
2.43.0


From 270481802f13bc64cc3daf8fc755f8a91de60657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:17 +0000
Subject: [PATCH 21/25] fix: place no walker when one of them is on no site of
 the system

---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 6f69d44..676536f 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -167,6 +167,10 @@ namespace mythical {
           "within the rates parameter.";
         throw runtime_error(error_msg);
       }
+    }
+    // None of the walkers is placed unless all of them can be
+    for ( size_t index = 0; index<walkers.size(); ++index){
+      int siteId = walkers.at(index).second->getIdOfSiteCurrentlyOccupying();
       topology_features_[siteId]->occupy(siteId);
 
       auto hopTime = topology_features_[siteId]->getDwellTime(walkers.at(index).first);
-- 
2.43.0


From a14fbd5a29c47efbce454182f8b6cc90056493e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:17 +0000
Subject: [PATCH 22/25] fix: do not let the iteration count and threshold
 overflow

---
 .../src/libmythical/coarsegrainsystem.cpp           | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 676536f..57761ac 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -235,14 +235,15 @@ namespace mythical {
       walker->setPotentialSite(feature->pickNewSiteId(walker_id));
     }
 
+    // Without coarse graining the iterations are not counted, they would overflow
+    if(iteration_threshold_min_==constants::inf_iterations) return;
+
     ++iteration_;
     if(iteration_ > iteration_threshold_){
-      if(iteration_threshold_min_!=constants::inf_iterations){
-        if(coarseGrain_(siteToHopToId)){
-          iteration_threshold_ = iteration_threshold_min_;
-        }else{
-          iteration_threshold_*=2;
-        }
+      if(coarseGrain_(siteToHopToId)){
+        iteration_threshold_ = iteration_threshold_min_;
+      }else if(iteration_threshold_<=numeric_limits<int>::max()/2){
+        iteration_threshold_*=2;
       }
       iteration_ = 0;
     }
-- 
2.43.0


From 88a1f8041c5016d092dbf4107f19ed170bc22d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:07 +0000
Subject: [PATCH 23/25] fix: end the search for probabilities for every
 tolerance

A tolerance of 0 was treated as reached before the first iteration, and one
below the rounding of the probabilities was never reached.
---
 .../libmythical/topologyfeatures/cluster.cpp  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 9b907ca..f7a204b 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -415,9 +415,14 @@ void Cluster::solveMasterEquation_() {
       iterate_();
     }
   } else {
-    double error = convergenceTolerance_ * 1.1;
-
-    while (error > convergenceTolerance_) {
+    // The differences need not vanish because of rounding, so the search also
+    // ends if they have not become smaller for many iterations
+    long patience = 100 + 10 * static_cast<long>(sitesInCluster_.size());
+    long not_smaller = 0;
+    double smallest_error = numeric_limits<double>::infinity();
+    double error;
+
+    do {
       auto oldSiteProbs = probabilityOnSite_;
       iterate_();
       error = 0.0;
@@ -426,7 +431,13 @@ void Cluster::solveMasterEquation_() {
         error += pow(diff, 2.0);
       }
       error = pow(error, 1.0 / 2.0);
-    }
+      if (error < smallest_error) {
+        smallest_error = error;
+        not_smaller = 0;
+      } else {
+        ++not_smaller;
+      }
+    } while (error > convergenceTolerance_ && not_smaller < patience);
   }
   calculateProbabilityHopToInternalSite_();
   calculateProbabilityHopToNeighbors_();
-- 
2.43.0


From fe1b97fd5c47b28fcb6135a69894c525dcc3814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:32 +0000
Subject: [PATCH 24/25] fix: keep the time increment of merged clusters within
 the time resolution

---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 57761ac..40db605 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -394,6 +394,12 @@ namespace mythical {
       clusters_->erase(clusterId);
     }
 
+    // It takes longer to leave the larger cluster, but its time increment is
+    // still not allowed to exceed the time resolution
+    Cluster & cluster = clusters_->getCluster(favoredClusterId);
+    if(cluster.getTimeIncrement() > time_resolution_){
+      cluster.setResolution(cluster.getTimeConstant()/time_resolution_);
+    }
   }
 
   double CoarseGrainSystem::getExternalTimeLimit_(const vector<int> & siteIds ){
-- 
2.43.0


From 309e6ffe74181b646e1f3e64aca0c4a565462fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 25/25] fix: do not seed sites and clusters with the time

Without a seed, sites and clusters created while the clock does not advance
drew the same random numbers.
---
 .../src/libmythical/topologyfeatures/topology_feature.cpp    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
index cfacf19..415682f 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.cpp
@@ -1,5 +1,4 @@
 
-#include <chrono>
 #include <limits>
 
 #include "topology_feature.hpp"
@@ -41,7 +40,9 @@ namespace mythical {
   }
 
   TopologyFeature::TopologyFeature(){
-    auto seed = chrono::system_clock::now().time_since_epoch().count();
+    // Not seeded with the time, the clock may not advance from one to the next
+    random_device device;
+    seed_seq seed{device(), device(), device(), device()};
     random_engine_ = mt19937(seed);
     random_distribution_ = uniform_real_distribution<double>(0.0, 1.0);
     occupied_ = 0;
-- 
2.43.0

