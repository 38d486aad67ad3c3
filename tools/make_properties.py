#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = "CoarseGrainSites/src/libmythical/"
T = S + "topologyfeatures/"
CL, SI, TF = T + "cluster.cpp", T + "site.cpp", T + "topology_feature.cpp"
SC, CC, RC = S + "site_container.cpp", S + "cluster_container.cpp", S + "rate_container.cpp"
QU, WA, SY, BE = S + "queue.cpp", S + "walker.cpp", S + "coarsegrainsystem.cpp", S + "basin_explorer.cpp"
CU = S + "charge_transport/cuboid_lattice.cpp"
MA = S + "charge_transport/marcus.cpp"
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=observe, hook_needed=None))
P = [
p("C01", "Reported occupancy is the truth for sites and clusters",
  "A site reports itself occupied exactly when a walker is on it, whether the site stands alone or belongs to a cluster, and a cluster reports itself occupied exactly when a walker is on one of its sites. "
  "This holds after every arrival, departure, blocked hop, removal, and after sites are gathered into a cluster, added to one, or moved with a merge, so a site never admits a second walker and never refuses one while free.",
  ["schedules", "histories"],
  "every order in which walkers arrive, hop, are blocked, stall and are removed, interleaved in every way with creating, growing and merging clusters",
  "The tests occupy and vacate one isolated object at a time; none keeps walkers on sites while clusters form and merge around them or checks the cluster's own answer.",
  [TF, CL, SC, CC, SY],
  [("occupy / vacate dispatch of lone sites", TF), ("occupy / vacate / isOccupied of cluster members", CL), ("hop and walker initialisation", SY)],
  ["isOccupied of sites, clusters and both containers after every step", "occupancy of the sites a cluster hands out"],
  [("occupied_", "number of walkers / flag", T + "topology_feature.hpp")]),
p("C02", "Residence times are sound and every sojourn ends when its time is used up",
  "For every random outcome a residence time is finite and positive; on a lone site it is exponentially distributed with mean one over the sum of the rates leaving it. "
  "In a cluster every walker's sojourn is drawn from the exponential law whose mean is the cluster's time constant and is handed out in pieces no longer than the cluster's time increment (time constant over resolution): the walker stays inside while time remains and leaves when it is used up, whatever the other walkers do. "
  "A walker that was removed is forgotten, so its next sojourn starts afresh.",
  ["schedules", "histories", "fault_sequences"],
  "every random draw including the ends of the unit interval, every interleaving of walkers in one cluster, every removal and re-entry",
  "The tests follow a single walker with a fixed seed and only look at long-run percentages; the ends of the random interval, several walkers in one cluster, and removal during a sojourn are never exercised.",
  [TF, CL],
  [("dwell time sampling", TF), ("remaining dwell time per walker", CL), ("removal of a walker", CL)],
  ["dwell times and next sites returned for each walker", "time constant, resolution and time increment of the cluster"],
  [("remaining_walker_dwell_times_", "time left per walker", T + "cluster.hpp")]),
p("C03", "Every hop goes to a real destination with the right frequency",
  "For every random outcome the next site chosen for a walker is an actual destination: from a lone site one of its neighbours, inside a cluster one of its members while the walker stays, and one of its outside neighbours when it leaves. "
  "Destinations are chosen in proportion to the rates for a lone site, in proportion to the time spent on them for the members of a cluster, and according to the reported exit probabilities for a cluster's outside neighbours.",
  ["inputs", "histories", "fault_sequences"],
  "every random draw in the unit interval including its ends, every set of rates over many orders of magnitude, every membership history of a cluster",
  "The tests look at a few symmetric systems with fixed seeds; the tail of a cumulative distribution that does not quite reach one, hit about once in 1e16 draws, cannot be sampled.",
  [SI, CL],
  [("choice of the neighbour", SI), ("choice of internal site and of exit", CL)],
  ["site ids returned for controlled and for sampled random draws"]),
p("C04", "A cluster's behaviour depends on its members, not on its history",
  "After an update a cluster behaves exactly like a cluster newly built from the same sites with the same settings: the same probabilities on its members and towards its outside neighbours, the same time constant and time increment, and the same choice frequencies. "
  "It does not matter in which order sites were added, how many updates came before, whether members came from merged clusters, or whether an earlier update was cut short by an allocation failure and repeated.",
  ["histories", "fault_sequences"],
  "every sequence of additions, updates, merges, resolution changes and failed-then-repeated updates",
  "The tests build each cluster once and update it once, so stale state left by an earlier update is invisible to them.",
  [CL],
  [("recomputation of probabilities and time constant", CL), ("moving sites between clusters", CL)],
  ["probabilities, neighbours, time constant and increment, choice frequencies compared with a freshly built twin"]),
p("C05", "Visit counts count visits, and asking does not change them",
  "A lone site's visit count is the number of times it was occupied; each step of a walker's stay in a cluster adds to every member the number of visits expected, at local equilibrium, during the mean length of a step, whatever the unit of time. "
  "Counts never go down (they stop at the largest whole number instead of overflowing), survive updates, added sites, resolution changes and merges, and do not depend on when or how often they are read.",
  ["schedules", "histories", "configurations"],
  "every interleaving of arrivals, updates, growth, merges and reads, every time unit and resolution",
  "The tests read counts once at the end of one history with rates near one, so neither the effect of reading nor the dependence on the time unit shows.",
  [CL, TF, SY],
  [("visit estimate from cluster arrivals", CL), ("counts carried over updates and merges", CL), ("sum of lone and cluster visits", SY)],
  ["visit counts of lone sites, cluster members and the whole system"],
  [("site_visits_", "visits per member", T + "cluster.hpp")]),
p("C06", "The event queue neither loses, invents nor misorders events",
  "Whatever sequence of plain and ordered insertions, sorts and removals is applied, the queue holds exactly the events put in and not yet taken out, and an event taken out is the one that stood at the front. "
  "When the queue says it is sorted its events are in non-decreasing time order, it says so after a sort and keeps that order through ordered insertions and removals; a failed insertion leaves it as it was.",
  ["histories", "fault_sequences"],
  "every sequence of operations, sizes from empty to large, equal, negative, huge and tiny times, allocation failure at any point",
  "The tests push three or four distinct times in one fixed order.",
  [QU], [("ordered insertion and sorting", QU)],
  ["contents by index, size, sortedness and the event removed, after every operation"]),
p("C07", "Every site is in at most one cluster and all views of membership agree",
  "Each site belongs to at most one cluster, every member of a cluster carries that cluster's id, and the list of clusters, the per-site answer and the membership test agree after any sequence of creations, additions and merges; a merge keeps all members of both clusters and leaves nothing in, or pointing to, the one that disappears. "
  "The outside neighbours a cluster reports are exactly the sites outside it that one of its members has a rate to. Every newly made cluster gets an id larger than all ids given out before.",
  ["histories", "schedules"],
  "every history of cluster creation, growth and merging, with walkers inside, including merges in which only part of a cluster takes part",
  "The tests merge at most two tiny clusters and never look at every member afterwards.",
  [CL, SC, CC, SY],
  [("adding sites, moving sites between clusters", CL), ("create and merge", SY), ("registry of clusters", CC)],
  ["members, neighbours and ids of all clusters, cluster id of all sites after every step"]),
p("C08", "Rejected, failed and read-only operations leave the registries unchanged",
  "Looking something up, counting or listing never changes the contents of the site, cluster or rate registries, and asking for something that is not stored is reported as an error without creating it. "
  "Adding what is already there is rejected with the old entry intact, and an addition that fails for lack of memory leaves nothing behind and can be repeated. Everything added is found again, unchanged, until it is erased. "
  "In a whole system, calls that are refused (unknown sites, walkers that are nowhere, a seed set too late) or only read leave its course unchanged.",
  ["histories", "fault_sequences"],
  "every sequence of additions, lookups, erasures and queries with known and unknown ids, allocation failure at every point of an addition",
  "The tests check that errors are thrown but not that the container is the same afterwards, and never run out of memory.",
  [SC, CC, RC, SY],
  [("site registry", SC), ("cluster registry", CC), ("rate registry", RC), ("refused calls of the front end", SY)],
  ["size, ids and contents of each registry before and after every operation"]),
p("C09", "A seeded simulation is reproducible and independent of its surroundings",
  "With a seed set, the same sequence of calls gives the same trajectory - the same sites, the same waiting times, the same clusters - whatever the clock shows or does meanwhile, wherever objects lie in memory, and whatever other simulations run in between in the same process. "
  "Different seeds (of the 32 bits the generator takes) give different trajectories.",
  ["schedules", "configurations", "fault_sequences"],
  "every seed and workload, every clock value, jump and standstill, every memory layout, every interleaving with other systems",
  "The tests run once per process against the real clock and never compare two runs.",
  [TF, CL, SI, SY, BE],
  [("seeding of sites and clusters", TF), ("seed handed out per site and cluster", SY), ("order in which edges are explored", BE)],
  ["complete trajectory of two runs that differ only in clock, memory layout or company"]),
p("C10", "Changed rates take effect with the next update",
  "Rates are owned by the user and may change at any time: the rates and fastest rates reported follow at once, and after an update of the cluster, or after re-registering the rate with a lone site, all probabilities, time constants, residence times and choices are those of a system built with the new rates. "
  "No trace of the old rates remains, whether a rate inside, leaving or far away from the cluster changed and however often.",
  ["histories", "schedules"],
  "every sequence of external rate changes of any size, interleaved with hops, updates, growth and merges",
  "The tests never change a rate after it has been registered.",
  [CL, SI],
  [("update of the cluster", CL), ("recomputation of a site's probabilities and time constant", SI)],
  ["all reported quantities and choice frequencies compared with a system built from scratch at the new rates"]),
p("C11", "Random placement reaches exactly the sites of the requested plane, uniformly",
  "A random site drawn for a plane of the lattice always lies in the lattice and on the requested plane, for every lattice shape, boundary setting and plane. "
  "Every site of the plane is drawn with the same frequency, whatever was drawn before; the sites drawn from a lattice do not depend on other lattices or the clock. A plane outside a non-periodic lattice is refused, on a periodic one it stands for the plane it wraps onto.",
  ["histories", "configurations"],
  "every lattice shape, boundary setting, plane and position, every history of earlier draws and of draws from other lattices",
  "The tests do not draw random sites at all, or only on cubes where a mixed-up axis is invisible.",
  [CU], [("random site on a plane", CU)],
  ["position of each drawn site and frequencies over many draws"]),
p("C12", "The whole system runs every legal history and moves walkers only as announced",
  "Any legal sequence of placing, hopping and removing walkers on any system of rates runs without crash, error or endless loop, while clusters form and merge on the way. "
  "A hop either takes the walker to the site announced beforehand, or leaves it where it was because that site is occupied, and afterwards announces a positive waiting time and a next site that can be reached from there; with coarse graining switched off no cluster ever appears.",
  ["schedules", "histories", "configurations"],
  "every rate landscape (including drains and closed systems), every schedule of walkers, every coarse-graining setting",
  "The system tests run a few small landscapes with fixed seeds and look at averages.",
  [SY, BE, CL, SI, WA],
  [("hop", SY), ("coarse graining decision, creation and merging", SY), ("basin search", BE)],
  ["site, next site and waiting time of every walker before and after every call"]),
p("C13", "Coarse graining preserves the kinetics",
  "For a cluster whose inside is much faster than its outside, the share of time spent on each member, the probability of leaving to each outside neighbour and the mean time before leaving are those of the site-by-site dynamics with the same rates. "
  "The reported probabilities lie between zero and one and add up to one, and finding them ends after a bounded amount of work whatever convergence method is chosen; in a whole system the walkers' share of time on each fast group is that of the site-by-site dynamics as well.",
  ["inputs", "configurations", "histories"],
  "every landscape in the local-equilibrium regime, every shape of cluster including members without a way out, every convergence method, every history of growth and merging, every time unit",
  "The tests compare a handful of symmetric landscapes with 20 per cent tolerance.",
  [CL, SY],
  [("master equation, escape time, exit probabilities", CL), ("decision to coarse grain", SY)],
  ["time constant, reported probabilities and sampled behaviour compared with an exact solution of the rate equations"]),
p("C17", "Coarse graining happens where it is justified, and only there",
  "Whatever walkers do and however settings change on the way, a cluster is formed only of sites among which a walker equilibrates before it leaves: twice the longest of the shortest crossing times between its members, times the performance ratio, is below one over the sum of the rates out of it and, with a time resolution set, twice the crossing time is below that resolution. "
  "Its resolution is at least two, its time increment never exceeds the time resolution when it is formed or merged, and no cluster is formed or merged before the iteration threshold of hops has passed since the last. Where every site belongs to a small group, with equal rates inside that are faster than those out, that meets these conditions with some margin, a first cluster appears within a bounded number of hops, and two small fast groups that exchange walkers fast compared with the rest become one cluster likewise.",
  ["schedules", "histories", "configurations"],
  "every landscape, walker schedule, threshold, performance ratio and time resolution, including settings changed while the system runs",
  "The tests look at whether clusters appear in three or four hand-made landscapes with fixed seeds.",
  [SY, BE, CL],
  [("decision to coarse grain", SY), ("creation and merging, choice of the resolution", SY), ("basin search", BE)],
  ["clusters, their members, resolution and time increment after every hop"]),
p("C18", "The unit of time does not matter",
  "Expressing a system in another unit of time - all rates multiplied by one power of two, the time resolution divided by it - changes nothing but the unit. "
  "With the same seed and the same sequence of calls walkers visit the same sites in the same order, the same clusters form and merge at the same hops with the same resolutions and probabilities, the visit counts are equal, and all waiting times, time constants and time increments are the same lengths of time.",
  ["histories", "schedules", "configurations"],
  "every landscape, history and schedule, units from 2^-300 to 2^300, rates changed and settings changed on the way",
  "The tests run each landscape in one unit; a threshold or rounding that is negligible in that unit is decisive in another.",
  [CL, SI, SY, BE, TF],
  [("probabilities and times of clusters", CL), ("residence times", TF), ("decision to coarse grain", SY), ("basin search", BE)],
  ["complete trajectories, clusters and counts of two runs that differ only in the unit"]),
p("C19", "Memory in use is bounded by what is there",
  "What a system and its event queue hold in memory is bounded by the sites, the clusters and the walkers present, however many hops were made and however many walkers came and left before: "
  "once coarse graining is over, letting further walkers in, letting them hop and taking them out again leaves the memory held where it was. Destroying the system gives back everything it took, clusters merged on the way included, also when it is given up because an allocation failed in the middle of a call.",
  ["histories", "schedules", "fault_sequences"],
  "every landscape, schedule and number of walkers and hops; walkers taken out from sites, clusters and drains in any order",
  "The tests run a handful of walkers; what is retained per walker or per hop shows only over a long history.",
  [SY, CC, CL, QU],
  [("walkers entering and leaving", SY), ("times and walkers kept by clusters", CL), ("registry", CC), ("event queue", QU)],
  ["memory held after long runs, and after destruction"]),
p("C20", "Random outcomes do not depend on each other",
  "What is drawn at random in a system says nothing about what else is drawn, with or without a seed. On a site the waiting time does not depend on the destination chosen with it, nor successive waiting times or destinations on each other; in a cluster the length of a stay does not depend on where the walker leaves to nor on the stay before, and where it goes inside does not depend on where it is. "
  "No site and no cluster repeats the random numbers of another or its own earlier ones, however clusters are formed, enlarged and merged in between; without a seed neither do systems created one after the other, even while the clock stands still.",
  ["histories", "schedules", "configurations"],
  "every seed or none, landscape and schedule of walkers, through formation and merging of clusters",
  "Each value alone looks right; only long histories compared across sites, clusters and kinds of draw show that they belong together.",
  [TF, SI, CL, SY],
  [("seeds of sites and clusters", SY), ("draws of times", TF), ("choice of destinations", SI), ("choices inside and out of clusters", CL)],
  ["waiting times and next sites announced over the history"]),
p("C21", "Walker ids are mere names, and equivalent calls have equal effects",
  "How walkers are called changes nothing: with the same seed and the same sequence of calls, in which every walker has another id - any int, negative or large - walkers visit the same sites at the same times, the same clusters form and merge at the same hops and the visit counts are equal. "
  "Nor does it matter which of several equivalent calls is used: hop and removal with a pair or with id and walker, walkers placed together or one after the other in that order, occupancy and times asked of the site or of its registry, rates registered all at once or one by one.",
  ["histories", "schedules", "configurations"],
  "every landscape, history and schedule, every assignment of distinct ids to walkers",
  "The tests number walkers from zero up and use one form of each call.",
  [SY, CL, TF, SI, SC, CC],
  [("both forms of hop and removal, placement", SY), ("times kept per walker", CL), ("occupancy and removal", TF), ("calls of the registries", SC)],
  ["complete trajectories, clusters and counts of two runs that differ only in names and form of calls"]),
p("C14", "Lattice index and position are inverse to each other",
  "On every lattice each site index corresponds to exactly one position and back, periodic coordinates wrap around, and positions or indices outside a non-periodic lattice are refused.",
  ["inputs", "configurations"], "every lattice shape, boundary setting and position",
  "The tests check one or two lattices.",
  [CU], [("index and position conversion", CU)], ["index and position functions"]),
p("C15", "Lattice neighbours and distances respect the boundaries",
  "The neighbours reported within a cutoff are exactly the sites whose smallest distance, taking periodic images into account, is within it, and all ways of asking agree.",
  ["inputs", "configurations"], "every lattice, boundary setting and cutoff", "The tests count neighbours of a few sites.",
  [CU], [("neighbour search", CU)], ["neighbour and distance functions"]),
p("C16", "Marcus rates obey detailed balance",
  "Forward and backward rates between two sites are in the ratio of the Boltzmann factor of their energy difference, positive, and scale with the square of the coupling.",
  ["inputs"], "every pair of energies, distances and temperatures", "The rate function is not tested.",
  [MA], [("rate formula", MA)], ["rate function"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
