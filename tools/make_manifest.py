#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Seeded sampling of schedules, histories and faults, not enumeration: a clean run is evidence, not proof. "
         "Trusts the simulator's model, the seams (uniform conversion, clocks, allocator) and g++; legal use only (finite positive rates, one walker per site). ")
SYS = "The front end runs against a stand-in for the UGLY graph library, which is missing from the tree."
T = {
 'C01': ("deterministic simulation: seeded walker schedules, cluster formation and merges, removals; occupancy compared with a reference map after every step", SYS),
 'C02': ("deterministic simulation with forced random outcomes and walker removal/stall faults; sojourn reference model per walker", "The exponential law is judged by inversion of the draw where the code uses one draw per time, otherwise by a KS test at about 1e-11."),
 'C03': ("deterministic simulation with the random source behind a seam: forced draws at the ends and on a grid of the unit interval, in every reached history", "Frequencies are exact to the grid (1/500) where one pick takes one draw, otherwise chi-square."),
 'C04': ("deterministic simulation of update/growth/merge histories with allocation failures inside updates; differential oracle: freshly built twin", ""),
 'C05': ("deterministic simulation; visit-count reference model, plus the same history replayed with readings interleaved", SYS),
 'C06': ("deterministic simulation of queue histories with allocation failures; multiset/order reference model", "The queue alone and inside the event loop."),
 'C07': ("deterministic simulation of formation, growth and merge histories; partition reference model after every step", SYS),
 'C08': ("deterministic simulation of registry histories with allocation failure at seeded points; map reference model", ""),
 'C09': ("deterministic simulation: same plan replayed under other clocks, memory layouts, company and processes; traces compared", SYS),
 'C10': ("deterministic simulation with rate changes injected between any two steps; differential oracle: system built at the new rates", ""),
 'C11': ("deterministic simulation with simulated clock and interleaved lattices; plane membership and frequency checks over the draw history", "Frequencies by chi-square at about 1e-11."),
 'C12': ("deterministic simulation of the whole system: seeded landscapes, schedules, removals; invariants per hop, CPU-bounded progress", SYS),
 'C13': ("deterministic simulation; formed clusters and whole-system runs compared with the exact solution of the rate equations", "Local-equilibrium regime only (inside at least 1e6 times faster than outside for a cluster, 1e3 for whole systems), tolerances stated in DESIGN.md. " + SYS),
 'C17': ("deterministic simulation of the whole system with settings changed mid-run; each formation and merge judged against the crossing times of the landscape, bounded-hop liveness on fast groups", "Conditions are judged with a relative slack of 1e-9. " + SYS),
 'C18': ("deterministic simulation: the same plan replayed in another unit of time; traces and final states compared", "Units are powers of two, so that nothing is rounded differently; compared to nine digits. " + SYS),
 'C19': ("deterministic simulation with the allocator behind a seam: walkers come, hop and leave over long seeded histories; bytes held compared before and after, and after destruction", "Growth below 4096 + 256 per site bytes is not told from containers settling. " + SYS),
 'C20': ("deterministic simulation of long seeded histories with clusters forming and merging; independence tests over the recorded draws, search for repeated values across sites and clusters", "Statistical tests beyond eight standard deviations. " + SYS),
 'C21': ("deterministic simulation: the same plan replayed with other walker ids and equivalent calls; traces and final states compared", "Compared to nine digits. " + SYS),
}
PURE = "A pure function of its arguments: no randomness, clock, schedule, history or fault can change its answer, so deterministic simulation has nothing to decide (see DESIGN.md)."
m = {
 'version': 1,
 'setup_cmd': 'python3 check.py build',
 'checks': [{'property': k,
             'quick_cmd': 'python3 check.py run %s --tier quick' % k,
             'thorough_cmd': 'python3 check.py run %s --tier thorough' % k,
             'evidence_file': 'evidence/%s.json' % k,
             'technique': v[0], 'level': 'exploration', 'level_note': TRUST + v[1]} for k, v in T.items()],
 'not_applicable': [{'property': k, 'reason': PURE} for k in ('C14', 'C15', 'C16')],
 'notes': 'No hooks in /repo: the seams are a force-included header and symbols the simulator defines (operator new, clocks, generate_canonical). '
          'Repairs of defects are listed in known_findings.json.',
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
