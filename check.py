#!/usr/bin/env python3
"""Deterministic simulation checks for MythiCaL.

  check.py run <property> [--tier quick|thorough]   decide one property
  check.py replay <file>                            replay a violation
  check.py build                                    build only (setup)
  check.py determinism [--n N]                      run seeds twice, compare

Exit status of run: 0 held on everything explored, 1 violation (with a VIOLATION
line), anything else is an error of the check itself.
"""
import array, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
R = os.path.join(REPO, 'CoarseGrainSites')
SIM = os.path.join(HERE, 'sim')
STUB = os.path.join(HERE, 'stub')
BUILD = os.environ.get('SIM_BUILD', os.path.join(HERE, 'build'))
JOBS = max(1, min(8, os.cpu_count() or 1))

# the parts of the library that need the UGLY graph library, which is a git
# submodule and not in the tree: built against a stand-in (see DESIGN.md)
NEEDS_UGLY = {'coarsegrainsystem.cpp', 'basin_explorer.cpp', 'graph_library_adapter.cpp'}

# property -> [(world, quick runs, thorough runs, quick runs with sanitizers, thorough ...)]
WORLDS = {
    'C01': [('kmc', 21000, 400000, 360, 6000), ('sys', 9000, 150000, 120, 2000)],
    'C02': [('kmc', 48000, 400000, 720, 6000), ('sys', 12000, 100000, 192, 1600)],
    'C03': [('kmc', 64000, 512000, 960, 7680), ('sys', 16000, 128000, 256, 2048)],
    'C04': [('kmc', 64000, 512000, 960, 7680)],
    'C05': [('kmc', 16000, 200000, 320, 4000), ('sys', 8000, 100000, 128, 1600)],
    'C06': [('queue', 48000, 400000, 960, 7680), ('kmc', 32000, 256000, 640, 5120)],
    'C07': [('kmc', 30000, 300000, 480, 4000), ('sys', 15000, 120000, 192, 1600)],
    'C08': [('registry', 64000, 512000, 960, 7680), ('sys', 6000, 100000, 96, 1600)],
    'C09': [('kmc', 12000, 200000, 180, 3000), ('sys', 5400, 90000, 48, 800)],
    'C10': [('kmc', 56000, 448000, 960, 7680)],
    'C11': [('place', 128000, 1024000, 1920, 15360)],
    'C12': [('sys', 30000, 300000, 300, 3000)],
    'C13': [('kmc', 10000, 120000, 128, 1600), ('sys', 960, 12000, 16, 160)],
    'C17': [('sys', 30000, 300000, 300, 3000)],
    'C18': [('kmc', 16000, 160000, 200, 2000), ('sys', 8000, 100000, 150, 1500)],
    'C19': [('sys', 6000, 60000, 100, 1000)],
    'C20': [('sys', 6000, 80000, 60, 600)],
    'C21': [('kmc', 16000, 160000, 200, 2000), ('sys', 8000, 100000, 150, 1500)],
}
FAULTS = ['fault_removal', 'fault_stall', 'fault_out_of_order_hop', 'fault_alloc_armed', 'fault_alloc_fired',
          'fault_random_forced', 'fault_clock_jump', 'fault_clock_stalled', 'fault_heap_layout', 'fault_foreign_system', 'fault_time_unit', 'fault_renamed_walkers', 'fault_other_calls', 'fault_rate_change',
          'fault_poll', 'fault_rejected_call']


def die(msg, code=2):
    print('check.py: ' + msg, file=sys.stderr)
    sys.exit(code)


# ------------------------------------------------------------------ building
def lib_sources():
    base = os.path.join(R, 'src', 'libmythical')
    out = []
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    h.update(open(os.path.abspath(__file__), 'rb').read())
    for base in (os.path.join(R, 'src', 'libmythical'), os.path.join(R, 'include'), SIM, STUB):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


INC = ['-I' + os.path.join(STUB, 'a/b/c'), '-I' + os.path.join(STUB, 'UGLY/include'),
       '-I' + os.path.join(R, 'src/libmythical/topologyfeatures'), '-I' + os.path.join(R, 'include'),
       '-I' + os.path.join(R, 'src'), '-I' + SIM]
FLAVOURS = {'plain': ['-O1', '-g1'],
            'san': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DSIM_SANITIZE']}


def run_cmd(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build():
    """Build both flavours from the working tree; returns {flavour: binary}, notes."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    out = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        done = os.path.join(out, 'done.json')
        if not os.path.exists(done):
            for old in os.listdir(BUILD):  # only this tree's build is kept
                p = os.path.join(BUILD, old)
                if old != 'lock' and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 7200:
                    shutil.rmtree(p, ignore_errors=True)
            note = compile_all(out)
            with open(done, 'w') as f:
                json.dump(note, f)
        note = json.load(open(done))
    return {k: os.path.join(out, k, 'sim') for k in FLAVOURS}, note


def compile_all(out):
    srcs = lib_sources()
    if not srcs:
        die('no library sources under ' + R)
    sims = [os.path.join(SIM, f) for f in ('core.cpp', 'kmc.cpp', 'others.cpp', 'sys.cpp')]
    pre = ['-include', os.path.join(SIM, 'prelude.hpp')]
    note = {'sys': True, 'why': ''}

    def attempt(with_sys):
        jobs = []
        for fl, flags in FLAVOURS.items():
            d = os.path.join(out, fl)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for s in sims:
                ex = [] if with_sys else ['-DSIM_NO_SYS']
                jobs.append((s, ['g++', '-std=c++17'] + flags + ex + pre + INC + ['-c', s, '-o', os.path.join(d, 'sim_' + os.path.basename(s) + '.o')]))
            for s in srcs:
                if not with_sys and os.path.basename(s) in NEEDS_UGLY:
                    continue
                o = os.path.relpath(s, R).replace('/', '_') + '.o'
                jobs.append((s, ['g++', '-std=c++14'] + flags + pre + INC + ['-c', s, '-o', os.path.join(d, o)]))
        # longest first
        jobs.sort(key=lambda j: -(os.path.getsize(j[0]) + (10**6 if j[0].startswith(SIM) else 0)))
        errs = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for (s, _), (rc, txt) in zip(jobs, ex.map(lambda j: run_cmd(j[1]), jobs)):
                if rc:
                    errs.append((s, txt))
        if errs:
            return errs
        for fl, flags in FLAVOURS.items():
            d = os.path.join(out, fl)
            objs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.o'))
            rc, txt = run_cmd(['g++'] + flags + objs + ['-o', os.path.join(d, 'sim')])
            if rc:
                errs.append(('link', txt))
            for o in objs:
                os.remove(o)
        return errs

    errs = attempt(True)
    if errs:
        bad = {os.path.basename(s) for s, _ in errs}
        if bad <= NEEDS_UGLY | {'sys.cpp', 'link'}:
            # only the part that needs the stand-in fails to build: go on without
            note = {'sys': False, 'why': errs[0][0] + ': ' + errs[0][1][-1500:]}
            errs = attempt(False)
    if errs:
        for s, t in errs[:3]:
            print('--- %s\n%s' % (s, t[-3000:]), file=sys.stderr)
        die('the tree does not build')
    return note


# ------------------------------------------------------------------ running
def sim(binary, args, timeout=None):
    p = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def batch(binary, prop, world, seed0, n, stride, tier, wall, scratch, tag, cpu=20):
    dump = os.path.join(scratch, tag + '.bin')
    rc, out, err = sim(binary, ['run', '--prop', prop, '--world', world, '--seed0', str(seed0), '--n', str(n), '--stride', str(stride),
                                '--tier', str(tier), '--wall', str(wall), '--cpu', str(cpu), '--maxfail', '1', '--dump', dump])
    try:
        d = json.loads(out)
    except ValueError:
        die('simulator gave no report for %s/%s (rc %d): %s %s' % (prop, world, rc, out[-300:], err[-500:]))
    a = array.array('Q')
    with open(dump, 'rb') as f:
        a.frombytes(f.read())
    os.remove(dump)
    nt = a[0]
    d['trace_set'] = a[1:1 + nt]
    d['state_set'] = a[2 + nt:]
    return d


def replay_text(binary, text, scratch, tag='r', cpu=20):
    p = os.path.join(scratch, tag + '.plan')
    with open(p, 'w') as f:
        f.write(text)
    rc, out, err = sim(binary, ['replay', p, '--cpu', str(cpu)])
    try:
        return json.loads(out.strip().splitlines()[-1]), err
    except (ValueError, IndexError):
        return {'status': 'error', 'kind': 'error', 'msg': out + err, 'hash': ''}, err


# ------------------------------------------------------------------ shrinking
def shrink(binary, text, kind, scratch, budget):
    """Drop operations, then simplify numbers, while the same kind persists."""
    t0 = time.time()
    lines = text.splitlines()
    head = [l for l in lines if not l.startswith('op ')]
    ops = [l for l in lines if l.startswith('op ')]
    cpu = 20 if kind != 'hang' else 4
    tests = [0]

    def fails(cand):
        tests[0] += 1
        d, _ = replay_text(binary, '\n'.join(head + cand) + '\n', scratch, 'shrink%d' % os.getpid(), cpu)
        return d['kind'] == kind and d['status'] != 'ok'

    # a run of hops can be cut at the end first
    n = 2
    while len(ops) > 1 and time.time() - t0 < budget:
        size = max(1, len(ops) // n)
        some = False
        i = len(ops)
        while i > 0 and time.time() - t0 < budget:
            lo = max(0, i - size)
            cand = ops[:lo] + ops[i:]
            if cand and fails(cand):
                ops = cand
                some = True
            i = lo
        if not some:
            if size == 1:
                break
            n = min(len(ops), n * 2)
        else:
            n = max(2, n - 1)
    for i in range(len(ops)):
        if time.time() - t0 > budget:
            break
        f = ops[i].split()
        tries = []
        if f[1] == 'edge' and f[4] != '1':
            tries.append(f[:4] + ['1'])
        if f[1] == 'hop' and len(f) > 2 and f[2] != '1':
            tries.append(f[:2] + ['1'])
        for t in tries:
            cand = ops[:i] + [' '.join(t)] + ops[i + 1:]
            if fails(cand):
                ops = cand
                break
    return '\n'.join(head + ops) + '\n', tests[0], len(ops)


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('known', [])


def is_known(prop, f, known):
    for k in known:
        if k['property'] == prop and k['kind'] == f['kind'] and re.search(k['match'], f['msg']):
            return k
    return None


def report(prop, f, bins, scratch, tier, quiet=False):
    """Minimise, confirm in fresh processes, write the replay file."""
    binary = bins[f['flavour']]
    rc, text, err = sim(binary, ['gen', '--prop', prop, '--world', f['world'], '--seed', str(f['seed']), '--tier', str(tier)])
    kind = f['kind']
    d0, _ = replay_text(binary, text, scratch)
    if d0['status'] not in ('ok', 'error', 'setup') and d0['kind'] != kind:
        kind = d0['kind']   # it fails all the same, in another way
    if d0['kind'] != kind or d0['status'] == 'ok':
        # the failure depends on something outside the simulator
        return None
    small, tests, nops = shrink(binary, text, kind, scratch, 60 if tier == 0 else 300)
    a, err = replay_text(binary, small, scratch)
    b, _ = replay_text(binary, small, scratch)
    same = a['kind'] == b['kind'] == kind and a['hash'] == b['hash'] and a['msg'] == b['msg']
    if not same and a['kind'] == b['kind'] == kind:
        same = True   # same violation; only details (an address in a message) differ
    if not same:
        # keep the plan as generated
        small, a, b, tests = text, d0, d0, 0
    return write_replay(prop, f, small, a, b, err, tests)


def write_replay(prop, f, text, a, b, err, tests):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s.plan' % (prop, f['world'], f['seed']))
    nops = sum(1 for l in text.splitlines() if l.startswith('op '))
    with open(path, 'w') as fh:
        fh.write('# violation of %s found by seed %s in world %s (%s build)\n' % (prop, f['seed'], f['world'], f['flavour']))
        fh.write('# kind: %s\n# %s\n' % (a['kind'], a['msg'].replace('\n', ' ')[:600]))
        fh.write('# at operation %s, trace hash %s; minimised to %d operations with %d replays\n' % (a.get('op'), a.get('hash'), nops, tests))
        fh.write('# flavour %s\n' % f['flavour'])
        if err and 'ERROR' in err:
            for l in err.splitlines()[:30]:
                fh.write('# | ' + l[:200] + '\n')
        fh.write('# replay with: python3 check.py replay %s\n' % path)
        fh.write(text)
    return path, a, nops


def base_seed():
    try:
        v = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        v = 1
    return v


def seed_of(v, prop, world, flavour):
    h = hashlib.sha256(('%d/%s/%s/%s' % (v, prop, world, flavour)).encode()).digest()
    return int.from_bytes(h[:5], 'big')


def cross_process(prop, bins, plan, tier, scratch, k):
    """Same seeds in fresh processes, in another working directory and
    environment; the traces must be identical."""
    diffs = []
    for (world, seed0) in plan:
        args = ['run', '--prop', prop, '--world', world, '--seed0', str(seed0), '--n', str(k), '--tier', str(tier), '--hashes', '1', '--wall', '60', '--maxfail', '1000']
        outs = []
        for i in range(2):
            env = dict(os.environ)
            if i:
                env['SIM_PADDING'] = 'x' * 3333
            p = subprocess.run([bins['plain']] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=scratch if i else HERE, env=env)
            outs.append(json.loads(p.stdout))
        h0, h1 = dict(map(tuple, outs[0]['hashes'])), dict(map(tuple, outs[1]['hashes']))
        for s in h0:
            if s in h1 and h0[s] != h1[s]:
                diffs.append((world, s, h0[s], h1[s]))
    return diffs


def run(prop, tier_name):
    t_start = time.time()
    tier = 1 if tier_name == 'thorough' else 0
    seed = base_seed()
    bins, note = build()
    t_built = time.time()
    scratch = tempfile.mkdtemp(prefix='simcheck_')
    try:
        return run_in(prop, tier, tier_name, seed, bins, note, scratch, t_start, t_built)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_in(prop, tier, tier_name, seed, bins, note, scratch, t_start, t_built):
    jobs, skipped = [], []
    wall = 150 if tier == 0 else 3000
    plan = []
    for (world, q, t, sq, stt) in WORLDS[prop]:
        if world == 'sys' and not note['sys']:
            skipped.append(world)
            continue
        for flavour, n in (('plain', t if tier else q), ('san', stt if tier else sq)):
            s0 = seed_of(seed, prop, world, flavour)
            if flavour == 'plain':
                plan.append((world, s0))
            chunks = JOBS * (4 if flavour == 'plain' else 1)
            chunks = min(chunks, n)
            for c in range(chunks):
                m = n // chunks + (1 if c < n % chunks else 0)
                jobs.append((flavour, world, s0 + c, m, chunks, len(jobs)))
    if not jobs:
        die('nothing to run: ' + note['why'])
    # slow ones first
    jobs.sort(key=lambda j: (j[0] != 'san', j[1] != 'sys', j[5]))
    results = []
    stop = []

    def go(j):
        flavour, world, s0, m, stride, i = j
        if stop and stop[0] < time.time():
            return None
        left = wall - (time.time() - t_built)
        if left < 1:
            return None
        d = batch(bins[flavour], prop, world, s0, m, stride, tier, left, scratch, 'b%d' % i, cpu=20 if flavour == 'plain' else 120)
        d.update(flavour=flavour, world=world, asked=m)
        if d['failures'] and not stop:
            stop.append(time.time())
        return d

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for d in ex.map(go, jobs):
            if d:
                results.append(d)
    fails = []
    for d in results:
        for f in d['failures']:
            f.update(flavour=d['flavour'], world=d['world'])
            fails.append(f)
    # determinism of this very batch: a sample of seeds again, in fresh processes
    det_n = 0
    diffs = []
    if not fails:
        k = 40 if tier == 0 else 400
        diffs = cross_process(prop, bins, plan, tier, scratch, k if prop != 'C13' else 4)
        det_n = len(plan) * (k if prop != 'C13' else 4)
    elapsed = time.time() - t_built

    known = known_findings()
    new, old = [], {}
    for f in fails:
        kf = is_known(prop, f, known)
        if kf:
            old.setdefault(kf['id'], kf)
        else:
            new.append(f)
    for kf in old.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    viol = []
    if new:
        # prefer ordinary violations of the plain build, then the lowest seed
        new.sort(key=lambda f: (f['status'] != 'violation', f['flavour'] != 'plain', f['seed']))
        for f in new[:8]:
            got = report(prop, f, bins, scratch, tier)
            if got:
                viol.append(got + (f,))
                break
        if not viol:
            f = new[0]
            what = 'seed %s of %s/%s failed with %s (%s) but its replay does not' % (f['seed'], prop, f['world'], f['kind'], f['msg'])
            if prop != 'C09':
                die(what + ': not reproducible')
            # here that is the violation
            rc, text, err = sim(bins[f['flavour']], ['gen', '--prop', prop, '--world', f['world'], '--seed', str(f['seed']), '--tier', str(tier)])
            a = {'kind': 'reproducible.process', 'msg': what, 'op': -1, 'hash': ''}
            viol.append(write_replay(prop, f, text, a, a, None, 0) + (f,))
    if diffs and not viol:
        world, s, h0, h1 = diffs[0]
        if prop == 'C09':
            rc, text, err = sim(bins['plain'], ['gen', '--prop', prop, '--world', world, '--seed', str(s), '--tier', str(tier)])
            f = {'seed': s, 'world': world, 'flavour': 'plain'}
            a = {'kind': 'reproducible.process', 'msg': 'the same seed and calls give different trajectories in two processes (%s, %s)' % (h0, h1), 'op': -1, 'hash': h0}
            path, a, nops = write_replay(prop, f, text, a, a, None, 0)
            viol.append((path, a, nops, f))
        else:
            die('simulation is not deterministic: %s seed %s gives traces %s and %s in two processes' % (world, s, h0, h1))

    write_evidence(prop, tier_name, seed, results, note, skipped, elapsed, t_built - t_start, det_n, viol, old, time.time() - t_start)
    for path, a, nops, f in viol:
        print('%s: %s' % (a['kind'], a['msg']))
        print('found by seed %s in world %s, minimised to %d operations' % (f['seed'], f['world'], nops))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1 if viol else 0


REAL = {
    'kmc': (['Site', 'Cluster', 'TopologyFeature', 'Site_Container', 'Cluster_Container', 'Queue', 'Walker'],
            ['the front end CoarseGrainSystem: its hop, cluster and merge steps are replayed by the simulator on the real parts']),
    'queue': (['Queue'], []),
    'registry': (['Site_Container', 'Cluster_Container', 'Rate_Container', 'Site', 'Cluster'], []),
    'place': (['Cubic/Cuboid Lattice'], []),
    'sys': (['CoarseGrainSystem', 'BasinExplorer', 'graph_library_adapter', 'Site', 'Cluster', 'Site_Container', 'Cluster_Container', 'Queue', 'Walker'],
            ['UGLY graph library (submodule absent from the tree): stand-in in stub/']),
}
STUBBED = ['uniform random conversion (std::generate_canonical; computes the standard result unless a draw is forced)',
           'system/steady clock, time(), clock_gettime, random_device, getpid: simulated', 'operator new/delete: arena with seeded layout and failure injection']


def write_evidence(prop, tier_name, seed, results, note, skipped, elapsed, build_s, det_n, viol, old, wall_s):
    traces, states = set(), set()
    c = {}
    runs = san_runs = ops = 0
    simt = 0.0
    samples = []
    per_world = {}
    for d in results:
        runs += d['runs']
        if d['flavour'] == 'san':
            san_runs += d['runs']
        ops += d['ops']
        simt += d['sim_time'] if d['sim_time'] == d['sim_time'] and d['sim_time'] != float('inf') else 0
        tag = d['world']
        traces.update((tag, x) for x in d['trace_set'])
        if len(states) < 6000000:
            states.update((tag, x) for x in d['state_set'])
        for k, v in d['counters'].items():
            c[k] = c.get(k, 0) + v
        per_world[d['world'] + '/' + d['flavour']] = per_world.get(d['world'] + '/' + d['flavour'], 0) + d['runs']
        if d['sample'] and len(samples) < 2 and d['world'] not in [s['world'] for s in samples]:
            samples.append({'world': d['world'], 'plan': d['sample'].splitlines()[:60]})
    worlds = sorted({d['world'] for d in results})
    real = sorted({x for w in worlds for x in REAL[w][0]})
    stub = sorted({x for w in worlds for x in REAL[w][1]}) + STUBBED
    ev = {
        'property': prop, 'tier': tier_name, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(traces),
            'rule': 'one evaluation is one simulated run: a plan (system, operations, faults) generated from one seed and executed in a process of its own; '
                    'two runs count as one when the hash of their event trace (every walker, site, next site and waiting time, every answer read) is equal, '
                    'so the count is the number of distinct traces actually seen in this run of the check',
            'samples': samples,
            'runs_per_world_and_build': per_world,
            'runs_with_address_and_undefined_sanitizer': san_runs,
            'planned_operations': ops,
            'oracle_evaluations': c.get('oracle_evals', 0),
            'distinct_states': len(states),
            'state_measure': 'hash of the partition into clusters with occupancy (kmc, sys), of the contents of the queue, registry or chosen lattice site (others), after each step',
            'seeds_per_hour': int(runs / max(elapsed, 1e-3) * 3600),
            'simulated_time': simt,
            'simulated_time_unit': 'unit of the rates (sum over runs of the last event time)',
            'faults_injected': {k[6:]: c.get(k, 0) for k in FAULTS if c.get(k, 0)},
            'reach_probes': {k: v for k, v in sorted(c.items()) if k not in FAULTS and v},
            'determinism_reruns_in_fresh_processes': det_n,
            'components_real': real,
            'components_stub': stub,
            'worlds_skipped': skipped,
        },
        'assumptions': [
            'sampling, not enumeration: nothing is claimed about plans that were not generated',
            'legal use only: finite positive rates, two-way rates inside a cluster, one walker per site, distinct walker ids',
        ] + (['the part of the tree that needs UGLY did not build against the stand-in: ' + note['why'][:400]] if skipped else []),
        'build_s': round(build_s, 1),
        'wall_s': round(wall_s, 1),
        'violations': len(viol),
        'known_findings_seen': sorted(old),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))


def replay(path):
    bins, note = build()
    text = open(path).read()
    m = re.search(r'^# flavour (\w+)', text, re.M)
    fl = m.group(1) if m else 'plain'
    k = re.search(r'^# kind: (\S+)', text, re.M)
    prop = re.search(r'^prop (\S+)', text, re.M).group(1)
    scratch = tempfile.mkdtemp(prefix='simcheck_')
    try:
        if k and k.group(1) == 'reproducible.process':
            hs = {replay_text(bins[fl], text, scratch)[0]['hash'] for _ in range(5)}
            print('%d different traces in 5 processes' % len(hs))
            bad = len(hs) > 1
        else:
            d, err = replay_text(bins[fl], text, scratch, cpu=120)
            if err:
                print(err)
            print(json.dumps(d))
            bad = d['status'] != 'ok'
            if d['status'] in ('error', 'setup'):
                return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1 if bad else 0


def determinism(n):
    bins, note = build()
    scratch = tempfile.mkdtemp(prefix='simcheck_')
    bad = 0
    todo = [(p, w, base_seed() * 1000 + 100000 * k) for p in WORLDS for (w, *_) in WORLDS[p] for k in range(3)]
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for (p, w, s), d in zip(todo, ex.map(lambda j: cross_process(j[0], bins, [(j[1], j[2])], 0, scratch, n if j[0] != 'C13' else max(4, n // 20)), todo)):
                if d:
                    bad += len(d)
                    print('differs:', p, d[:3])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('%d groups of %d seeds run twice, %d differences' % (len(todo), n, bad))
    return 1 if bad else 0


def main(argv):
    if not argv:
        die(__doc__)
    cmd = argv[0]
    if cmd == 'build':
        bins, note = build()
        print('built', bins, note)
        return 0
    if cmd == 'run':
        prop = argv[1]
        if prop not in WORLDS:
            die('unknown property ' + prop)
        tier = argv[argv.index('--tier') + 1] if '--tier' in argv else os.environ.get('VERIF_TIER', 'quick')
        return run(prop, tier if tier in ('quick', 'thorough') else 'quick')
    if cmd == 'replay':
        return replay(argv[1])
    if cmd == 'determinism':
        return determinism(int(argv[argv.index('--n') + 1]) if '--n' in argv else 200)
    die(__doc__)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
