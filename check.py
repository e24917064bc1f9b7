#!/usr/bin/env python3
"""Decides one property by deterministic simulation: check.py ID [--tier quick|thorough].

exit 0: held on everything explored; exit 1 with VIOLATION line: broken; anything else: error of the check.
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
sys.path.insert(0, VERIF)
import build as B
from plan import PLAN, REAL, STUB

def die(msg, code=2):
    print('ERROR: ' + msg)
    sys.stdout.flush()
    sys.exit(code)

def load_known(prop):
    """known_findings.txt: 'KNOWN property=<id> class=<class> match=<text> :: what fails' (one per line)."""
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'KNOWN property=(\S+) class=(\S+) match=(.*?) :: (.*)$', line.rstrip('\n'))
            if m and m.group(1) == prop:
                out.append(dict(cls=m.group(2), match=m.group(3), what=m.group(4)))
    except FileNotFoundError:
        pass
    return out

def replay(exe, path, trace=False, symbolize=False):
    env = dict(os.environ)
    if symbolize:
        env['ASAN_OPTIONS'] = 'symbolize=1'
    r = subprocess.run([exe, 'replay', '--file', path] + (['--trace', '1'] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
    first = r.stdout.decode(errors='replace').split('\n', 1)[0]
    try:
        return json.loads(first), r.stdout.decode(errors='replace')
    except ValueError:
        return None, r.stdout.decode(errors='replace')

def symbolise_race(exe, cls):
    m = re.match(r'race:(0x[0-9a-f]+):(0x[0-9a-f]+)$', cls)
    if not m:
        return None
    r = subprocess.run(['addr2line', '-Cfi', '-e', exe, m.group(1), m.group(2)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return r.stdout.decode(errors='replace')

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = int(a.seed)
    except ValueError:
        seed = 1
    prop = a.prop
    if prop not in PLAN:
        die('unknown property ' + prop)
    t0 = time.time()
    plan = PLAN[prop]
    legs = plan['legs']           # [(workload, variant, quick runs, share of processes)]
    cap = 420.0 if tier == 'quick' else 3000.0
    factor = (1.0 if tier == 'quick' else 25.0) * a.scale
    exes = {}
    for v in sorted({l[1] for l in legs}):
        try:
            exes[v], _ = B.build(v)
        except B.Build_error as e:
            die('build failed\n' + str(e)[-6000:])
    build_s = time.time() - t0
    known = load_known(prop)
    tmp = tempfile.mkdtemp(prefix='chk.%s.' % prop, dir=B.BUILD)
    rc = 2
    try:
        rc = explore(a, prop, plan, legs, tier, seed, exes, known, tmp, cap, factor, t0, build_s)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def explore(a, prop, plan, legs, tier, seed, exes, known, tmp, cap, factor, t0, build_s):
    ncpu = os.cpu_count() or 8
    stop = os.path.join(tmp, 'stop')
    kf = os.path.join(tmp, 'known')
    with open(kf, 'w') as f:
        for k in known:
            f.write('%s\t%s\n' % (k['cls'], k['match']))
    tasks = []
    cpu = 0
    for li, (wl, variant, runs, share) in enumerate(legs):
        n = max(1, share)
        total = int(runs * factor)
        for k in range(n):
            out = os.path.join(tmp, 'o%d.%d.json' % (li, k))
            cmd = [exes[variant], 'batch', '--prop', prop, '--workload', wl, '--seed', str(seed), '--from', str(k), '--stride', str(n),
                   '--max-runs', str((total - k + n - 1) // n), '--budget', '%.1f' % (cap), '--out', out, '--stop', '1', '--max-violations', '1',
                   '--stop-file', stop, '--known', kf, '--cpu', str(cpu % ncpu)]
            cpu += 1
            tasks.append((li, out, cmd))
    e0 = time.time()
    procs = [(li, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)) for li, out, cmd in tasks]
    res, errs = [], []
    for li, out, p in procs:
        try:
            _, err = p.communicate(timeout=cap + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            errs.append('a batch process did not finish')
            continue
        try:
            j = json.load(open(out))
        except (OSError, ValueError):
            errs.append('a batch process gave no result (exit %s): %s' % (p.returncode, err.decode(errors='replace')[-2000:]))
            continue
        res.append((li, j))
    explore_s = time.time() - e0
    tot = dict(runs=0, steps=0, sim_us=0, switches=0, threads=0, accesses=0, faulty=0)
    faults, probes, samples, hashes, kh = {}, {}, [], set(), {}
    per_leg = [dict(workload=l[0], variant=l[1], runs=0, distinct=set(), traces=set(), planned=int(l[2] * factor)) for l in legs]
    viol, internal = [], []
    for li, j in res:
        for k in ('runs', 'steps', 'sim_us', 'switches', 'threads', 'accesses'):
            tot[k] += j[k]
        tot['faulty'] += j['runs_with_fault']
        per_leg[li]['runs'] += j['runs']
        per_leg[li]['distinct'].update(j['hashes'])
        per_leg[li]['traces'].update(j['traces'])
        for h in j['traces']:
            hashes.add((li, h))
        for k, v in j['faults'].items():
            f = faults.setdefault(k, dict(opportunities=0, fired=0, runs=0))
            f['opportunities'] += v[0]; f['fired'] += v[1]; f['runs'] += v[2]
        for k, v in j['probes'].items():
            p = probes.setdefault(k, dict(runs=0, times=0))
            p['runs'] += v[0]; p['times'] += v[1]
        for k, v in j['known'].items():
            kh[k] = kh.get(k, 0) + v
        if len(samples) < 8:
            samples += ['[%s/%s] %s' % (legs[li][0], legs[li][1], s) for s in j['samples'][:2]]
        for v in j['violations']:
            viol.append((li, v))
        if j['internal']:
            internal.append(j['internal_msg'])
    rc = 0
    out_lines = []
    nviol = 0
    pick = None
    for li, v in viol:
        # gate: the same choices twice in fresh processes give the same violation and event hash
        exe = exes[legs[li][1]]
        r = [replay(exe, v['file'])[0] for _ in range(2)]
        if any(x is None or x['status'] != 2 for x in r):
            errs.append('a violation did not reproduce: %s (%s) seed %s; replays gave %s' % (v['cls'], v['msg'][:500], v['seed'], [x and (x['status'], x['cls'], x['hash'] == v['hash']) for x in r]))
            continue
        exact = all(x['cls'] == v['cls'] for x in r) and r[0]['hash'] == r[1]['hash']
        if exact or pick is None:
            pick = (li, v)
        if exact:
            break
    if pick is not None:
        li, v = pick
        variant = legs[li][1]
        exe = exes[variant]
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        raw = os.path.join(rdir, '%s-%s.full.replay' % (prop, v['seed']))
        mini = os.path.join(rdir, '%s-%s.replay' % (prop, v['seed']))
        shutil.copyfile(v['file'], raw)
        m = subprocess.run([exe, 'minimise', '--file', v['file'], '--out', mini, '--budget', '40' if tier == 'quick' else '120'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        final = mini
        r3, _ = replay(exe, mini) if m.returncode == 3 else (None, '')
        if not (r3 and r3['status'] == 2 and r3['cls'] == v['cls']):
            final = raw
        r4, text = replay(exe, final, trace=False, symbolize=True)
        msg = (r4 or v).get('msg', v['msg'])
        extra = symbolise_race(exe, v['cls'])
        print('property %s is violated: %s' % (prop, v['cls']))
        print('  workload %s, variant %s, seed %s' % (legs[li][0], variant, v['seed']))
        print('  scenario: %s' % (r4 or v).get('desc', ''))
        print('  ' + msg[:3000].replace('\n', '\n  '))
        if extra:
            print('  ' + extra[:3000].replace('\n', '\n  '))
        print('  minimiser: %s' % m.stdout.decode(errors='replace').strip())
        print('  replay with: python3 /verif/replay.py %s' % final)
        out_lines.append('VIOLATION property=%s replay=%s' % (prop, final))
        nviol = 1
        rc = 1
    if rc == 0 and (errs or internal):
        for e in errs + internal:
            print('ERROR: ' + e)
        rc = 2
    short = [l for l in per_leg if l['runs'] < l['planned']]
    wall = time.time() - t0
    cov = dict(
        evaluations=tot['runs'],
        distinct_nontrivial=len(hashes),
        rule='One evaluation is one simulated run: a seed decides dataset, configuration, operations, every scheduling decision and every fault. '
             'Counted as distinct and non-trivial: runs whose trace hash (sequence of scheduling points with their threads and objects, faults and workload events) differs from that of every other run of the same leg.',
        samples=samples[:6],
        legs=[dict(workload=l['workload'], variant=l['variant'], runs=l['runs'], planned=l['planned'], distinct_schedules=len(l['distinct']), distinct_traces=len(l['traces'])) for l in per_leg],
        explore_wall_s=round(explore_s, 2), build_wall_s=round(build_s, 2),
        runs_per_hour=int(tot['runs'] / max(explore_s, 1e-3) * 3600), seeds_per_hour=int(tot['runs'] / max(explore_s, 1e-3) * 3600),
        simulated_time_s=round(tot['sim_us'] / 1e6, 3), scheduling_steps=tot['steps'], context_switches=tot['switches'],
        simulated_threads=tot['threads'], instrumented_accesses=tot['accesses'],
        runs_with_fault=tot['faulty'], faults=faults, probes=probes,
        distinct_schedules=sum(len(l['distinct']) for l in per_leg),
        interleaving_measure='distinct_schedules: hash of the sequence of (thread, point) decisions, per leg, summed; distinct_nontrivial: the same with objects, faults and events',
        components_real=plan.get('real', REAL), components_stub=plan.get('stub', STUB),
        oracle=plan['oracle'], stopped_early=[dict(workload=l['workload'], variant=l['variant'], runs=l['runs'], planned=l['planned']) for l in short])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=plan.get('assumptions', []) + ['sampling: the schedules, inputs and faults of these seeds, not all', 'code outside the simulator (kernel, libstdc++, zlib, OpenCV, protobuf) behaves as documented'],
              wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        n = kh.get('%s\t%s' % (k['cls'], k['match']), 0)
        print('KNOWN-FINDING: property=%s %s (hit by %d runs)' % (prop, k['what'], n))
    print('%s %s: %d runs, %d distinct traces, %d with faults, %.1f s exploring (%d runs/h), %.1f s in all' % (prop, tier, tot['runs'], len(hashes), tot['faulty'], explore_s, cov['runs_per_hour'], wall))
    for l in out_lines:
        print(l)
    return rc

if __name__ == '__main__':
    main()
