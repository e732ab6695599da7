#!/opt/venv/bin/python
"""Decide one property by seeded simulation.

  check.py C01                    (VERIF_TIER=quick|thorough, VERIF_SEED=n)
  check.py C01 --replay FILE      reproduce a recorded violation
  check.py --setup                build once and smoke test the simulator
  check.py --determinism [C01..]  self test of the simulator: every run twice

Exit codes: 0 the property held on every simulated run, 1 a violation (with a
VIOLATION line and a minimised replay file), 2 the check itself failed.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import engine, gen, props  # noqa: E402

VERIF = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('ABXSIM_OUT', os.path.join(VERIF, 'evidence'))
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
WALL = {'quick': 480, 'thorough': 3 * 3600}


def load_findings(prop):
    out = {}
    try:
        with open(FINDINGS) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == 'finding:' and \
                        w[1] == 'property=' + prop and \
                        w[2].startswith('key='):
                    out[w[2][4:]] = w[3].strip()
    except FileNotFoundError:
        pass
    return out


def specs(mod, name, tier, seed, count=None):
    """The runs of a tier: its fixed scenarios, then the seeded ones."""
    n = count if count is not None else mod.COUNT[tier]
    fixed = mod.corpus(tier) if hasattr(mod, 'corpus') else []
    for i, s in enumerate(fixed):
        s = dict(s)
        s.setdefault('seed', i + 1)
        s['id'] = 'fixed%d' % i
        yield s
    for i in range(n):
        rng = random.Random('%s/%d/%d' % (name, seed, i))
        s = mod.make(rng, i, tier)
        s['seed'] = rng.randrange(1, 1 << 31)
        s['id'] = '%d.%d' % (seed, i)
        yield json.loads(json.dumps(s))


def keys_of(res):
    return [v['key'] for v in res.get('violations', ())]


def minimise(eng, mod, name, spec, res, key, budget):
    """Greedy reduction; every step re-runs the simulation."""
    end = time.monotonic() + budget
    best, best_res = spec, res
    tried = 0
    if spec.get('sched', {}).get('kind') not in (None, 'serial', 'list') \
            and res.get('switches') is not None:
        s = dict(spec, sched={'kind': 'list', 'seed': 0,
                              'list': res['switches']})
        r = eng.one(name, s, hashseed=spec.get('hashseed'))
        tried += 1
        if key in keys_of(r):
            best, best_res = s, r
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        cands = []
        # building the candidates may cost as much as running them
        stop = time.monotonic() + (end - time.monotonic()) / 4
        for s in mod.shrink(best):
            cands.append(s)
            if time.monotonic() > stop:
                break
        random.Random(0).shuffle(cands)
        cands.sort(key=gen.complexity)
        i = 0
        while i < len(cands) and time.monotonic() < end and not progress:
            batch = cands[i:i + eng.n]
            i += eng.n
            jobs = [(k, name, s, {}, best.get('hashseed'))
                    for k, s in enumerate(batch)]
            got = {}
            for job, r in eng.map(jobs):
                got[job[0]] = r
                tried += 1
            for k, s in enumerate(batch):
                if key in keys_of(got.get(k, {})) and \
                        gen.complexity(s) <= gen.complexity(best):
                    best, best_res = s, got[k]
                    progress = True
                    break
    return best, best_res, tried


def write_replay(prop, name, spec, res, key, hist):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(spec, sort_keys=True)
    p = os.path.join(d, '%s-%s.json' % (
        prop, hashlib.sha256(blob.encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        json.dump({'property': prop, 'check': name, 'key': key,
                   'violations': res['violations'], 'hash': res['hash'],
                   'spec': spec, 'found_as': hist}, f, indent=1)
        f.write('\n')
    return p


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    eng = engine.Engine(workers=1,
                        hashseeds=(r['spec'].get('hashseed') or 0,))
    try:
        eng.start()
        res = eng.one(r['check'], r['spec'], {})
    finally:
        eng.close()
    if 'harness' in res:
        print('HARNESS ERROR: ' + res['harness'])
        return 2
    for v in res['violations']:
        print('  [%s] %s' % (v['key'], v['msg']))
    same = res['hash'] == r['hash']
    print('history %s (recorded %s): %s' % (
        res['hash'], r['hash'], 'identical' if same else 'DIFFERENT'))
    if r['key'] in keys_of(res):
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    print('not reproduced')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='*')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--count', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--determinism', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    if a.setup:
        return setup()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.determinism:
        return determinism(a.property or sorted(props.PROPS), a)
    if a.replay:
        return replay(a.property[0] if a.property else None, a.replay)
    if len(a.property) != 1:
        ap.error('one property')
    return decide(a.property[0], a)


def setup():
    """Nothing is kept between runs; this shows the machinery works here."""
    eng = engine.Engine(workers=2)
    try:
        eng.start()
        mod = importlib.import_module('sim.checks.c16')
        s = next(specs(mod, 'c16', 'quick', 1, 1))
        print('setup: %s' % eng.one('c16', s).get('hash'))
    except engine.BuildError as e:
        print('setup: /repo does not build: %s' % e)
    finally:
        eng.close()
    return 0


def decide(prop, a):
    t0 = time.monotonic()
    P = props.PROPS[prop]
    name = P['check']
    mod = importlib.import_module('sim.checks.' + name)
    findings = load_findings(prop)
    hashseeds = getattr(mod, 'HASHSEEDS', (0,))
    eng = engine.Engine(workers=a.workers, hashseeds=hashseeds)
    agg = {'faults': collections.Counter(), 'notes': collections.Counter()}
    traces, orders, sigs, hashes = set(), set(), set(), set()
    runs = events = nontrivial = 0
    sim_ns = 0
    samples, found, harness, sample_jobs = [], [], [], []
    try:
        eng.start()
        t_start = time.monotonic()
        jobs = ((i, name, s, {}, s.get('hashseed')) for i, s in enumerate(
            specs(mod, name, a.tier, a.seed, a.count)))

        def stop():
            return found and not a.keep_going

        for job, res in eng.map(jobs, stop=stop, wall=WALL[a.tier]):
            runs += 1
            if 'harness' in res:
                harness.append((job[2], res['harness']))
                continue
            events += res['events']
            sim_ns += res['sim_ns']
            agg['faults'].update(res['faults'])
            agg['notes'].update(res['notes'])
            for tr, lo in res['traces']:
                traces.add(tr)
                orders.add(lo)
            sigs.update(res['sigs'])
            if res['events'] and (res['sigs'] or res['traces'] or
                                  res['faults']):
                nontrivial += 1
                hashes.add(res['hash'])
            if len(samples) < 3 and res['sigs']:
                samples.append({'spec': job[2], 'history': res['hash'],
                                'faults': res['faults'],
                                'notes': res['notes']})
            if len(sample_jobs) < 8 and not res['violations'] and \
                    res['wall'] < 5:
                sample_jobs.append((job, res['hash']))
            vs = [v for v in res['violations'] if v['key'] not in findings]
            if vs:
                found.append((job[2], res, vs[0]))
        explore_s = time.monotonic() - t_start
        # determinism: a sample of the runs again, on other workers
        same = diff = 0
        if not found and not harness and sample_jobs:
            want = {k: h for k, (_, h) in enumerate(sample_jobs)}
            again = [(k, name, j[2], {}, j[2].get('hashseed'))
                     for k, (j, _) in enumerate(reversed(sample_jobs))]
            want = {k: h for k, (_, h) in enumerate(reversed(sample_jobs))}
            for job, res in eng.map(again):
                if res.get('hash') == want[job[0]]:
                    same += 1
                else:
                    diff += 1
        status = 0
        if found:
            found.sort(key=lambda f: gen.complexity(f[0]))
            for spec, res, v in found[:4]:
                again = eng.one(name, spec, hashseed=spec.get('hashseed'))
                if v['key'] in keys_of(again):
                    break
            if v['key'] not in keys_of(again):
                print('HARNESS ERROR: run %s is not repeatable: %s' % (
                    spec.get('id'), v['msg']))
                print(again.get('harness', again.get('violations')))
                status = 2
            else:
                hist = {'id': spec.get('id'), 'seed': a.seed, 'spec': spec}
                best, bres, tried = minimise(
                    eng, mod, name, spec, again, v['key'],
                    float(os.environ.get('ABXSIM_MINIMISE') or
                          (60 if a.tier == 'quick' else 300)))
                path = write_replay(prop, name, best, bres, v['key'], hist)
                msg = [x for x in bres['violations']
                       if x['key'] == v['key']][0]['msg']
                print('run %s (seed %d), minimised in %d re-runs' % (
                    spec.get('id'), a.seed, tried))
                print('[%s] %s' % (v['key'], msg))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                status = 1
        elif harness:
            print('HARNESS ERROR in %d runs, first (%s):\n%s' % (
                len(harness), harness[0][0].get('id'), harness[0][1]))
            status = 2
    except engine.BuildError as e:
        print('HARNESS ERROR: %s' % e)
        status = 2
        explore_s = max(0.001, time.monotonic() - t0)
        same = diff = 0
    finally:
        eng.close()
    for k, what in sorted(findings.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    wall = time.monotonic() - t0
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(hashes),
        'rule': P['rule'] + ' A run is one simulated execution, fully decided '
        'by its seed; runs are distinct when the hashes of their complete '
        'histories (every simulated system call with its result, scheduler '
        'decision and outcome) differ.',
        'samples': samples or [{'note': 'no sample'}],
        'runs_per_hour': int(runs / max(explore_s, 1e-3) * 3600),
        'seeds_per_hour': int(runs / max(explore_s, 1e-3) * 3600),
        'nontrivial_runs': nontrivial,
        'simulated_events': events,
        'simulated_seconds': round(sim_ns / 1e9, 3),
        'faults_injected': dict(agg['faults']),
        'distinct_interleavings': len(traces),
        'distinct_lock_and_task_orders': len(orders),
        'distinct_states': len(sigs),
        'state_measure': P.get('measure', ''),
        'counters': dict(agg['notes']),
        'determinism_rechecks': {'identical': same, 'different': diff},
        'real_components': props.REAL,
        'stubbed_components': props.STUB,
        'harness_errors': len(harness),
    }
    ev = {'property': prop, 'tier': a.tier, 'seed': a.seed,
          'level': P['level'], 'coverage': cov, 'wall_s': round(wall, 2),
          'assumptions': props.ASSUMPTIONS + P.get('assumptions', []),
          'violations': len(found)}
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d runs, %d distinct, %d events, %d faults, %.1f s%s' % (
        prop, a.tier, runs, len(hashes), events,
        sum(agg['faults'].values()), wall,
        ', %d NOT REPEATABLE' % diff if diff else ''))
    return status


def determinism(which, a):
    """Every run twice: other worker counts, other order."""
    bad = 0
    for prop in which:
        name = props.PROPS[prop]['check']
        mod = importlib.import_module('sim.checks.' + name)
        got = []
        for workers in (8, 3):
            eng = engine.Engine(workers=workers,
                                hashseeds=getattr(mod, 'HASHSEEDS', (0,)))
            try:
                eng.start()
                h = {}
                ss = list(specs(mod, name, a.tier, a.seed, a.count or 40))
                if workers == 3:
                    ss.reverse()
                jobs = ((i, name, s, {}, s.get('hashseed')
                         if workers == 8 else None)
                        for i, s in enumerate(ss))
                for job, res in eng.map(jobs):
                    h[job[2]['id']] = res.get('hash'), res.get('harness')
                got.append(h)
            finally:
                eng.close()
        n = [k for k in got[0] if got[0][k][0] != got[1][k][0]]
        bad += len(n)
        print('%s: %d runs, %d differ %s' % (prop, len(got[0]), len(n), n[:5]))
        for h in got:
            for k, v in h.items():
                if v[1]:
                    print('  harness', k, v[1][:300])
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
