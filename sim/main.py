"""The driver behind check.py: seeded search, minimisation, replay files, evidence."""
import argparse
import json
import os
import sys
import time
from collections import Counter

from . import runner

# runs per tier
RUNS = {'C01': (840, 27000), 'C02': (1260, 40500), 'C03': (2240, 72000), 'C04': (1050, 33750),
        'C05': (3500, 112500), 'C06': (979, 31500), 'C07': (1260, 40500), 'C08': (979, 31500),
        'C09': (1680, 54000), 'C10': (979, 31500), 'C11': (770, 24750), 'C12': (1680, 54000),
        'C13': (1400, 45000), 'C14': (1819, 58500), 'C15': (1959, 63000), 'C16': (1050, 33750),
        'C17': (700, 22500), 'C18': (700, 22500)}
QUICK_WALL, THOROUGH_WALL = 420, 3 * 3600


def make_plan(prop, seed, tier):
    from . import plans
    if prop in plans.PROFILES:
        return plans.plan(prop, seed, tier)
    if prop in ('C03', 'C13'):
        from . import conc
        return conc.plan(prop, seed, tier)
    if prop == 'C05':
        from . import damage
        return damage.plan(prop, seed, tier)
    if prop == 'C12':
        from . import streams
        return streams.plan(prop, seed, tier)
    raise SystemExit('unknown property ' + prop)


def canon(plan):
    return json.loads(json.dumps(plan))


# ---------------------------------------------------------------- minimisation
def minimise(plan, res, budget):
    """drop steps, faults and schedule switches while the same kind of violation persists"""
    t0 = time.monotonic()
    best, bres = plan, res
    tried = 0

    def test(cands):
        nonlocal best, bres, tried
        hits = []
        for p, r in runner.run_many(cands, 8, stop=lambda: time.monotonic() - t0 > budget):
            tried += 1
            if r['status'] == 'violation' and r['cat'] == res['cat']:
                hits.append((cands.index(p), p, r))
        if hits:
            hits.sort(key=lambda h: h[0])
            best, bres = hits[0][1], hits[0][2]
            return True
        return False

    def shrink_list(get, put):
        n = 2
        while time.monotonic() - t0 < budget:
            items = get(best)
            if not items:
                return
            n = min(n, len(items))
            size = -(-len(items) // n)
            cands = [put(best, items[:i] + items[i + size:]) for i in range(0, len(items), size)]
            if n == 2 and len(items) > 1:
                cands = [put(best, [])] + cands
            if test(cands):
                n = max(2, n - 1)
                continue
            if size == 1:
                return
            n = min(len(items), n * 2)

    if plan.get('sched') and res.get('switches') and not plan.get('switches'):
        # the schedule as an explicit list of switches, which can be shortened
        cand = dict(plan, switches=res['switches'])
        for _, r in runner.run_many([cand], 1):
            if r['status'] == 'violation' and r['cat'] == res['cat']:
                best, bres, plan = cand, r, cand

    def put_key(key):
        def put(p, items):
            return dict(p, **{key: items})
        return put

    for key in ('steps', 'damages', 'sub', 'faults'):
        if isinstance(plan.get(key), list):
            shrink_list(lambda p: p.get(key) or [], put_key(key))
    if isinstance(plan.get('bodies'), list):
        for b in range(len(plan['bodies'])):
            def get(p, b=b):
                return p['bodies'][b]

            def put(p, items, b=b):
                return dict(p, bodies=p['bodies'][:b] + [items] + p['bodies'][b + 1:])
            shrink_list(get, put)
    for b in range(len(best.get('sub') or [])):
        def get(p, b=b):
            return p['sub'][b]['steps']

        def put(p, items, b=b):
            return dict(p, sub=p['sub'][:b] + [dict(p['sub'][b], steps=items)] + p['sub'][b + 1:])
        shrink_list(get, put)
    if best.get('switches'):
        shrink_list(lambda p: p.get('switches') or [], put_key('switches'))
    # simplify the environment
    simple = [('tz', 'UTC'), ('neighbours', []), ('opts', {}), ('via', None), ('size', {'entries': 1, 'groups': 0, 'depth': 1, 'binaries': 0, 'foreign': False}),
              ('creds', {'pw': 'password', 'kf': None, 'how': 'path'}), ('name', 'db.kdbx')]
    for k, v in simple:
        if k in best and best[k] != v and time.monotonic() - t0 < budget:
            if k == 'opts':
                v = {a: b for a, b in best['opts'].items() if a not in ('relative', 'pathlib')}
            test([dict(best, **{k: v})])
    for i, s in enumerate(best.get('steps') or []):
        for k in ('faults', 'to', 'verify', 'tk', 'pathlib'):
            if s.get(k) and time.monotonic() - t0 < budget:
                n = [dict(x) for x in best['steps']]
                del n[i][k]
                test([dict(best, steps=n)])
    return best, bres, tried


# ---------------------------------------------------------------- known findings
def known_findings(here, prop):
    out = []
    try:
        with open(os.path.join(here, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    out.append(line.split(' ', 2)[2])
    except FileNotFoundError:
        pass
    return out


def main(here):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--replay')
    ap.add_argument('--digest', action='store_true')
    ap.add_argument('--all', action='store_true', help='report all violations, no minimisation (development)')
    a = ap.parse_args()
    try:
        runner.library()
    except BaseException as e:
        import traceback
        tb = traceback.format_exc()
        print(tb[-2000:])
        if os.path.join(os.environ.get('VSIM_REPO', '/repo'), 'pykeepass') in tb and not isinstance(e, KeyboardInterrupt):
            # the library cannot even be imported
            return report(here, a.prop, a.tier, a.seed, canon(make_plan(a.prop, 0, a.tier)),
                          dict(seed=0, status='violation', cat='run/import', msg='importing the library failed: %s' % e), a.replay)
        print('HARNESS-ERROR: %s' % e)
        return 2
    if a.prop in ('C01', 'C02', 'C06', 'C11') and not a.replay:
        runner.warm_up()
    if a.replay:
        return replay(here, a)
    return search(here, a)


def replay(here, a):
    with open(a.replay) as f:
        rec = json.load(f)
    r = runner.run_one(rec['plan'])
    print('replay: %s %s' % (r['status'], r.get('cat', '')))
    print('  ' + str(r.get('msg', '')))
    if r['status'] == 'violation':
        same = (r['cat'], r.get('digest'), r['msg']) == (rec['cat'], rec.get('digest'), rec['msg'])
        print('  the execution is %s the recorded one' % ('identical to' if same else 'NOT identical to'))
        print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        return 1
    return 0 if r['status'] == 'ok' else 2


def report(here, prop, tier, seed, plan, res, path=None, extra=None):
    if not path:
        d = os.path.join(here, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (prop, plan['seed']))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, tier=tier, verif_seed=seed, run_seed=plan['seed'], cat=res['cat'], msg=res['msg'], digest=res.get('digest'),
                       plan=plan, **(extra or {})), f, indent=1)
    print('%s: %s' % (res['cat'], res['msg']))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()
    return 1


def search(here, a):
    t0 = time.monotonic()
    n = a.runs or RUNS[a.prop][a.tier == 'thorough']
    base = a.seed * 1_000_003
    wall = QUICK_WALL if a.tier != 'thorough' else THOROUGH_WALL
    tot = dict(stats=Counter(), faults=Counter(), ops=Counter(), ignored=Counter(), sim_ns=0)
    states, digests, seen = set(), {}, set()
    nontrivial = 0
    bad, harness, done, samples, cpu = [], [], 0, [], 0.0
    print('property=%s tier=%s seed=%d runs=%d' % (a.prop, a.tier, a.seed, n))
    sys.stdout.flush()
    gen_plans = (canon(make_plan(a.prop, base + i, a.tier)) for i in range(a.first, a.first + n))
    stop = (lambda: False) if a.all else (lambda: bool(bad))
    for p, r in runner.run_many(gen_plans, a.workers, stop=stop, deadline=t0 + wall):
        done += 1
        cpu += r.get('wall', 0)
        for k in ('stats', 'faults', 'ops', 'ignored'):
            tot[k].update(r.get(k, {}))
        tot['sim_ns'] += r.get('sim_ns', 0)
        states.update(r.get('states', ()))
        if r.get('digest') and r['digest'] not in seen:
            if r.get('stats', {}).get('checks', 0) or any(k in r.get('stats', {}) for k in ('live-compare', 'decoded-save', 'opens', 'judged')):
                nontrivial += 1
        if r.get('digest'):
            digests[p['seed']] = r['digest']
            seen.add(r['digest'])
        if r['status'] == 'violation':
            bad.append((p, r))
            if a.all:
                print('%d %s %s' % (p['seed'] - base, r['cat'], r['msg'][:300]))
        elif r['status'] == 'harness':
            harness.append((p, r))
            if a.all:
                print('%d HARNESS %s\n%s' % (p['seed'] - base, r['msg'], r.get('trace', '')))
        elif len(samples) < 3 and done % 37 == 5:
            samples.append(dict(run_seed=p['seed'], plan=abridge(p), stats=r.get('stats'), faults=r.get('faults')))
    if a.digest:
        import hashlib
        h = hashlib.sha256(json.dumps(sorted(digests.items())).encode()).hexdigest()
        print('digest of %d runs: %s' % (len(digests), h))
        with open('/tmp/digests-%s-%s.json' % (a.prop, os.getpid()), 'w') as f:
            json.dump(sorted(digests.items()), f)
    if a.all:
        print(dict(tot['stats']))
        print('faults', dict(tot['faults']))
        print('ignored', dict(tot['ignored']))
        print('runs %d, %.1f s, %d states, %d violations, %d harness' % (done, time.monotonic() - t0, len(states), len(bad), len(harness)))
        return 1 if bad else 2 if harness else 0
    code = 0
    if bad:
        bad.sort(key=lambda x: x[0]['seed'])
        p, r = bad[0]
        print('violation in run %d after %.0f s: %s: %s' % (p['seed'], time.monotonic() - t0, r['cat'], r['msg'][:400]))
        sys.stdout.flush()
        mp, mr, tried = p, r, 0
        try:
            if r['cat'] != 'run/progress':
                mp, mr, tried = minimise(p, r, 60 if a.tier != 'thorough' else 300)
        except Exception as e:
            print('minimisation stopped: %s' % e)
            mp, mr = p, r
        code = report(here, a.prop, a.tier, a.seed, mp, mr, extra=dict(original_plan=p, minimisation_runs=tried))
    elif harness:
        p, r = harness[0]
        print('HARNESS-ERROR in run %d: %s\n%s' % (p['seed'], r['msg'], r.get('trace', '')))
        code = 2
    elif done < min(n, 40):
        print('HARNESS-ERROR: only %d runs finished' % done)
        code = 2
    for k in known_findings(here, a.prop):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    wall_s = time.monotonic() - t0
    evidence(here, a, done, n, nontrivial, tot, states, digests, samples, wall_s, len(bad), len(harness))
    print('%d runs in %.1f s, %d distinct states, faults: %s' % (done, wall_s, len(states), dict(tot['faults'])))
    if code == 0:
        print('OK property=%s' % a.prop)
    return code


def abridge(p):
    q = {k: v for k, v in p.items() if k not in ('steps',)}
    s = p.get('steps')
    if s:
        q['steps'] = [x if len(repr(x)) < 300 else {'op': x.get('op'), '...': len(repr(x))} for x in s[:25]]
    return q if len(repr(q)) < 6000 else dict(kind=p.get('kind'), cfg=p.get('cfg'), note='plan of %d characters' % len(repr(q)))


REAL = ['pykeepass (all modules of the working tree)', 'lxml/libxml2', 'construct', 'pycryptodome', 'argon2-cffi', 'CPython I/O and tempfile']
STUB = ['wall clock, time zone (simulated)', 'random source (seeded generator behind getrandom)', 'file system: real calls on a memory-backed scratch directory, each one announced to the simulator, which fails, shortens, '
        'reorders, records or drops it; fsync is recorded, not executed', 'thread schedule (one thread at a time, switches chosen by the plan)', 'process and power failure (reconstructed from the recorded calls)']
RULES = {
    'hist': 'a case is one simulated run: an initial database, credentials, clock and a history of API calls with faults placed inside them, all drawn from one seed; '
            'non-trivial = its event log is distinct and at least one full state comparison or independent decoding of a written file was made',
    'C03': 'a case is one simulated run of 2-4 callers opening and saving under one schedule; non-trivial = distinct event log and at least one open or save judged',
    'C05': 'a case is one saved file with a set of damaged copies opened; non-trivial = distinct event log and at least one damaged copy judged',
    'C12': 'a case is one run of opens, saves and reloads on faulty streams; non-trivial = distinct event log and at least one outcome judged',
    'C13': 'a case is one run of 2-3 database objects interleaved at line granularity compared with solo runs; non-trivial = distinct event log and at least one outcome judged',
}


def evidence(here, a, done, n, nontrivial, tot, states, digests, samples, wall_s, bad, harness):
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    ops = {k[3:]: v for k, v in tot['stats'].items() if k.startswith('op:')}
    cov = dict(
        evaluations=done, distinct_nontrivial=nontrivial, rule=RULES.get(a.prop, RULES['hist']), samples=samples or [dict(note='no sample kept')],
        runs_requested=n, first_run_seed=a.seed * 1_000_003 + a.first, runs_per_hour=round(done / max(wall_s, 0.01) * 3600),
        simulated_seconds=round(tot['sim_ns'] / 1e9, 3), faults_injected=dict(sorted(tot['faults'].items())), file_system_calls=dict(sorted(tot['ops'].items())),
        operations=dict(sorted(ops.items())), checks={k: v for k, v in sorted(tot['stats'].items()) if not k.startswith('op:')},
        distinct_states=len(states), state_measure='distinct hashes of the whole compared state (contents as seen through the API; for crashes: crash point, kind and file sizes; for schedules: sequence of switches)',
        distinct_event_logs=len(set(digests.values())), differences_left_to_other_properties=dict(sorted(tot['ignored'].items())),
        ran_real=REAL, ran_stub=STUB, harness_errors=harness)
    ev = dict(property=a.prop, tier='thorough' if a.tier == 'thorough' else 'quick', seed=a.seed, level='exploration', coverage=cov,
              assumptions=['the simulated disk orders directory updates and loses unsynced data only', 'the independent reader and writer in sim/kdbxref.py follow the published format',
                           'clean runs are evidence over the sampled histories, not a proof'],
              wall_s=round(wall_s, 2), violations=bad)
    with open(os.path.join(here, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
