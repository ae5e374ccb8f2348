"""Concurrent callers.

C03: callers (threads of one process, or processes with their own instance of the library) open and save databases at
     common and sibling paths; every path must behave like an atomic register (checked by a linearizability search).
C13: independent database objects, each driven by its own history and model, interleaved at line granularity.
"""
import copy
import hashlib
import os
import random
import sys
import _thread
from collections import Counter

from . import gen, hist, kdbxref as ref, model as M, plans
from .seam import Deadlock, HarnessError, Recorder, Scheduler, World


def make(plan, pk, lib):
    return (Conc if plan['kind'] == 'conc' else Indep)(plan, pk, lib)


def fresh_library():
    """another instance of the library, as another process would have it"""
    from . import runner, seam
    import threading
    saved = {n: m for n, m in sys.modules.items() if n == 'pykeepass' or n.startswith('pykeepass.')}
    for n in saved:
        del sys.modules[n]
    real = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = seam.SimLock, seam.SimRLock
    try:
        import pykeepass
        mods = {n: m for n, m in sys.modules.items() if n == 'pykeepass' or n.startswith('pykeepass.')}
        runner.proxy_threading(mods)
        return pykeepass, mods
    finally:
        threading.Lock, threading.RLock = real
        for n in list(sys.modules):
            if n == 'pykeepass' or n.startswith('pykeepass.'):
                del sys.modules[n]
        sys.modules.update(saved)


def policy(rng):
    k = rng.random()
    if k < 0.25:
        p = {'fs': rng.choice([0.1, 0.3, 0.6]), 'line': 0, 'hot': 0}
    elif k < 0.5:
        p = {'fs': rng.choice([0.1, 0.4]), 'line': rng.choice([0.0005, 0.003, 0.02]), 'hot': 0}
    elif k < 0.7:
        p = {'fs': rng.choice([0, 0.2, 0.5]), 'line': rng.choice([0, 0.0005]), 'hot': rng.choice([0.05, 0.3])}
    else:
        # threads meet inside a few functions
        p = {'fs': rng.choice([0, 0.1]), 'line': 0, 'hot': rng.choice([0.2, 0.5]), 'func': rng.choice([6, 12, 24]), 'cap': rng.choice([6, 20])}
    p['seed'] = rng.randrange(10**9)
    return p


def plan(prop, seed, tier='quick'):
    rng = random.Random('%s/%d' % (prop, seed))
    if prop == 'C03':
        return plan_conc(rng, prop, seed)
    return plan_indep(rng, prop, seed)


# ---------------------------------------------------------------- C03
NAMES = ['db.kdbx', 'db.bak', 'db.tmp', 'db', 'db.kdbx.tmp', 'other.kdbx', 'copy.kdbx', 'copy.tmp', 'd.kdbx', 'db.kdbx.bak', 'Db.kdbx']


def plan_conc(rng, prop, seed):
    names = rng.sample(NAMES, rng.choice([1, 1, 2, 2, 3]))
    if rng.random() < 0.5 and 'db.kdbx' not in names:
        names[0] = 'db.kdbx'
    n = rng.choice([2, 2, 3, 3, 4])
    p = {'prop': prop, 'seed': seed, 'kind': 'conc', 'names': names, 'procs': rng.random() < 0.4, 'sched': policy(rng),
         'cfgs': [gen.config(rng, ciphers=('aes256', 'chacha20', 'aes256', 'twofish')) for _ in names],
         'dbseed': rng.randrange(10**9), 'blob': [rng.choice([0, 300, 9000, 20000, 70000]) for _ in names],
         'neighbours': rng.sample(['notes.txt', 'other.tmp', 'x.kdbx.tmp', 'tmp', '.tmp', 'y.kdbx~'], 2),
         'clock': {'now': rng.randint(1_500_000_000, 2_000_000_000) * 10**9, 'tick': rng.choice([0, 0, 1000, 10**6])}}
    for c, b in zip(p['cfgs'], p['blob']):
        if c['cipher'] == 'twofish' and (b > 5000 or rng.random() < 0.8 or p['sched']['line'] or p['sched']['hot']):
            c['cipher'] = 'aes256'
        if b:
            c['comp'] = 0
    bodies, v = [], 0
    for i in range(n):
        b = [{'op': 'open', 'path': rng.randrange(len(names))}]
        for _ in range(rng.randint(2, 5)):
            k = rng.choice(['save', 'save', 'open', 'reload', 'saveas', 'edit', 'verify'])
            # now and then the same state is saved again
            if k in ('save', 'saveas', 'edit') and not (k != 'edit' and rng.random() < 0.2):
                v += 1
                b.append({'op': 'edit', 'v': v, 'big': rng.random() < 0.2})
            if k == 'save':
                b.append({'op': 'save'})
            elif k == 'saveas':
                b.append({'op': 'save', 'path': rng.randrange(len(names))})
            elif k in ('open', 'verify'):
                b.append({'op': k, 'path': rng.randrange(len(names))})
            elif k == 'reload':
                b.append({'op': 'reload'})
        bodies.append(b)
    p['bodies'] = bodies
    if rng.random() < 0.2:
        f = plans.faults_save(rng)
        who = rng.randrange(n)
        p['faults'] = [dict(r, caller=who) for r in f if r['op'] in ('write', 'sync', 'close', 'rename', 'unlink')]
    return p


class Conc:
    def __init__(self, plan, pk, lib):
        self.plan = plan
        self.w = World(plan['seed'], plan['clock']['now'], plan['clock']['tick'])
        self.w.set_tz('UTC')
        self.stats, self.states, self.ignored = Counter(), set(), Counter()
        self.digest = hashlib.sha256()
        self.lib = lib
        self.clock = 0
        self.ops = []           # dicts: path, kind 'r'/'w', start, end, sig, ok
        self.libs = []
        for i in range(len(plan['bodies'])):
            self.libs.append(fresh_library()[0] if plan['procs'] and i else pk)
        self.switches = []

    def now(self):
        self.clock += 1
        return self.clock

    def sig(self, kp):
        i = self.sched.me.get(_thread.get_ident()) if self.sched else None
        if i is not None:
            self.sched.quiet[i] += 1
        try:
            v = M.live_view(kp)
        finally:
            if i is not None:
                self.sched.quiet[i] -= 1
        return hashlib.sha256(repr(sorted(v.items(), key=repr)).encode()).hexdigest()[:20]

    def run(self):
        self.sched = None
        pid = os.getpid
        try:
            self._run()
        finally:
            os.getpid = pid
            self.w.disarm()
            self.digest.update(repr(self.w.log).encode())
            self.w.close()

    def _run(self):
        p, w = self.plan, self.w
        for n in p['neighbours']:
            w.put(n, b'neighbour ' + n.encode())
        initial = {}
        for k, name in enumerate(p['names']):
            rng = random.Random('%d/%d' % (p['dbseed'], k))
            root, bins = gen.build(rng, p['cfgs'][k], {'entries': 1, 'groups': 1, 'depth': 1, 'binaries': 0}, False)
            data = ref.write(root, p['cfgs'][k], 'password', None, rng, bins)
            if p['blob'][k]:
                w.put(name, data)
                kp = self.libs[0].PyKeePass(w.path(name), password='password')
                b = kp.add_binary(rng.randbytes(p['blob'][k]))
                kp.add_entry(kp.root_group, 'holder', 'h', 'x').add_attachment(b, 'blob')
                kp.save()
                data = w.get(name)
            else:
                w.put(name, data)
            initial[name] = self.sig(self.libs[0].PyKeePass(w.path(name), password='password'))
        self.before = w.image()
        self.digest.update(repr(sorted(initial.items())).encode())
        self.problems = []
        bodies = [lambda i=i: self.body(i) for i in range(len(p['bodies']))]
        self.sched = Scheduler(bodies, p['sched'], p.get('switches'))
        if p['procs']:
            os.getpid = lambda: 4000 + (self.sched.current or 0)
        w.arm(p.get('faults', []))
        errors = self.sched.run(w)
        w.disarm()
        self.switches = self.sched.taken
        self.stats['switches'] += len(self.sched.taken)
        self.states.add(hash(repr(self.sched.log)))
        self.digest.update(repr(self.sched.log).encode())
        self.digest.update(repr(self.ops).encode())
        for e in errors:
            if isinstance(e, Deadlock):
                raise hist.Violation('conc/deadlock', str(e))
        if self.problems:
            raise hist.Violation(*self.problems[0])
        for e in errors:
            if e is not None:
                raise HarnessError('%s: %s' % (type(e).__name__, e))
        self.judge(initial)

    def problem(self, cat, msg):
        self.problems.append((cat, hist.ADDR.sub('0x..', msg.replace(self.w.dir, '.'))))

    def body(self, i):
        names = self.plan['names']
        L = self.libs[i]
        kp = path = None
        for k, s in enumerate(self.plan['bodies'][i]):
            what = 'caller %d step %d' % (i, k)
            self.stats['op:' + s['op']] += 1
            if s['op'] in ('open', 'verify', 'reload'):
                if s['op'] == 'reload' and kp is None:
                    continue
                name = names[s['path']] if 'path' in s else path
                n0 = len(self.w.fired)
                t0 = self.now()
                try:
                    if s['op'] == 'reload':
                        kp.reload()
                        got = kp
                    else:
                        got = L.PyKeePass(self.w.path(name), password='password')
                except Deadlock:
                    raise
                except Exception as e:
                    if len(self.w.fired) > n0 and any(r.get('caller') == i for r in self.plan.get('faults', [])):
                        self.stats['failed-opens'] += 1
                        continue
                    self.problem('conc/open', '%s: opening %s failed: %s' % (what, name, hist.exc_text(e)))
                    return
                t1 = self.now()
                self.ops.append(dict(path=name, kind='r', start=t0, end=t1, sig=self.sig(got), who=what))
                self.stats['opens'] += 1
                if s['op'] == 'open':
                    kp, path = got, name
            elif kp is None:
                continue
            elif s['op'] == 'edit':
                g = kp.root_group
                kp.add_entry(g, 'e%d' % s['v'], 'user %d' % s['v'], 'pw %d' % s['v'], notes='n' * (30000 if s.get('big') else 5))
            elif s['op'] == 'save':
                name = names[s['path']] if 'path' in s else path
                sig = self.sig(kp)
                n0 = len(self.w.fired)
                t0 = self.now()
                try:
                    kp.save(self.w.path(name) if 'path' in s else None)
                    ok = True
                except Deadlock:
                    raise
                except Exception as e:
                    ok = False
                    mine = [r for r in self.plan.get('faults', []) if r.get('caller') == i]
                    if not mine or len(self.w.fired) == n0:
                        self.problem('conc/save', '%s: saving to %s failed: %s' % (what, name, hist.exc_text(e)))
                        return
                t1 = self.now()
                self.ops.append(dict(path=name, kind='w', start=t0, end=t1 if ok else 10**9, sig=sig, ok=ok, who=what))
                self.stats['saves' if ok else 'failed-saves'] += 1

    def judge(self, initial):
        w = self.w
        after = w.image()
        for n, d in self.before.items():
            if n not in self.plan['names'] and after.get(n) != d:
                raise hist.Violation('conc/neighbour', 'the file %s was changed' % n)
        lib = self.libs[0]
        for name in self.plan['names']:
            try:
                fin = self.sig(lib.PyKeePass(w.path(name), password='password'))
            except Exception as e:
                raise hist.Violation('conc/final', 'in the end %s does not open: %s' % (name, hist.exc_text(e)))
            ops = [o for o in self.ops if o['path'] == name]
            ops.append(dict(path=name, kind='r', start=10**8, end=10**8 + 1, sig=fin, who='final'))
            self.stats['judged'] += len(ops)
            if not linearizable(ops, initial[name]):
                known = {initial[name]: 'initial'}
                known.update({o['sig']: o['who'] for o in ops if o['kind'] == 'w'})
                raise hist.Violation('conc/history', '%s: no order of the saves explains what the opens returned: %s' % (name, '; '.join(
                    '%s %s [%d,%d] %s' % (o['who'], {'r': 'read', 'w': 'wrote'}[o['kind']], o['start'], min(o['end'], 10**8), known.get(o['sig'], 'a state nobody saved'))
                    for o in ops)))


def linearizable(ops, initial):
    """register semantics; writes with ok=False may or may not take effect"""
    ops = sorted(ops, key=lambda o: o['start'])
    n = len(ops)
    full = sum(1 << i for i, o in enumerate(ops) if o.get('ok', True))
    seen = set()

    def go(done, value):
        if done & full == full:
            return True
        if (done, value) in seen:
            return False
        seen.add((done, value))
        # an operation may go first if no other pending required one returned before it started
        horizon = min([o['end'] for i, o in enumerate(ops) if not done >> i & 1 and o.get('ok', True)], default=10**10)
        for i, o in enumerate(ops):
            if done >> i & 1 or o['start'] > horizon:
                continue
            if o['kind'] == 'w':
                if go(done | 1 << i, o['sig']):
                    return True
            elif o['sig'] == value and go(done | 1 << i, value):
                return True
        return False
    return go(0, initial)


# ---------------------------------------------------------------- C13
INDEP_OPS = plans.mix(plans.TREE, plans.FIELDS, plans.BINS, plans.HISTO, dict(find=4, set_time=1, touch=1, set_cred=1, wrong=.7, reject=1), save=5, reopen=3, reload=2,
                      read=.5, save_other=1)
MAIN = ['db.kdbx', 'db.bak', 'db.old', 'db']


def plan_indep(rng, prop, seed):
    n = rng.choice([2, 2, 3])
    same = rng.random() < 0.45
    copies = same and rng.random() < 0.6
    cfg0 = gen.config(rng)
    dbseed = rng.randrange(10**9)
    subs = []
    create = rng.random() < 0.15
    for i in range(n):
        cfg = dict(cfg0) if same else gen.config(rng)
        if cfg['cipher'] == 'twofish' and (copies or rng.random() < 0.7):
            cfg['cipher'] = 'chacha20'
        g = plans.G(rng, {})
        keep = sorted(o for o in INDEP_OPS if rng.random() < 0.7 or o in ('save', 'reopen', 'set_field'))
        ws = [INDEP_OPS[o] for o in keep]
        steps = []
        for _ in range(rng.randint(3, 9) if not create else rng.randint(2, 5)):
            o = rng.choices(keep, ws)[0]
            s = g_step(g, o)
            if 'to' in s:
                s['to'] = 'h%d-%s' % (i, os.path.basename(s['to']))[:120]
            s.pop('pathlib', None)
            steps.append(s)
        c = plans.creds(rng) if rng.random() < 0.5 else {'pw': 'password', 'kf': None, 'how': 'path'}
        size = {'entries': rng.choice([1, 2]), 'groups': 1, 'depth': 1, 'binaries': rng.choice([0, 2]), 'foreign': False}
        if copies and subs:
            # byte for byte the same file
            size, c = dict(subs[0]['size']), dict(subs[0]['creds'])
        subs.append({'prop': prop, 'seed': seed, 'cfg': cfg, 'size': size,
                     'dbseed': dbseed if same else rng.randrange(10**9), 'creds': c, 'init': 'create' if create else 'foreign', 'name': MAIN[i], 'opts': {},
                     'via': 'tk' if rng.random() < 0.1 else None, 'steps': plans.unseen(seed * 10 + i, steps)})
    return {'prop': prop, 'seed': seed, 'kind': 'indep', 'mode': 'alternate' if rng.random() < 0.15 else 'threads', 'sched': policy(rng), 'sub': subs,
            'clock': {'now': rng.randint(1_500_000_000, 2_000_000_000) * 10**9, 'tick': rng.choice([0, 1000, 10**6])}}


def g_step(g, o):
    s = getattr(g, o)()
    s.setdefault('op', o)
    return s


def judge_indep(ph, c):
    return c not in ('dir', 'target', 'reuse', 'plaintext')


class SubHist(hist.Hist):
    def do_save(self, s):
        to = s.get('to')
        name = to or self.fname
        tk = self.cred['tk']
        exc = None
        try:
            self.kp.save(None if to is None else self.target(to))
        except (Exception, KeyboardInterrupt) as e:
            exc = e
            if isinstance(e, (hist.Violation, HarnessError, Deadlock)):
                raise
        return name, exc, [], Recorder({}), tk

    def check_live(self, phase, context):
        """reading everything back is itself interleaved with the other threads"""
        return super().check_live(phase, context)

    def body(self):
        try:
            self.begin()
            for i, s in enumerate(self.plan['steps']):
                self.step(i, s)
            self.step_no = len(self.plan['steps'])
            self.finish()
        except hist.Inconclusive:
            self.stats['inconclusive'] += 1

    def steps_iter(self):
        """the same as body, one step at a time"""
        try:
            self.begin()
            for i, s in enumerate(self.plan['steps']):
                yield
                self.step(i, s)
            yield
            self.step_no = len(self.plan['steps'])
            self.finish()
        except hist.Inconclusive:
            self.stats['inconclusive'] += 1


class Indep:
    def __init__(self, plan, pk, lib):
        self.plan = plan
        self.w = World(plan['seed'], plan['clock']['now'], plan['clock']['tick'])
        self.w.set_tz('UTC')
        self.digest = hashlib.sha256()
        self.stats, self.states, self.ignored = Counter(), set(), Counter()
        self.hs = []
        for i, sp in enumerate(plan['sub']):
            sp = dict(sp, clock=plan['clock'])
            h = SubHist(sp, pk, judge_indep, lib, world=self.w)
            self.hs.append(h)
        self.switches = []

    def run(self):
        try:
            if self.plan['mode'] == 'alternate':
                rng = random.Random(self.plan['sched']['seed'])
                its = [h.steps_iter() for h in self.hs]
                while its:
                    it = rng.choice(its)
                    try:
                        next(it)
                    except StopIteration:
                        its.remove(it)
            else:
                s = Scheduler([h.body for h in self.hs], self.plan['sched'], self.plan.get('switches'))
                errors = s.run(self.w)
                self.switches = s.taken
                self.stats['switches'] += len(s.taken)
                self.states.add(hash(repr(s.log)))
                self.digest.update(repr(s.log).encode())
                for i, e in enumerate(errors):
                    if isinstance(e, hist.Violation):
                        raise hist.Violation(e.cat, 'database %d, %s' % (i, e.msg))
                    if isinstance(e, Deadlock):
                        raise hist.Violation('conc/deadlock', str(e))
                for e in errors:
                    if e is not None:
                        raise e
        finally:
            for h in self.hs:
                self.stats.update(h.stats)
                self.states |= h.states
                self.ignored.update(h.ignored)
                self.digest.update(h.digest.digest())
            self.w.disarm()
            self.digest.update(repr(self.w.log).encode())
            self.w.close()
