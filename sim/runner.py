"""Runs plans in forked children, several at a time, and collects their results."""
import gc
import json
import os
import select
import signal
import sys
import time
import traceback

CPU_LIMIT = float(os.environ.get('VSIM_CPU', '90'))      # CPU seconds per run
WALL_LIMIT = 400                                          # never a verdict, only an error of the check

_lib = {}


def library():
    """import the code under test once, with the threading seam in place"""
    if _lib:
        return _lib
    import logging
    import threading
    from . import seam
    sys.path.insert(0, seam.REPO)
    real = threading.Lock, threading.RLock
    logging.getLogger('pykeepass').addHandler(logging.NullHandler())
    logging.lastResort = None
    import argon2, construct, lxml.etree, Cryptodome.Cipher.AES, Cryptodome.Random, uuid, tempfile, queue  # noqa
    import concurrent.futures                                                                               # noqa
    import Cryptodome.Cipher.AES as AES
    AES.new = watched_aes(AES.new, AES.MODE_ECB)
    argon2.low_level.hash_secret_raw = memo(argon2.low_level.hash_secret_raw)
    threading.Lock, threading.RLock = seam.SimLock, seam.SimRLock
    try:
        import pykeepass
        from pykeepass import PyKeePass
    finally:
        threading.Lock, threading.RLock = real
    root = os.path.realpath(os.path.dirname(pykeepass.__file__))
    if root != os.path.realpath(os.path.join(seam.REPO, 'pykeepass')):
        raise seam.HarnessError('imported the library from %s' % root)

    proxy_threading({n: m for n, m in sys.modules.items() if n == 'pykeepass' or n.startswith('pykeepass.')})
    _lib.update(pk=pykeepass, PyKeePass=PyKeePass)
    return _lib


def proxy_threading(mods):
    import threading
    from . import seam

    class Threading:
        """what library modules see as `threading`"""
        Lock, RLock = seam.SimLock, seam.SimRLock

        def __getattr__(self, n):
            return getattr(threading, n)
    proxy = Threading()
    for m in mods.values():
        if getattr(m, 'threading', None) is threading:
            m.threading = proxy


observer = None      # told about key derivation steps; may stop them


def stop():
    from .damage import Runaway
    raise Runaway()


class Ecb:
    """an AES-ECB object whose use is counted"""
    def __init__(self, c):
        self._c, self._n = c, 0

    def encrypt(self, *a, **k):
        self._n += 1
        if observer and observer('ecb-rounds', self._n):
            stop()
        return self._c.encrypt(*a, **k)

    def __getattr__(self, n):
        return getattr(self._c, n)


def watched_aes(new, ecb):
    def f(key, mode, *a, **k):
        c = new(key, mode, *a, **k)
        if mode == ecb and observer:
            if observer('ecb-key', bytes(key)):
                stop()
            return Ecb(c)
        return c
    return f


def memo(f):
    """argon2 is a pure function: compute each value once per run"""
    def hash_secret_raw(*a, **k):
        args = dict(zip(ARGON, a), **k)
        if observer and observer('argon2', args):
            stop()
        key = argon_key(args)
        if key not in _argon_cache:
            _argon_cache[key] = f(*a, **k)
        return _argon_cache[key]
    return hash_secret_raw


ARGON = ('secret', 'salt', 'time_cost', 'memory_cost', 'parallelism', 'hash_len', 'type', 'version')
_argon_cache = {}


def argon_key(args):
    return repr(sorted(args.items()))


def warm_up():
    """the key derivations create_database needs are slow: compute them once, before the runs are forked (without running library code)"""
    import argon2
    from . import gen, kdbxref as ref, seam
    from .hist import CREATE_CREDS
    path = os.path.join(seam.REPO, 'pykeepass', 'blank_database.kdbx')
    try:
        with open(path, 'rb') as f:
            v = ref.read_variant(dict(ref.read_header(f.read())[2])[11])
        kdf = dict(name={b: a for a, b in ref.KDFS.items()}[v['$UUID'][1]], **{k: x[1] for k, x in v.items() if k != '$UUID'})
    except (OSError, ref.FormatError, KeyError):
        return
    if not kdf['name'].startswith('argon2') or kdf['M'] > 2**28 or kdf['I'] > 100:
        return
    for pw, kf in [('password', None)] + CREATE_CREDS:
        comp = ref.composite(pw, gen.keyfile(*kf) if kf else None)
        args = dict(secret=comp, salt=kdf['S'], hash_len=32, time_cost=kdf['I'], memory_cost=kdf['M'] // 1024, parallelism=kdf['P'],
                    version=kdf['V'], type=argon2.low_level.Type.ID if kdf['name'] == 'argon2id' else argon2.low_level.Type.D)
        _argon_cache[argon_key(args)] = ref.transform(comp, kdf)


class Lib:
    def __init__(self, d):
        self.PyKeePass = d['PyKeePass']


def from_library(e):
    """whether an exception came out of the code under test"""
    from . import seam
    root = os.path.join(os.path.realpath(seam.REPO), 'pykeepass') + os.sep
    here = os.path.dirname(os.path.realpath(__file__)) + os.sep
    inside = False
    for f, _ in traceback.walk_tb(e.__traceback__):
        n = os.path.realpath(f.f_code.co_filename)
        if n.startswith(root):
            inside = True
        elif n.startswith(here):
            inside = False
    return inside


def execute(plan):
    """run one plan in this process -> result dict"""
    from . import hist, seam
    d = library()
    t0 = time.monotonic()
    res = dict(seed=plan['seed'], status='ok')
    kind = plan.get('kind', 'hist')
    run = None
    try:
        if kind == 'hist':
            from .plans import JUDGE
            run = hist.Hist(plan, d['pk'], JUDGE[plan['prop']], Lib(d))
        elif kind in ('conc', 'indep'):
            from . import conc
            run = conc.make(plan, d['pk'], Lib(d))
        elif kind == 'damage':
            from . import damage
            run = damage.Damage(plan, d['pk'], Lib(d))
        elif kind == 'stream':
            from . import streams
            run = streams.Streams(plan, d['pk'], Lib(d))
        else:
            raise seam.HarnessError('unknown kind of plan')
        try:
            run.run()
        except hist.Violation as v:
            res.update(status='violation', cat=v.cat, msg=v.msg)
    except BaseException as e:
        from . import kdbxref
        if isinstance(e, kdbxref.FormatError):
            res.update(status='violation', cat='unexpected/format', msg='a file the library has saved does not follow the format: %s' % e)
        elif isinstance(e, Exception) and not isinstance(e, (seam.HarnessError, MemoryError)) and from_library(e):
            res.update(status='violation', cat='unexpected/error', msg='an operation that must succeed failed: %s' % hist.exc_text(e))
        else:
            res.update(status='harness', msg='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-3000:])
    if run is not None:
        w = run.w
        res.update(stats=dict(run.stats), states=sorted(run.states), digest=run.digest.hexdigest(), ignored=dict(run.ignored),
                   faults=dict(w.faults), ops=dict(w.ops), sim_ns=w.elapsed, jumps=w.jumps)
        if hasattr(run, 'switches'):
            res['switches'] = run.switches
    res['wall'] = time.monotonic() - t0
    return res


def _spawn(plan):
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    try:
        os.close(r)
        signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        gc.disable()
        data = json.dumps(execute(plan)).encode()
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        while data:
            data = data[os.write(w, data):]
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(0)


def run_many(plans, workers=8, stop=None, deadline=None):
    """yield (plan, result) as runs finish; plans is an iterator; stop() -> True ends the launching of new runs"""
    plans = iter(plans)
    live = {}
    more = True
    while True:
        while more and len(live) < workers:
            if (stop and stop()) or (deadline and time.monotonic() > deadline):
                more = False
                break
            try:
                p = next(plans)
            except StopIteration:
                more = False
                break
            pid, fd = _spawn(p)
            live[fd] = [pid, p, [], time.monotonic()]
        if not live:
            return
        ready, _, _ = select.select(list(live), [], [], 5)
        for fd in ready:
            pid, p, buf, t0 = live[fd]
            d = os.read(fd, 1 << 20)
            if d:
                buf.append(d)
                continue
            os.close(fd)
            del live[fd]
            _, st = os.waitpid(pid, 0)
            yield p, _result(p, b''.join(buf), st)
        for fd, (pid, p, buf, t0) in list(live.items()):
            if time.monotonic() - t0 > WALL_LIMIT:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                yield p, dict(seed=p['seed'], status='harness', msg='the run exceeded the wall clock limit')


def _result(p, data, st):
    import shutil
    from . import seam
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig == signal.SIGVTALRM:
            return dict(seed=p['seed'], status='violation', cat='run/progress', msg='the run did not finish within %d s of CPU time' % CPU_LIMIT)
        return dict(seed=p['seed'], status='harness', msg='the run died with signal %d' % sig)
    try:
        return json.loads(data)
    except ValueError:
        return dict(seed=p['seed'], status='harness', msg='the run returned no result')


def run_one(plan):
    for _, r in run_many([plan], 1):
        return r
