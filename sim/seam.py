"""The simulated world: file system calls, clock, random source and thread schedule under one seed.

The world sits on libvsim.so (preloaded, see shim.c).  Files live in a scratch directory; every libc call
that touches it is announced here first, so the world can fail it, shorten it, switch to another simulated
thread, or record it for crash reconstruction.
"""
import _thread
import ctypes
import errno as E
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import uuid
import zlib
from collections import Counter

OPS = {1: 'open', 2: 'read', 3: 'write', 4: 'close', 5: 'sync', 6: 'trunc', 7: 'rename', 8: 'unlink', 9: 'link',
       10: 'mkdir', 11: 'rmdir', 12: 'chmod', 13: 'symlink'}
_lib = ctypes.CDLL(None)
_PRE = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long,
                        ctypes.c_long, ctypes.c_void_p)
_POST = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int)
_lib.vs_now.restype = ctypes.c_longlong
_lib.vs_clock_reads.restype = ctypes.c_longlong
_lib.vs_random_bytes.restype = ctypes.c_longlong
_lib.vs_clock.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
_lib.vs_random.argtypes = [ctypes.c_int, ctypes.c_uint64]

REPO = os.environ.get('VSIM_REPO', '/repo')
LIB_DIR = os.path.join(REPO, 'pykeepass') + os.sep
SCRATCH = os.environ.get('VSIM_SCRATCH', '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp')


class HarnessError(Exception):
    """the simulation itself is at fault; never a violation"""


class World:
    current = None

    def __init__(self, seed, now=1_700_000_000_000_000_000, tick=1_000_003):
        self.dir = os.path.join(SCRATCH, 'vsim-%d' % os.getpid(), 'w')
        shutil.rmtree(os.path.dirname(self.dir), ignore_errors=True)
        os.makedirs(self.dir)
        self.base = os.path.dirname(self.dir)
        for k, d in (('TMPDIR', 'tmp'), ('HOME', 'home')):
            os.makedirs(os.path.join(self.base, d))
            os.environ[k] = os.path.join(self.base, d)
        tempfile.tempdir = None
        self.rules = []
        self.counts = Counter()      # calls since the rules were armed
        self.fired = []              # faults that happened since the rules were armed
        self.faults = Counter()      # faults of the whole run, by kind
        self.ops = Counter()         # calls of the whole run, by kind
        self.log = []
        self.recorder = None
        self.sched = None
        self.watch = []              # called with every chunk written: f(path, data)
        self.fdpath = {}
        self.pending = {}
        self.error = None
        self.sim_start = now
        self.jumps = 0
        self.seed = seed
        World.current = self
        self._pre, self._post = _PRE(self._pre_cb), _POST(self._post_cb)
        _lib.vs_setup(self.base.encode(), self._pre, self._post)
        _lib.vs_clock(1, now, tick)
        self.tick = tick
        self.elapsed = 0
        _lib.vs_random(1, seed & (2**64 - 1))
        random.seed(seed)
        uuid._generate_time_safe = None
        uuid._node = 0x0242ac110002
        uuid._last_timestamp = None
        _lib.vs_active(1)

    # ------------------------------------------------------------ lifecycle
    def close(self):
        _lib.vs_active(0)
        self.elapsed += self.now_ns() - self.sim_start
        _lib.vs_clock(0, 0, 0)
        _lib.vs_random(0, 0)
        shutil.rmtree(os.path.dirname(self.dir), ignore_errors=True)
        World.current = None
        if self.error:
            raise HarnessError(self.error)

    def path(self, name):
        return os.path.join(self.dir, name)

    def rel(self, p):
        if p.startswith(self.dir):
            return p[len(self.dir) + 1:]
        return '..' + p[len(self.base):] if p.startswith(self.base + '/') else p

    class _Out:
        """the harness's own file accesses are not part of the simulation"""
        def __enter__(self):
            _lib.vs_inside(1)

        def __exit__(self, *a):
            _lib.vs_inside(0)

    outside = _Out()

    def put(self, name, data):
        with self.outside:
            with open(self.path(name), 'wb') as f:
                f.write(data)
            self.stamp(self.path(name))

    def stamp(self, p):
        """files carry the simulated time of their last change"""
        now = max(self.now_ns(), 0)
        os.utime(p, ns=(now, now))

    def get(self, name):
        with self.outside:
            try:
                with open(self.path(name), 'rb') as f:
                    return f.read()
            except FileNotFoundError:
                return None

    def image(self):
        """{relative path: bytes} of everything in the scratch directory (directories: None)"""
        out = {}
        with self.outside:
            for d, dirs, files in os.walk(self.dir):
                for x in dirs:
                    out[self.rel(os.path.join(d, x))] = None
                for x in files:
                    with open(os.path.join(d, x), 'rb') as f:
                        out[self.rel(os.path.join(d, x))] = f.read()
        return out

    def set_image(self, image):
        with self.outside:
            shutil.rmtree(self.dir)
            os.makedirs(self.dir)
            for n in sorted(image):
                p = self.path(n)
                if image[n] is None:
                    os.makedirs(p, exist_ok=True)
                else:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, 'wb') as f:
                        f.write(image[n])
                    self.stamp(p)

    # ------------------------------------------------------------ clock
    def now_ns(self):
        return _lib.vs_now()

    def jump(self, ns):
        now = self.now_ns()
        self.elapsed += now - self.sim_start
        self.sim_start = now + ns
        self.jumps += 1
        self.faults['clock-jump-back' if ns < 0 else 'clock-jump-forward'] += 1
        _lib.vs_clock(1, now + ns, self.tick)

    def set_now(self, ns):
        self.jump(ns - self.now_ns())

    def set_tick(self, tick):
        self.tick = tick
        if tick == 0:
            self.faults['clock-stall'] += 1
        _lib.vs_clock(1, self.now_ns(), tick)

    def set_tz(self, tz):
        os.environ['TZ'] = tz
        time.tzset()

    def new_process(self):
        """forget what does not survive a restart of the interpreter (as far as the code under test uses it)"""
        uuid._last_timestamp = None

    # ------------------------------------------------------------ faults
    def arm(self, rules):
        """rules: [{'op': kind, 'nth': 1.., 'err': errno or 'short': n, 'sticky': bool, 'base': name filter}]"""
        self.rules = [dict(r) for r in rules]
        self.counts = Counter()
        self.fired = []

    def disarm(self):
        fired, self.rules, self.fired = self.fired, [], []
        return fired

    def _decide(self, op, n, path):
        caller = self.sched.current if self.sched else None
        for k in (op, '*', (caller, op), (caller, '*')):
            self.counts[k] += 1
        for r in self.rules:
            if r['op'] not in (op, '*') or 'caller' in r and r['caller'] != caller:
                continue
            if r.get('suffix') and not (path or '').endswith(r['suffix']):
                continue
            c = self.counts[(caller, r['op']) if 'caller' in r else r['op']]
            if not (c == r['nth'] or (r.get('sticky') and c > r['nth'] and r.get('err') != E.EINTR)):
                continue
            if 'short' in r:
                if op in ('read', 'write') and n > 1:
                    k = max(1, min(n - 1, int(n * r['short'])))
                    self.note_fault('short-' + op, path)
                    return k
                continue
            err = r['err']
            if err == E.EINTR and op == 'close':
                err = E.EIO
            self.note_fault('%s-%s' % (op, E.errorcode[err]), path)
            return -err
        return 0

    def note_fault(self, kind, what=''):
        self.faults[kind] += 1
        self.fired.append(kind)
        self.log.append('fault ' + kind)

    # ------------------------------------------------------------ callbacks
    def _pre_cb(self, op, fd, p1, p2, a, b, buf):
        try:
            kind = OPS[op]
            if self.sched:
                self.sched.point(kind)
            self.ops[kind] += 1
            q1 = self.rel(os.fsdecode(p1)) if p1 else None
            q2 = self.rel(os.fsdecode(p2)) if p2 else None
            path = q2 if kind in ('rename', 'link', 'symlink') else q1 if q1 else self.fdpath.get(fd)
            d = self._decide(kind, a, path)
            data = None
            if kind == 'write':
                data = ctypes.string_at(buf, a)
                for w in self.watch:
                    w(path, data)
            self.pending[_thread.get_ident()] = (kind, fd, q1, q2, a, b, data)
            self.log.append((kind, path if not path or not path.endswith('.tmp') else '*', a if kind in ('read', 'write') else 0, d))
            return d
        except BaseException as e:
            if self.error is None:
                self.error = 'pre-callback: %s: %s' % (type(e).__name__, e)
            return 0

    def _post_cb(self, op, fd, result, err):
        try:
            kind, ofd, q1, q2, a, b, data = self.pending.pop(_thread.get_ident(), (None,) * 7)
            if kind == 'open' and result >= 0:
                self.fdpath[result] = q1
            if self.recorder:
                self.recorder.record(kind, ofd if kind != 'open' else result, q1, q2, a, b, data, result)
        except BaseException as e:
            if self.error is None:
                self.error = 'post-callback: %s: %s' % (type(e).__name__, e)


# ---------------------------------------------------------------- crash reconstruction
class Recorder:
    """Records the durable effects of the calls made while it is attached."""

    def __init__(self, image):
        self.ns = {}
        self.initial = {}
        self.files = 0
        for n, d in image.items():
            if d is None:
                continue
            self.ns[n] = self.files
            self.initial[self.files] = d
            self.files += 1
        self.ns0 = dict(self.ns)
        self.fds = {}
        self.events = []     # ('create', name, fid) ('write', fid, off, data) ('trunc', fid, len) ('sync', fid) ...
        self.dirfds = {}

    def record(self, kind, fd, q1, q2, a, b, data, result):
        ev = self.events
        if kind is None or result < 0:
            return
        if kind == 'open':
            if a & os.O_TMPFILE == os.O_TMPFILE:       # a file without a name
                self.fds[fd] = self.files
                self.dirfds.pop(fd, None)
                self.files += 1
                return
            if a & os.O_DIRECTORY or q1 not in self.ns and not a & os.O_CREAT:
                self.dirfds[fd] = q1
                self.fds.pop(fd, None)
                return
            self.dirfds.pop(fd, None)
            if q1 not in self.ns:
                self.ns[q1] = self.files
                ev.append(('create', q1, self.files))
                self.files += 1
            self.fds[fd] = self.ns[q1]
            if a & os.O_TRUNC:
                ev.append(('trunc', self.ns[q1], 0))
        elif kind == 'write':
            if result and fd in self.fds:
                ev.append(('write', self.fds[fd], b, data[:result]))
        elif kind == 'sync':
            if fd == -2:
                ev.append(('syncall',))
            elif fd in self.dirfds:
                ev.append(('syncdir', self.dirfds[fd]))
            elif fd in self.fds:
                ev.append(('sync', self.fds[fd]))
        elif kind == 'trunc':
            fid = self.fds.get(fd) if fd >= 0 else self.ns.get(q1)
            if fid is not None:
                ev.append(('trunc', fid, a))
        elif kind == 'rename':
            if q1 in self.ns:
                ev.append(('rename', q1, q2))
                self.ns[q2] = self.ns.pop(q1)
        elif kind == 'link':
            src = self.ns.get(q1)
            if src is None and '/fd/' in (q1 or '') and q1.rsplit('/', 1)[1].isdigit():
                src = self.fds.get(int(q1.rsplit('/', 1)[1]))
            if src is not None:
                ev.append(('create', q2, src))
                self.ns[q2] = src
        elif kind == 'unlink':
            ev.append(('unlink', q1))
            self.ns.pop(q1, None)
        elif kind == 'close':
            self.fds.pop(fd, None)
        elif kind in ('mkdir', 'rmdir', 'symlink', 'chmod'):
            ev.append((kind, q1))

    @staticmethod
    def _apply(buf, e, cut=None):
        if e[0] == 'write':
            d = e[3] if cut is None else e[3][:cut]
            if e[2] > len(buf):
                buf.extend(bytes(e[2] - len(buf)))
            buf[e[2]:e[2] + len(d)] = d
        else:
            del buf[e[2]:]
            if e[2] > len(buf):
                buf.extend(bytes(e[2] - len(buf)))

    def killed(self, k, torn=0.0):
        """file system after the process died before event k (a write in progress having transferred a fraction)"""
        ns = dict(self.ns0)
        data = {f: bytearray(d) for f, d in self.initial.items()}
        for i, e in enumerate(self.events[:k + 1]):
            cut = None
            if i == k:
                if e[0] != 'write' or not torn:
                    break
                cut = int(len(e[3]) * torn)
            self._meta(ns, data, e)
            if e[0] in ('write', 'trunc'):
                self._apply(data.setdefault(e[1], bytearray()), e, cut)
        return {n: bytes(data.get(f, b'')) for n, f in ns.items()}

    @staticmethod
    def _meta(ns, data, e):
        if e[0] == 'create':
            ns[e[1]] = e[2]
            data.setdefault(e[2], bytearray())
        elif e[0] == 'rename':
            if e[1] in ns:
                ns[e[2]] = ns.pop(e[1])
        elif e[0] == 'unlink':
            ns.pop(e[1], None)

    def power_cut(self, k, rng):
        """file system after losing power before event k: directory updates survive as a prefix, of the data
        not synced an arbitrary part survives"""
        evs = self.events[:k]
        floor = 0
        for i, e in enumerate(evs):
            if e[0] in ('syncdir', 'syncall'):
                floor = i + 1
        p = floor if rng.random() < 0.25 else k if rng.random() < 0.6 else rng.randint(floor, k)
        ns = dict(self.ns0)
        data = {f: bytearray(d) for f, d in self.initial.items()}
        for e in evs[:p]:
            self._meta(ns, data, e)
        for e in evs[p:]:
            if e[0] == 'create':
                data.setdefault(e[2], bytearray())
        lastsync = {}
        for i, e in enumerate(evs):
            if e[0] == 'sync':
                lastsync[e[1]] = i
            elif e[0] == 'syncall':
                for f in list(data):
                    lastsync[f] = i
        mode = rng.choice(['none', 'some', 'some', 'most'])
        for i, e in enumerate(evs):
            if e[0] not in ('write', 'trunc'):
                continue
            buf = data.setdefault(e[1], bytearray())
            if i < lastsync.get(e[1], -1):
                self._apply(buf, e)
            elif mode == 'none':
                continue
            elif e[0] == 'trunc':
                if rng.random() < 0.7:
                    self._apply(buf, e)
            else:
                # whole sectors of a write may be missing
                d = e[3]
                for s in range(0, len(d), 4096):
                    if rng.random() < (0.5 if mode == 'some' else 0.93):
                        self._apply(buf, ('write', e[1], e[2] + s, d[s:s + 4096]))
        return {n: bytes(data.get(f, b'')) for n, f in ns.items()}


# ---------------------------------------------------------------- line tracing
class LineFault:
    """raise an exception at the n-th line executed in the library (n=None: count only)"""

    def __init__(self, nth=None, exc=KeyboardInterrupt, in_file=None):
        self.nth, self.exc, self.in_file = nth, exc, in_file
        self.lines = 0
        self.fired = False

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(LIB_DIR) or (self.in_file and not fn.endswith(self.in_file)):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.lines == self.nth:
                self.fired = True
                sys.settrace(None)
                raise self.exc('injected')
        return self._local

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


# ---------------------------------------------------------------- cooperative threads
class Deadlock(Exception):
    pass


class Scheduler:
    """Runs callables in real threads, exactly one at a time.  At every point (library line or file system
    call) the schedule decides who continues.  switches: sorted list of (event number, choice)."""

    def __init__(self, bodies, policy=None, switches=None):
        """policy: {'seed', 'fs': p, 'line': p, 'hot': p} draws switches; an explicit list replaces it"""
        self.bodies = bodies
        self.explicit = None if switches is None else {int(n): c for n, c in switches}
        self.policy = policy or {'seed': 0, 'fs': 0, 'line': 0, 'hot': 0}
        self.rng = random.Random(self.policy['seed'])
        self.trace_lines = bool(self.policy['line'] or self.policy['hot'])
        self.event = 0
        self.locks = [_real_lock() for _ in bodies]
        for l in self.locks:
            l.acquire()
        self.main = _real_lock()
        self.main.acquire()
        self.done = [False] * len(bodies)
        self.blocked = [None] * len(bodies)
        self.errors = [None] * len(bodies)
        self.quiet = [0] * len(bodies)
        self.me = {}
        self.taken = []
        self.sites = set()
        self.log = []
        self.current = None
        self.hotmap = {}
        self.hits = {}

    def runnable(self):
        return [i for i in range(len(self.bodies)) if not self.done[i] and
                (self.blocked[i] is None or not self.blocked[i].held)]

    def point(self, kind, site=None):
        i = self.me.get(_thread.get_ident())
        if i is None or i != self.current or self.quiet[i]:
            return
        self.event += 1
        if self.explicit is not None:
            c = self.explicit.get(self.event)
        else:
            c = None
            if site is None:
                pr = self.policy['fs']
            else:
                pr = self.hotmap.get(site)
                if pr is None:
                    # hot are some lines, or all lines of some functions
                    f = self.policy.get('func')
                    hot = zlib.crc32(b'%d/%s/%d' % (self.policy['seed'], site[0].encode(), 0 if f else site[1])) % (f or 24) == 0
                    pr = self.hotmap[site] = self.policy['hot'] if hot else self.policy['line']
            if pr and len(self.taken) < 400 and self.rng.random() < pr:
                c = self.rng.randrange(len(self.bodies))
                if site is not None and self.policy.get('cap'):
                    self.hits[site] = self.hits.get(site, 0) + 1
                    if self.hits[site] >= self.policy['cap']:
                        self.hotmap[site] = 0
        if c is not None:
            r = self.runnable()
            j = r[c % len(r)]
            if j != i:
                self.taken.append([self.event, c])
                self.log.append((self.event, kind, i, j))
                self.sites.add((kind, site, i, j))
                self.hand(i, j)

    def hand(self, i, j):
        self.current = j
        self.locks[j].release()
        self.locks[i].acquire()

    def block(self, lock):
        """current thread waits for a cooperative lock"""
        i = self.me.get(_thread.get_ident())
        if i is None:
            raise Deadlock('lock held outside the simulation')
        self.blocked[i] = lock
        r = self.runnable()
        if not r:
            raise Deadlock('all simulated threads are blocked')
        if r[0] != i:
            self.log.append(('block', i, r[0]))
            self.hand(i, r[0])
        self.blocked[i] = None

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIB_DIR):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line':
            self.point('line', (frame.f_code.co_name, frame.f_lineno))
        return self._local

    def _run(self, i):
        self.locks[i].acquire()
        self.me[_thread.get_ident()] = i
        if self.trace_lines:
            sys.settrace(self._trace)
        try:
            self.bodies[i]()
        except BaseException as e:
            self.errors[i] = e
        sys.settrace(None)
        self.done[i] = True
        r = self.runnable()
        if r:
            self.current = r[0]
            self.locks[r[0]].release()
        else:
            if not all(self.done):
                self.errors[i] = self.errors[i] or Deadlock('remaining threads are blocked')
            self.main.release()

    def run(self, world):
        world.sched = self
        for i in range(len(self.bodies)):
            t = threading.Thread(target=self._run, args=(i,), daemon=True)
            t.start()
        self.current = 0
        self.locks[0].release()
        ok = self.main.acquire(timeout=120)
        world.sched = None
        if not ok:
            raise HarnessError('simulated threads did not finish')
        return self.errors


_real_lock = _thread.allocate_lock


class SimLock:
    """what threading.Lock() and RLock() return to the code under test"""
    reentrant = False

    def __init__(self):
        self.held = 0
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self.held and self.owner == me:
            self.held += 1
            return True
        while self.held:
            if not blocking:
                return False
            w = World.current
            if w is None or w.sched is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock('lock is held and no other simulated thread can release it')
            w.sched.block(self)
        self.held = 1
        self.owner = me
        return True

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held -= 1
        if not self.held:
            self.owner = None

    def locked(self):
        return bool(self.held)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True
