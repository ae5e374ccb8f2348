"""C12: databases and key files on streams that transfer short, fail or end early.

A history (hist.Hist) with additional steps: opens from and saves to simulated streams, real unbuffered and buffered files in
the simulated world, and key files given as streams of every kind.
"""
import io
import os
import random
import tempfile

from . import gen, hist, model as M, plans
from .hist import Inconclusive, exc_text


class Source:
    """a readable stream with the faults of mode = dict(chunk, fail_at, fail_call, eof_at, none_call)"""
    def __init__(self, data, mode, world, offset=0):
        self.b, self.m, self.w, self.calls, self.hit = io.BytesIO(random.Random(0).randbytes(offset) + data), mode, world, 0, False
        self.b.seek(offset)

    def fault(self, kind):
        self.hit = True
        self.w.faults['stream-' + kind] += 1

    def read(self, n=-1):
        self.calls += 1
        m, pos = self.m, self.b.tell()
        if m.get('fail_call') == self.calls or ('fail_at' in m and pos >= m['fail_at']):
            self.fault('read-error')
            raise OSError(5, 'simulated')
        if m.get('none_call') == self.calls:
            self.fault('read-none')
            return None
        left = len(self.b.getvalue()) - pos
        want = left if n is None or n < 0 else min(n, left)
        k = want
        if 'chunk' in m:
            k = min(k, m['chunk'])
            if k < want:
                self.fault('short-read')
        if 'fail_at' in m:
            k = min(k, m['fail_at'] - pos)
            if k < want:
                self.fault('short-read')
        if 'eof_at' in m and pos + k > m['eof_at']:
            k = max(0, m['eof_at'] - pos)
            self.fault('early-eof')
        return self.b.read(k)

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()

    def seekable(self):
        return True

    def readable(self):
        return True


class Sink:
    """a writable stream; mode = dict(accept, fail_at, fail_call, short_call, chunk, none, zero_call, seekable)"""
    def __init__(self, before, pos, mode, world):
        self.b = io.BytesIO(before)
        self.b.seek(pos)
        self.m, self.w, self.calls, self.hit = mode, world, 0, False

    def fault(self, kind):
        self.hit = True
        self.w.faults['stream-' + kind] += 1

    def write(self, data):
        data = bytes(data)
        self.calls += 1
        m, n = self.m, len(data)
        if m.get('fail_call') == self.calls:
            self.fault('write-error')
            raise OSError(28, 'simulated')
        if 'fail_at' in m and self.b.tell() + n > m['fail_at']:
            k = max(0, m['fail_at'] - self.b.tell())
            if k and not m.get('all_or_none'):
                self.fault('short-write')
                self.b.write(data[:k])
                return k
            self.fault('write-error')
            raise OSError(28, 'simulated')
        if m.get('zero_call') == self.calls:
            self.fault('short-write')
            return 0
        if m.get('short_call') == self.calls:
            self.fault('short-write')
            data = data[:int(n * m['frac'])]
        elif 'chunk' in m and n > m['chunk']:
            self.fault('short-write')
            data = data[:m['chunk']]
        self.b.write(data)
        if m.get('none'):
            self.fault('write-none')
            return None
        return len(data)

    def flush(self):
        if self.m.get('flush_fails'):
            self.fault('flush-error')
            raise OSError(28, 'simulated')

    def read(self, n=-1):
        return self.b.read(n)

    def seek(self, *a):
        if self.m.get('pipe'):
            raise io.UnsupportedOperation('seek')
        return self.b.seek(*a)

    def tell(self):
        if self.m.get('pipe'):
            raise io.UnsupportedOperation('tell')
        return self.b.tell()

    def truncate(self, *a):
        return self.b.truncate(*a)

    def seekable(self):
        return not self.m.get('pipe')

    def readable(self):
        return True

    def writable(self):
        return True


class KeySource:
    """a seekable key file stream whose n-th read fails"""
    def __init__(self, data, fail_call, world):
        self.b, self.n, self.w, self.calls, self.hit = io.BytesIO(data), fail_call, world, 0, False

    def read(self, n=-1):
        self.calls += 1
        if self.calls == self.n:
            self.hit = True
            self.w.faults['keyfile-read-error'] += 1
            raise OSError(5, 'simulated')
        return self.b.read(n)

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()

    def seekable(self):
        return True

    def readable(self):
        return True


KF_HOW = ['stream', 'stream', 'pipe', 'file', 'rawfile', 'offset', 'spooled', 'ospipe', 'noseekable', 'flaky']


class Streams(hist.Hist):
    def __init__(self, plan, pk, lib):
        super().__init__(plan, pk, lambda ph, c: True if c in ('stream', 'cred', 'format', 'error', 'session') else ph in ('file', 'reopen', 'fail') and
                         c not in ('dir', 'target'), lib)
        self.flaky = []

    # ------------------------------------------------------------ key files
    def kf_arg(self, kf, how):
        if not kf or how in ('path', 'Path', 'stream', 'pipe'):
            return super().kf_arg(kf, how)
        data = self.kf_bytes(kf)
        if how in ('file', 'rawfile'):
            return open(super().kf_arg(kf, 'path'), 'rb', buffering=0 if how == 'rawfile' else -1)
        if how == 'offset':
            b = io.BytesIO(data)
            b.seek(len(data) // 2)
            return b
        if how == 'spooled':
            b = tempfile.SpooledTemporaryFile(max_size=10**6)
            b.write(data)
            return b
        if how == 'ospipe' and len(data) > 60_000:      # more than a pipe holds
            return super().kf_arg(kf, 'pipe')
        if how == 'ospipe':
            r, w = os.pipe()
            with self.w.outside:
                os.write(w, data)
                os.close(w)
            return os.fdopen(r, 'rb')
        if how == 'noseekable':
            class Minimal:
                def __init__(self):
                    self.b = io.BytesIO(data)

                def read(self, *a):
                    return self.b.read(*a)
            return Minimal()
        if how == 'flaky':
            f = KeySource(data, 10**9, self.w)
            self.flaky.append(f)
            return f
        raise hist.HarnessError(how)

    def op_flaky_key(self, s):
        """the key file stream fails while it is read for a save"""
        kf = s['kf']
        arg = self.kf_arg(kf, 'flaky')
        self.edit('setting keyfile', lambda: setattr(self.kp, 'keyfile', arg))
        self.sess.update(kf=kf, tk=None)
        self.cred = dict(pw=self.sess['pw'], kf=kf, tk=self.tk_of(self.sess['pw'], kf, self.hdr))
        M.meta_set(self.doc, 'MasterKeyChanged', self.clock_time(self.kp.credchange_date, 'credential change date'))
        arg.calls, arg.n, arg.hit = 0, s['nth'], False
        before = self.w.image()
        exc = None
        try:
            self.kp.save(self.target('db.kdbx') if self.fname.startswith('<') else None)
        except Exception as e:
            exc = e
        hit, arg.n = arg.hit, 10**9
        after = self.w.image()
        self.note('flaky', hit, type(exc).__name__)
        self.stats['judged'] += 1
        if exc is None:
            name = 'db.kdbx' if self.fname.startswith('<') else self.fname
            self.saved(name, after[name], self.cred['tk'], False)
        else:
            if not hit:
                self.fail('file', 'error', 'save failed without any fault: %s' % exc_text(exc))
                raise Inconclusive()
            if after != before:
                self.fail('file', 'stream', 'a save whose key file could not be read changed a file')
        self.sync_files(after)
        self.check_live('fail', 'after a save with a failing key file stream')

    # ------------------------------------------------------------ reading
    def op_open_stream(self, s):
        name = self.pick_file(s['n'])
        d = self.disk[name]
        m = dict(s['mode'])
        for k in ('fail_at', 'eof_at'):
            if k in m:
                m[k] = s.get('offset', 0) + (int(m[k] * len(d.data)) if m[k] < 1 else max(0, len(d.data) - int(m[k])))
        src = Source(d.data, m, self.w, s.get('offset', 0))
        kw = dict(transformed_key=d.cred['tk']) if d.cred.get('opaque') or s.get('tk') else dict(
            password=d.cred['pw'], keyfile=self.kf_arg(d.cred['kf'], s['how']))
        into = s.get('into') and not d.cred.get('opaque') and not s.get('tk')
        exc = kp = None
        try:
            if into:
                self.kp.read(src, **kw)
                kp = self.kp
            else:
                kp = self.lib.PyKeePass(src, **kw)
        except Exception as e:
            exc = e
        self.note('open', type(exc).__name__, src.hit)
        self.stats['judged'] += 1
        self.stats['stream-open-%s' % ('ok' if exc is None else 'failed')] += 1
        self.states.add(hash(('open', repr(sorted(m.items())), type(exc).__name__, src.calls)))
        what = 'opening %s from a stream (%s)' % (name, s['mode'] or 'no faults')
        if exc is not None:
            if not src.hit:
                self.fail('reopen', 'error', '%s failed without any fault: %s' % (what, exc_text(exc)))
                raise Inconclusive()
            if into:
                self.check_live('fail', 'after a failed read from a stream')
                self.check_session('after a failed read from a stream')
            return
        try:
            v = M.live_view(kp)
        except Exception as e:
            self.fail('reopen', 'stream', '%s succeeded, but the contents cannot be read: %s' % (what, exc_text(e)))
            raise Inconclusive()
        for cat, text in M.diff(M.flatten(d.doc, True), v):
            self.fail('reopen', 'stream', '%s: %s' % (what, text))
        if into or s.get('use'):
            import copy
            self.forget()
            self.kp = kp
            self.doc = copy.deepcopy(d.doc)
            self.cred = dict(d.cred)
            self.sess = dict(pw=None, kf=None, tk=d.cred['tk']) if 'transformed_key' in kw else dict(pw=d.cred['pw'], kf=d.cred['kf'], tk=None)
            self.fname = '<stream>'
            self.hdr = d.hdr

    def check_session(self, context):
        if not self.fname.startswith('<'):
            super().check_session(context)

    def op_save(self, s):
        if self.fname.startswith('<') and not s.get('to'):
            s = dict(s, to='db.kdbx')
        return super().op_save(s)

    # ------------------------------------------------------------ writing
    def op_save_stream(self, s):
        before = random.Random(s['seed']).randbytes(s['before'])
        pos = min(s['pos'], len(before))
        m = dict(s['mode'])
        size = len(next(iter(self.disk.values())).data)
        if 'fail_at' in m:
            m['fail_at'] = pos + int(m['fail_at'] * size)
        if 'chunk' in m:
            m['chunk'] = max(1, int(m['chunk'] * size) if m['chunk'] < 1 else int(m['chunk']))
        real = s.get('real')
        fired = []
        rules = s.get('faults', []) if real else []
        if real:
            self.w.put('stream.bin', before)
            out = open(self.w.path('stream.bin'), 'r+b', buffering=0 if real == 'raw' else -1)
            out.seek(pos)
        else:
            out = Sink(before, pos, m, self.w)
        exc = None
        bad = s.get('bad') if self.sess['tk'] is None and not self.cred.get('opaque') else None
        if bad:
            # a failure before anything reaches the stream
            old = self.kp.password, self.kp.keyfile
            if bad == 'surrogate':
                self.kp.password = '\ud800'
            else:
                self.kp.keyfile = self.w.path('no such key')
        self.w.arm(rules)
        try:
            if s.get('tk'):
                self.kp.save(out, transformed_key=random.Random(s['tk']).randbytes(32))
            else:
                self.kp.save(out)
        except Exception as e:
            exc = e
        fired = self.w.disarm()
        if bad:
            if bad == 'surrogate':
                self.kp.password = old[0]
            else:
                self.kp.keyfile = old[1]
            M.meta_set(self.doc, 'MasterKeyChanged', M.secs(self.kp.credchange_date))
        hit = bool(fired) if real else out.hit
        if real:
            try:
                out.close()
                got = self.w.get('stream.bin')
            except OSError:
                got = None
            with self.w.outside:
                os.unlink(self.w.path('stream.bin'))
        else:
            got = out.b.getvalue()
        self.note('save', type(exc).__name__, hit)
        self.stats['judged'] += 1
        self.stats['stream-save-%s' % ('ok' if exc is None else 'failed')] += 1
        self.states.add(hash(('save', repr(sorted(m.items())), type(exc).__name__, len(before), pos, real)))
        what = 'saving to a stream (%s%s)' % (real or s['mode'] or 'no faults', ', '.join([''] + fired))
        if bad and exc is not None and got is not None and not hit:
            if got != before:
                self.fail('file', 'stream', '%s failed with %s before writing, but the stream was changed' % (what, exc_text(exc)))
            if not real and out.calls:
                self.fail('file', 'stream', '%s failed with %s, but data was written' % (what, exc_text(exc)))
        if bad:
            if exc is None and not s.get('tk'):
                raise Inconclusive()
            if exc is not None:
                self.check_live('fail', 'after a failed save to a stream')
                return
        if exc is not None:
            if not hit:
                self.fail('file', 'error', '%s failed without any fault: %s' % (what, exc_text(exc)))
                raise Inconclusive()
            self.check_live('fail', 'after a failed save to a stream')
            return
        if got is None:
            return          # closing the file reported the failure
        # everything is there, at the position of the stream, and nothing else changed
        if got[:pos] != before[:pos]:
            self.fail('file', 'stream', '%s changed bytes before the position of the stream' % what)
        rest = got[pos:]
        data = self.trim(rest, before[pos:])
        key = '<saved stream>'
        try:
            self.saved(key, data, random.Random(s['tk']).randbytes(32) if s.get('tk') else self.cred['tk'], bool(s.get('tk')))
        except Inconclusive:
            raise
        finally:
            self.disk.pop(key, None)

    def trim(self, rest, old):
        """cut the old contents of the stream off behind the database that was written over them"""
        from .damage import layout
        tail = 0
        n = min(len(rest), len(old))
        if len(rest) != len(old):
            return rest              # the database reaches the end of the stream
        while tail < n and rest[-1 - tail] == old[-1 - tail]:
            tail += 1
        # the longest end of the region that can still be the old contents
        for cut in range(tail, max(-1, tail - 64), -1):
            try:
                data = rest[:len(rest) - cut]
                layout(data)
                self.decode(data, None, None, self.cred['tk'])
                return data
            except Exception:
                continue
        return rest[:len(rest) - tail]

    def finish(self):
        self.op_save({'op': 'save'})
        self.op_reopen({'op': 'reopen'})


# ---------------------------------------------------------------- plans
def mode_in(r):
    k = r.random()
    if k < 0.15:
        return {}
    if k < 0.35:
        return {'chunk': r.choice([1, 3, 4, 16, 64, 200, 1000, 4096])}
    if k < 0.5:
        return {'fail_call': r.choice([1, 2, 3, 5, 9, 15, 25, 40])}
    if k < 0.65:
        return {'fail_at': r.choice([r.random(), 1 + r.randrange(80)])}
    if k < 0.92:
        return {'eof_at': r.choice([r.random(), 1 + r.randrange(80), 1 + r.randrange(3)])}
    return {'none_call': r.choice([1, 2, 5, 20])}


def mode_out(r):
    m = mode_out1(r)
    if r.random() < 0.2:             # a second fault, for callers that try again
        m = {**mode_out1(r), **m}
    if r.random() < 0.15:
        m['pipe'] = True
    return m


def mode_out1(r):
    k = r.random()
    if k < 0.2:
        return {}
    if k < 0.4:
        return {'short_call': r.choice([1, 1, 1, 2, 3]), 'frac': r.choice([0.0, 0.1, 0.5, 0.9, 0.9999])}
    if k < 0.55:
        return {'chunk': r.choice([0.1, 0.5, 0.9, 16, 1000])}
    if k < 0.75:
        return {'fail_at': r.choice([0, 0.01, 0.5, 0.99]), 'all_or_none': r.random() < 0.4}
    if k < 0.88:
        return {'fail_call': r.choice([1, 1, 1, 2])}
    if k < 0.92:
        return {'zero_call': 1}
    if k < 0.96:
        return {'flush_fails': True}
    return {'none': True}


def plan(prop, seed, tier='quick'):
    rng = random.Random('%s/%d' % (prop, seed))
    prof = dict(bigblob=0.03)
    cfg = gen.config(rng)
    if cfg['cipher'] == 'twofish':
        prof['bigblob'] = 0
    size = {'entries': rng.choice([1, 2, 3]), 'groups': rng.choice([0, 1]), 'depth': 1, 'binaries': rng.choice([0, 1, 3]), 'foreign': rng.random() < 0.3}
    c = plans.creds(rng)
    if rng.random() < 0.6:
        c['kf'] = [rng.choice(gen.KF_KINDS), rng.randrange(1000)]
    c['how'] = rng.choice(KF_HOW + ['path'])
    p = {'prop': prop, 'seed': seed, 'kind': 'stream', 'cfg': cfg, 'size': size, 'dbseed': rng.randrange(10**9), 'creds': c,
         'init': 'create' if rng.random() < 0.03 else 'foreign', 'clock': {'now': rng.randint(1_500_000_000, 2_000_000_000) * 10**9, 'tick': 1000},
         'tz': 'UTC', 'opts': {}, 'dirs': ['sub']}
    if rng.random() < 0.1:
        p['via'] = 'tk'
    g = plans.G(rng, prof)
    steps = []
    n = rng.randint(6, 18)
    if rng.random() < 0.008 and cfg['cipher'] != 'twofish':     # larger than usual buffer and file size limits
        cfg['block'] = max(cfg['block'], 2**20)
        steps = [{'op': 'add_binary', 'b': {'seed': g.i(), 'len': rng.choice([3 * 10**6, 2**24 + 5]), 'kind': 'rand'}, 'c': False}, {'op': 'save'},
                 {'op': 'open_stream', 'n': 0, 'mode': {}, 'how': 'stream', 'into': False, 'use': False, 'tk': False},
                 {'op': 'save_stream', 'seed': 1, 'before': 0, 'pos': 0, 'mode': {}}, {'op': 'reopen', 'via': 'pipe'}]
        n = rng.randint(0, 3)
    for _ in range(n):
        o = rng.choices(['open', 'save', 'edit', 'cred', 'flaky', 'path', 'reload', 'reopen', 'blob'], [7, 8, 4, 3, 1.5, 3, 3, 2, 1])[0]
        if o == 'open':
            s = {'op': 'open_stream', 'n': g.i(), 'mode': mode_in(rng), 'how': rng.choice(KF_HOW), 'into': rng.random() < 0.25, 'use': rng.random() < 0.2,
                 'tk': rng.random() < 0.15}
            if rng.random() < 0.15:
                s['offset'] = rng.choice([1, 100, 5000])
        elif o == 'save':
            n = rng.choice([0, 0, 0, 10, 1000, 3000, 20000])
            s = {'op': 'save_stream', 'seed': g.i(), 'before': n, 'pos': rng.choice([0, 0, n, n // 2, 7]), 'mode': mode_out(rng)}
            if rng.random() < 0.25:
                s['real'] = rng.choice(['raw', 'raw', 'buffered'])
                if rng.random() < 0.7:
                    s['faults'] = [{'op': 'write', 'nth': rng.choice([1, 1, 2]), 'short': rng.choice([0.0, 0.3, 0.9])} if rng.random() < 0.6 else
                                   {'op': 'write', 'nth': 1, 'err': 28, 'sticky': rng.random() < 0.5}]
            if rng.random() < 0.15:
                s['bad'] = rng.choice(['surrogate', 'keyfile'])
            if rng.random() < 0.1:
                s['tk'] = rng.randrange(1, 10**6)
        elif o == 'edit':
            k = rng.choice(['add_entry', 'set_field', 'set_custom', 'set_meta', 'save_history'])
            s = dict(getattr(g, k)(), op=k)
        elif o == 'blob':
            s = dict(g.add_binary(), op='add_binary')
        elif o == 'cred':
            s = {'op': 'set_cred', 'kf': [rng.choice(gen.KF_KINDS), rng.randrange(1000)], 'how': rng.choice(KF_HOW)}
        elif o == 'flaky':
            s = {'op': 'flaky_key', 'kf': [rng.choice(gen.KF_KINDS), rng.randrange(1000)], 'nth': rng.choice([1, 1, 2])}
        elif o == 'path':
            s = {'op': 'save'}
            if rng.random() < 0.3:
                s['to'] = rng.choice(['copy.kdbx', 'noext'])
            if rng.random() < 0.5:
                s['verify'] = rng.choice(['stream', 'pipe', 'path'])
        elif o == 'reload':
            s = {'op': 'reload'}
        else:
            s = {'op': 'reopen', 'via': rng.choice(['stream', 'pipe', 'pipe', None])}
        steps.append(s)
    p['steps'] = steps
    return p
