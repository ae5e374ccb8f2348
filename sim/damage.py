"""C05: stored bytes are damaged between save and open; nothing but the saved contents may come back.

The run saves a database (several times), damages copies of the stored file in the ways disks and copies fail, and
opens each copy with the right credentials.
"""
import hashlib
import io
import random
import struct
from collections import Counter

from . import gen, hist, kdbxref as ref, model as M, plans
from .seam import HarnessError, World


class Runaway(BaseException):
    """the key derivation of a damaged file was stopped"""


KINDS = ['flip', 'flip', 'flip', 'flip_head', 'flip_head', 'flip_edge', 'byte', 'zero', 'ones', 'truncate', 'truncate_edge', 'cut', 'dup', 'swap', 'swap_edge',
         'old', 'old', 'old_edge', 'old_tail', 'old_head', 'cut_block', 'dup_block', 'swap_block', 'old_block', 'append', 'lost_sector', 'shift', 'field', 'field',
         'end_early', 'end_early', 'len', 'len']


def plan(prop, seed, tier='quick'):
    rng = random.Random('%s/%d' % (prop, seed))
    cfg = gen.config(rng)
    big = rng.random() < 0.06
    if big:
        cfg.update(comp=0, cipher=rng.choice(['aes256', 'chacha20']), block=2**20)
    if rng.random() < 0.35:
        cfg['block'] = rng.choice([64, 200, 333])
    n = rng.choice([12, 25, 40]) if not big else 8
    if cfg['cipher'] == 'twofish':
        n = 8
    dm = []
    for _ in range(n):
        k = rng.choice(KINDS)
        d = {'k': k, 'a': rng.random(), 'b': rng.random(), 'n': rng.choice([1, 1, 2, 4, 16, 32, 64, 512, 4096]), 'bit': rng.randrange(8), 'via': rng.choice(['path', 'stream'])}
        if rng.random() < 0.15:
            d['also'] = {'k': rng.choice(KINDS), 'a': rng.random(), 'b': rng.random(), 'n': rng.choice([1, 4, 16, 512]), 'bit': rng.randrange(8)}
        dm.append(d)
    return {'prop': prop, 'seed': seed, 'kind': 'damage', 'cfg': cfg, 'dbseed': rng.randrange(10**9), 'big': big,
            'size': {'entries': rng.choice([1, 2, 3]), 'groups': rng.choice([0, 1]), 'depth': 1, 'binaries': rng.choice([0, 1, 3]), 'foreign': False},
            'resave': rng.choice([0, 1, 1, 2, 2]), 'same': rng.random() < 0.3, 'creds': plans.creds(rng) if rng.random() < 0.3 else {'pw': 'password', 'kf': None, 'how': 'path'},
            'auth': rng.choice(['cred', 'cred', 'tk']), 'clock': {'now': 1_700_000_000 * 10**9, 'tick': 1000}, 'damages': dm}


def layout(data):
    """offsets at which something starts: header fields, checksums, blocks -> (offsets, fields, blocks)"""
    major, minor, fields, end = ref.read_header(data)
    off, fs = 12, []
    ls = 3 if major == 3 else 5
    for i, d in fields:
        fs.append((i, off, off + ls, len(d)))
        off += ls + len(d)
    edges = [0, 4, 8, 10, 12] + [f[1] for f in fs] + [f[2] for f in fs] + [end]
    blocks = []
    if major == 4:
        edges += [end + 32, end + 64]
        off = end + 64
        while off + 36 <= len(data):
            n = struct.unpack('<I', data[off + 32:off + 36])[0]
            blocks.append((off, 36 + n))
            edges += [off, off + 32, off + 36]
            off += 36 + n
    else:
        edges += [end + 16, end + 32, end + 48]
        blocks = [(o, 16) for o in range(end, len(data), 16)]
    edges += [len(data) - 16, len(data)]
    return sorted(set(e for e in edges if 0 <= e <= len(data))), fs, blocks, end


def damage(data, d, older):
    n = len(data)
    edges, fs, blocks, end = layout(data) if data[:8] == ref.SIG else ([0, n], [], [], min(100, n))
    k, a, b = d['k'], d['a'], d['b']
    pos = min(n - 1, int(a * n))
    ln = min(d['n'], n - pos)
    edge = edges[int(a * len(edges))]
    x = bytearray(data)
    if k == 'flip':
        x[pos] ^= 1 << d['bit']
    elif k == 'flip_head':
        p = int(a * min(n, end + 80))
        x[min(p, n - 1)] ^= 1 << d['bit']
    elif k == 'flip_edge':
        x[min(n - 1, max(0, edge - (b < 0.3)))] ^= 1 << d['bit']
    elif k == 'byte':
        x[pos] = int(b * 256)
    elif k == 'zero':
        x[pos:pos + ln] = bytes(ln)
    elif k == 'ones':
        x[pos:pos + ln] = b'\xff' * ln
    elif k == 'truncate':
        del x[pos:]
    elif k == 'truncate_edge':
        del x[edge:]
    elif k == 'cut':
        del x[pos:pos + ln]
    elif k == 'dup':
        x[pos:pos] = x[pos:pos + ln]
    elif k in ('swap', 'swap_edge'):
        q = int(b * n)
        if k == 'swap_edge':
            pos, q = edge, edges[int(b * len(edges))]
        p, q = sorted((pos, q))
        ln = min(ln, q - p, n - q)
        x[p:p + ln], x[q:q + ln] = x[q:q + ln], x[p:p + ln]
    elif k in ('old', 'old_edge'):
        if k == 'old_edge':
            pos = edge
        x[pos:pos + d['n']] = older[pos:pos + d['n']]
    elif k == 'old_tail':
        p = pos if b < 0.5 else edge
        x[p:] = older[p:]
    elif k == 'old_head':
        p = pos if b < 0.5 else edge
        x[:p] = older[:p]
    elif k in ('cut_block', 'dup_block', 'swap_block', 'old_block') and blocks:
        o, l = blocks[int(a * len(blocks))]
        if k == 'cut_block':
            del x[o:o + l]
        elif k == 'dup_block':
            x[o:o] = x[o:o + l]
        elif k == 'swap_block':
            o2, l2 = blocks[int(b * len(blocks))]
            if o2 < o:
                o, l, o2, l2 = o2, l2, o, l
            if o2 != o:
                x = x[:o] + x[o2:o2 + l2] + x[o + l:o2] + x[o:o + l] + x[o2 + l2:]
        else:
            _, _, ob, _ = layout(older)
            if ob:
                o2, l2 = ob[min(int(a * len(blocks)), len(ob) - 1)] if b < 0.6 else ob[int(b * len(ob))]
                x[o:o + l] = older[o2:o2 + l2]
    elif k == 'append':
        x += random.Random(d['n']).randbytes(d['n']) if b < 0.7 else x[:d['n']]
    elif k == 'lost_sector':
        s = pos // 512 * 512
        x[s:s + 512] = bytes(len(x[s:s + 512]))
    elif k == 'shift':
        x[pos:pos] = bytes(d['n'])
        del x[n:]
    elif k == 'field' and fs:
        # a bit in the contents of a header field
        i, o, c, l = fs[int(a * len(fs))]
        if l:
            x[c + int(b * l)] ^= 1 << d['bit']
    elif k == 'end_early' and blocks:
        # the file ends after a complete block, with or without a last empty block
        o, l = blocks[int(a * len(blocks))]
        tail = data[blocks[-1][0]:] if b < 0.5 else bytes(36) if b < 0.8 else b''
        x = bytearray(data[:o]) + tail
    elif k == 'len':
        cand = [f[1] + 1 for f in fs] + ([o + 32 for o, _ in blocks] if data[10] == 4 else [])
        if cand:
            p = cand[int(a * len(cand))]
            x[p + (b < 0.3)] ^= 1 << d['bit']
    return bytes(x)


class Damage:
    def __init__(self, plan, pk, lib):
        self.plan, self.pk, self.lib = plan, pk, lib
        self.w = World(plan['seed'], plan['clock']['now'], plan['clock']['tick'])
        self.w.set_tz('UTC')
        self.stats, self.states, self.ignored = Counter(), set(), Counter()
        self.digest = hashlib.sha256()

    def run(self):
        try:
            self._run()
        finally:
            self.watch(None)
            self.digest.update(repr(self.w.log).encode())
            self.w.close()

    def kf(self):
        k = self.plan['creds']['kf']
        return gen.keyfile(*k) if k else None

    def open(self, data, via):
        kf = self.kf()
        kw = dict(password=self.plan['creds']['pw'], keyfile=io.BytesIO(kf) if kf is not None else None)
        if self.plan['auth'] == 'tk':
            kw = dict(transformed_key=self.tk)
        if via == 'stream':
            return self.lib.PyKeePass(io.BytesIO(data), **kw)
        self.w.put('damaged.kdbx', data)
        return self.lib.PyKeePass(self.w.path('damaged.kdbx'), **kw)

    # ------------------------------------------------------------ key derivation under observation
    def watch(self, good):
        from . import runner
        runner.observer = self.observe if good else None
        self.good = good
        self.bad_kdf = None

    def observe(self, what, args):
        """called before every key derivation step -> True to stop it"""
        stop, before = [], self.bad_kdf
        for g in self.kdfs:
            self.bad_kdf = None
            s = self.observe_one(g, what, args)
            if not self.bad_kdf:
                self.bad_kdf = before
                return False
            stop.append(s)
        return all(stop)

    def observe_one(self, g, what, args):
        if what == 'argon2':
            same = (args.get('salt'), args.get('time_cost'), args.get('memory_cost'), args.get('parallelism'), args.get('version')) == (
                g['S'], g.get('I'), g.get('M', 0) // 1024, g.get('P'), g.get('V')) and g['name'].startswith('argon2')
            if not same:
                self.bad_kdf = 'argon2 with time %r, memory %r KiB, parallelism %r' % (args.get('time_cost'), args.get('memory_cost'), args.get('parallelism'))
                return True
        elif what == 'ecb-key':
            if g['name'] != 'aeskdf' or args != g['S']:
                self.bad_kdf = 'AES key derivation with another seed'
                return self.major == 4
        elif what == 'ecb-rounds':
            if args > g.get('R', 0) * 4 + 64:
                self.bad_kdf = 'AES key derivation with more than %d rounds' % args
                return True
        return False

    def _run(self):
        p, w = self.plan, self.w
        rng = random.Random(p['dbseed'])
        root, bins = gen.build(rng, p['cfg'], p['size'], p['size']['foreign'])
        data = ref.write(root, p['cfg'], p['creds']['pw'], self.kf(), rng, bins)
        w.put('db.kdbx', data)
        versions = [data]
        dec = ref.read(data, p['creds']['pw'], self.kf())
        self.tk = dec.tk
        self.major = dec.major
        if p['resave']:
            kf = self.kf()
            kp = self.lib.PyKeePass(w.path('db.kdbx'), password=p['creds']['pw'], keyfile=io.BytesIO(kf) if kf is not None else None)
            e = kp.add_entry(kp.root_group, 'new', 'user', 'password', notes='notes')
            if p['big']:
                b = kp.add_binary(rng.randbytes(2**20 + rng.choice([-2**19, 0, 2**19, 2**20])))
                e.add_attachment(b, 'big')
            for i in range(p['resave'] + 1):
                if not p['same']:
                    e.password = 'password %d' % i
                kp.save()
                versions.append(w.get('db.kdbx'))
        target = versions[-1]
        older = versions[-2] if len(versions) > 1 else self.foreign_old(dec)
        good, want = self.contents(target, dec)
        self.kdfs = [good.kdf]
        if older is not versions[0] or len(versions) == 1:
            self.kdfs.append(self.contents(older, dec)[0].kdf)
        others = [(v[:layout(v)[3]], self.contents(v, dec)[1]) for v in versions[:-1] + [older]]
        self.watch(None)
        kp = self.open(target, 'path')
        if M.diff(want, M.live_view(kp)):
            raise hist.Violation('damage/clean', 'the undamaged file does not open with its contents: %s' % M.diff(want, M.live_view(kp))[0][1])
        self.digest.update(hashlib.sha256(target).digest())
        for i, d in enumerate(p['damages']):
            x = damage(target, d, older)
            if d.get('also'):
                if len(x) > 4:
                    x = damage(x, d['also'], older) if x[:8] == ref.SIG and self.parses(x) else x
            if any(x.startswith(v) for v in versions[:-1] + [older]) or x == target:
                # all of another complete save (and rubbish behind it): that is not damage
                self.stats['undamaged'] += 1
                continue
            # the complete header of another save: its contents may come back, if they do so completely
            wants = [want] + [v for h, v in others if x.startswith(h)]
            self.judge_one(i, d, x, good, wants)

    def contents(self, data, first):
        try:
            r = ref.read(data, self.plan['creds']['pw'], self.kf())
            return r, M.flatten(r.doc, True)
        except ref.FormatError:
            # not what the format prescribes, which is another property: go by what the library itself reads
            self.stats['unusual-format'] += 1
            return first, M.live_view(self.open(data, 'stream'))

    def parses(self, x):
        try:
            layout(x)
            return True
        except Exception:
            return False

    def foreign_old(self, dec):
        """another save of the same database by another program, with fresh seeds"""
        rng = random.Random(self.plan['dbseed'])
        root, bins = gen.build(rng, self.plan['cfg'], self.plan['size'], self.plan['size']['foreign'])
        r2 = random.Random(self.plan['dbseed'] + 1)
        return ref.write(root, self.plan['cfg'], self.plan['creds']['pw'], self.kf(), r2, bins)

    def judge_one(self, i, d, x, good, wants):
        self.w.faults['damage-' + d['k']] += 1
        self.stats['judged'] += 1
        self.stats['opens'] += 1
        if self.major == 4 or d.get('via') != 'x':
            self.watch(good.kdf)
        kp = None
        try:
            kp = self.open(x, d['via'])
            out = 'opened'
        except Exception as e:
            out = type(e).__name__
        except Runaway:
            out = 'runaway'
        bad = self.bad_kdf
        self.watch(None)
        self.digest.update(repr((i, d['k'], out, hashlib.sha256(x).hexdigest())).encode())
        self.states.add(hash((d['k'], out, len(x), self.plan['seed'], i)))
        self.stats['result:' + out] += 1
        what = 'damage %d (%s) of a KDBX%d file of %d bytes' % (i, d['k'], self.major, len(x))
        if bad and self.major == 4 and self.plan['auth'] != 'tk':
            raise hist.Violation('damage/kdf', '%s: key derivation with damaged parameters: %s' % (what, bad))
        if out == 'opened':
            try:
                view = M.live_view(kp)
                diffs = [] if any(not M.diff(w, view) for w in wants) else M.diff(wants[0], view)
            except Exception as e:
                diffs = [('error', 'reading it failed with %s' % hist.exc_text(e))]
            if diffs:
                raise hist.Violation('damage/accepted', '%s: opened with other contents than saved: %s' % (what, diffs[0][1]))
