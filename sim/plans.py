"""Plan generation: swarm-style profiles per property.  A plan is a pure function of (property, run seed, tier)."""
import errno
import random

from . import gen

TZS = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati', 'Australia/Lord_Howe', 'XXX+13', 'YYY-05:45']
OFFS = [0, 60, -300, 330, 345, 840, -720, 1, -1, 1439, -1439]
PASSWORDS = ['password', 'Secret Passw0rd!', 'pässwörd', '密码🔑', 'e\u0301\u00e9 x', ' spaces ', 'x' * 65, 'x' * 80 + 'Y', 'a\nb', '"\'<&>',
             'correct horse battery staple', '0', 'PASSWORD', 'ÀÉ', '\u2126\ufb01', 'K' * 200, None, '',
             'nul\0inside', '\ufeffStraße\r\n', 'two  spaces\tand\u200bmore', 'long %s end' % ('0123456789abcdef' * 70), 'v' * 5000 + 'W', 'wh?t?']
NAMES = ['copy.kdbx', 'db.bak', 'noext', 'ünïcode 😀.kdbx', 'db.kdbx.tmp', 'other.tmp', 'db.tmp', '.hidden', 'sub/inner.kdbx', 'a.b.c.kdbx',
         'db.kdbx.bak', 'x' * 200 + '.kdbx']
WRITE_ERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EINTR, errno.EFBIG]
ERRS = {'open': [errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EROFS, errno.EIO, errno.ENOENT, errno.EINTR], 'write': WRITE_ERR,
        'sync': [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EINTR], 'close': [errno.EIO, errno.EDQUOT, errno.ENOSPC],
        'rename': [errno.EACCES, errno.EIO, errno.ENOSPC, errno.EBUSY, errno.EROFS, errno.EPERM], 'unlink': [errno.EACCES, errno.EIO],
        'read': [errno.EIO, errno.EINTR, errno.ESTALE]}


def faults_save(rng):
    """fault rules for one save"""
    r = rng.random()
    if r < 0.12:
        return [{'op': 'write', 'nth': rng.randint(1, 3), 'short': rng.choice([0.0, 0.3, 0.999])}]
    if r < 0.3:     # disk fills up: a short write, then no space
        return [{'op': 'write', 'nth': 1, 'short': rng.choice([0.0, 0.5, 0.999])},
                {'op': 'write', 'nth': 2, 'err': errno.ENOSPC, 'sticky': True}]
    op = rng.choice(['open', 'write', 'write', 'sync', 'close', 'rename', 'rename', '*', 'unlink', 'read'])
    if op == '*':
        rule = {'op': '*', 'nth': rng.randint(1, 9), 'err': rng.choice([errno.EIO, errno.ENOSPC]), 'sticky': rng.random() < 0.5}
    else:
        nth = 1 if op in ('rename', 'sync') else rng.randint(1, 2 if op != 'write' else 3)
        err = rng.choice(ERRS[op])
        rule = {'op': op, 'nth': nth, 'err': err, 'sticky': rng.random() < 0.3 and err != errno.EINTR}
    rules = [rule]
    if op in ('sync', 'close', 'rename', 'write') and rng.random() < 0.2:
        rules.append({'op': 'unlink', 'nth': 1, 'err': errno.EIO})
    if rng.random() < 0.2:
        rules.append({'op': 'write', 'nth': 1, 'short': 0.5})
    return rules


def faults_read(rng):
    r = rng.random()
    if r < 0.3:
        return [{'op': 'open', 'nth': rng.randint(1, 2), 'err': rng.choice(ERRS['open'])}]
    if r < 0.9:
        return [{'op': 'read', 'nth': rng.choice([1, 1, 2, 3]), 'err': rng.choice(ERRS['read']), 'sticky': rng.random() < 0.3}]
    return [{'op': 'read', 'nth': rng.choice([1, 2]), 'short': rng.choice([0.0, 0.5, 0.99])}]


class G:
    """step generators"""

    def __init__(self, rng, prof):
        self.r = rng
        self.prof = prof
        self.n = 0

    def i(self):
        return self.r.randrange(1000)

    def text(self):
        return gen.text(self.r)

    def uniq(self):
        self.n += 1
        return 'v%d-%s' % (self.n, gen.text(self.r, big=0))

    def add_group(self):
        r = self.r
        return {'g': self.i(), 'name': r.choice(['same', 'same', 'same', 'Recycle Bin'] + [gen.text(r)] * 6), 'icon': r.choice([None, '1', '48']), 'notes': r.choice([None, self.text()])}

    def add_entry(self):
        r = self.r
        s = {'g': self.i(), 'title': r.choice(['same', gen.name(r)]), 'username': r.choice(['user', gen.text(r)]), 'password': self.text(),
             'force': r.random() < 0.5}
        if not s['title']:
            s['title'] = 't'
        for k in ('url', 'notes', 'otp'):
            if r.random() < 0.4:
                s[k] = self.text()
        if r.random() < 0.3:
            s['icon'] = r.choice(gen.ICONS)
        if r.random() < 0.3:
            s['tags'] = r.choice([['a', 'b'], ['x'], 'one;two', [], ['ü', 'long tag name']])
        if r.random() < 0.4:
            s['expiry'] = [self.when(), r.choice(OFFS)]
        return s

    def when(self):
        r = self.r
        k = r.random()
        if k < 0.2:
            t = r.choice([0, -1, 86399, 951782400, 4102444800, 253402214400, -62135500000 + 10**6, 2**31 - 1, 2**31, 2**32])
        else:
            t = r.randint(-10**9, 4 * 10**9)
        if r.random() < 0.4:
            t += r.choice([0.25, 0.5, 0.9, 0.000001])
        return t

    def move_entry(self):
        return {'e': self.i(), 'g': self.i(), 'fresh': self.r.random() < 0.5}

    def append(self):
        return {'g': self.i(), 'es': [self.i() for _ in range(self.r.randint(0, 3))]}

    def reindex(self):
        return {'e': self.i(), 'n': self.i(), 'fresh': self.r.random() < 0.5}

    def swap_kf(self):
        return {'kf': [self.r.choice(gen.KF_KINDS), self.r.randrange(1000)]}

    def move_group(self):
        return {'g': self.i(), 'd': self.i()}

    def trash_entry(self):
        return {'e': self.i()}

    def trash_group(self):
        return {'g': self.i()}

    def delete_entry(self):
        return {'e': self.i()}

    def delete_group(self):
        return {'g': self.i()}

    def empty_group(self):
        return {'g': self.i(), 'bin': self.r.random() < 0.5}

    def set_uuid(self):
        return {'e': self.i(), 'u': self.r.randrange(10**9), 'group': self.r.random() < 0.3}

    def set_field(self):
        return {'e': self.i(), 'f': self.r.choice(['title', 'username', 'password', 'password', 'url', 'notes', 'otp']),
                'v': self.r.choice([self.text(), self.uniq()]), 'fresh': self.r.random() < 0.5}

    def find(self):
        return {'e': self.i(), 'f': self.r.choice(['title', 'username', 'password', 'url', 'notes'])}

    def pool(self):
        return self.r.choice(['alpha', 'Alpha', 'alphabet', 'beta', 'a', "it's", '.*', 'x.y', '[b]', 'ß', 'STRASSE', '{0}', 'a;b', '$1', '1', '10', '11', 'q"q', '" or "a"="a', '"'])

    def query(self):
        return {'seed': self.r.randrange(10**9), 'n': self.r.choice([4, 8])}

    def deref(self):
        return {'seed': self.r.randrange(10**9), 'n': self.r.choice([3, 6])}

    def set_ref(self):
        return {'e': self.i(), 'f': self.r.choice(['title', 'username', 'password', 'url', 'notes']), 'seed': self.r.randrange(10**9)}

    def ref_chain(self):
        return {'n': self.r.randrange(3, 16), 'pad': self.r.random() < 0.5, 'seed': self.r.randrange(10**9)}

    def pool_entry(self):
        s = dict(self.add_entry(), op='add_entry', title=self.pool(), username=self.pool(), password=self.pool(), force=True)
        for k in ('url', 'notes', 'otp'):
            if k in s:
                s[k] = self.pool()
        return s

    def pool_group(self):
        return dict(self.add_group(), op='add_group', name=self.r.choice(['a', 'alpha', self.pool()]), notes=self.pool())

    def pool_field(self):
        s = self.set_field()
        return dict(s, op='set_field', v=self.pool())

    def pool_custom(self):
        return dict(self.set_custom(), op='set_custom', k=self.r.choice(['k1', 'k2', 'Title2', 'k 3', 'k"4']), v=self.pool())

    def set_customs(self):
        ks = self.r.sample(['k1', 'k2', 'Title2', 'k 3', 'k"4'], self.r.randint(3, 5))
        return {'e': self.i(), 'items': [[k, self.pool(), self.r.random() < 0.3] for k in ks]}

    def pool_misc(self):
        s = self.set_misc()
        if s['f'].startswith('autotype_') and s['f'] != 'autotype_enabled':
            s['v'] = self.pool()
        return dict(s, op='set_misc')

    def set_custom(self):
        return {'e': self.i(), 'k': self.r.choice(gen.CUSTOM_KEYS) if self.r.random() < 0.85 else gen.name(self.r), 'v': self.text(), 'p': self.r.random() < 0.5}

    def del_custom(self):
        return {'e': self.i(), 'n': self.i()}

    def set_group(self):
        f = self.r.choice(['name', 'notes', 'icon'])
        return {'g': self.i(), 'f': f, 'v': self.r.choice(gen.ICONS) if f == 'icon' else self.text()}

    def set_misc(self):
        r = self.r
        f = r.choice(['tags', 'icon', 'autotype_enabled', 'autotype_sequence', 'autotype_window'])
        v = {'tags': r.choice([['a'], ['a', 'b', 'c'], [], 'x;y', 'solo', ['ä ö', 'ß'], self.tags()]), 'icon': r.choice(gen.ICONS),
             'autotype_enabled': r.choice([True, False, None]), 'autotype_sequence': r.choice(['', '{TAB}', self.text()]),
             'autotype_window': r.choice(['', 'Window *', self.text()])}[f]
        return {'e': self.i(), 'f': f, 'v': v}

    def tags(self):
        ws = [w for w in gen.WORDS if w == w.strip() and w and not set(w) & set(',;\n\r\t')]
        return self.r.sample(ws, self.r.choice([1, 2, 5, 20]))

    def set_meta(self):
        r = self.r
        f = r.choice(['database_name', 'database_description', 'default_username', 'credchange_required_days', 'credchange_recommended_days'])
        return {'f': f, 'v': r.choice([-1, 0, 1, 30, 400]) if f.endswith('days') else self.text()}

    def set_time(self):
        r = self.r
        s = {'e': self.i(), 'group': r.random() < 0.3, 'f': r.choice(['expiry_time', 'expiry_time', 'ctime', 'mtime', 'atime']),
             't': self.when(), 'off': r.choice(OFFS)}
        if r.random() < 0.4:
            s.update(rel=True, t=r.choice([-86400, -1, 0, 1, 2, 60, 3600, 86400 * 30]))
        return s

    def set_expires(self):
        return {'e': self.i(), 'group': self.r.random() < 0.3, 'v': self.r.random() < 0.8}

    def touch(self):
        return {'e': self.i(), 'group': self.r.random() < 0.4, 'm': self.r.random() < 0.5}

    def set_credchange(self):
        r = self.r
        return {'t': -86400 * r.choice([0, 1, 2, 29, 30, 31, 182, 183, 365, 366]) - r.choice([0, 1, 40000]), 'rel': True, 'off': r.choice(OFFS)}

    def clock(self):
        r = self.r
        k = r.random()
        if k < 0.55:
            return {'jump': int(r.choice([1, -1]) * 10**9 * r.choice([0.001, 0.9, 1, 5, 3600, 86400, 86400 * 40, 86400 * 400]))}
        if k < 0.85:
            return {'tick': r.choice([0, 100, 15_600_000, 999_999, 10**9, 3 * 10**9])}
        return {'freeze_at': r.choice([1_700_000_000, 951_868_799, 1_709_251_199, 2**31 - 1, 4_102_444_799]) * 10**9 + r.choice([0, 0, 500_000_000])}

    def clock_expiry(self):
        return {'e': self.i(), 'group': self.r.random() < 0.3, 'd': self.r.choice([-86400, -2, -1, 0, 1, 2, 86400])}

    def tz(self):
        return {'tz': self.r.choice(TZS)}

    def save_history(self):
        return {'e': self.i() if self.r.random() < 0.6 else self.r.randrange(2), 'fresh': self.r.random() < 0.5}

    def del_history(self):
        return {'e': self.i() if self.r.random() < 0.5 else self.r.randrange(2), 'n': self.i(), 'all': self.r.random() < 0.25,
                'how': self.r.choice([None, None, None, 'item', 'kp'])}

    def add_binary(self):
        return {'b': gen.blob_spec(self.r, self.prof.get('bigblob', 0)), 'c': self.r.random() < 0.5}

    def attach(self):
        if self.r.random() < 0.05:
            return {'e': self.i(), 'name': 'dangling', 'dangle': self.r.choice([0, 0, 1, 2, 7])}
        if self.prof.get('noname') and self.r.random() < 0.05:
            return {'e': self.i(), 'n': self.i(), 'name': ''}
        return {'e': self.i(), 'n': self.i(), 'name': self.r.choice(['a.txt', 'b c.bin', 'ä.pdf', "o'x", 'same', '.*', 'a"b', gen.name(self.r), gen.name(self.r)]),
                'fresh': self.r.random() < 0.5}

    def edit_attachment(self):
        return {'e': self.i(), 'n': self.i(), 'm': self.i(), 'kind': self.r.choice(['delete', 'rename', 'id']), 'name': self.r.choice(['renamed %d' % self.i(), gen.name(self.r)]),
                'via': self.r.random() < 0.5}

    def delete_binary(self):
        if self.r.random() < 0.15:
            return {'n': self.r.choice([-1, -2, 99, 1000]), 'bad': True}
        return {'n': self.i()}

    def set_cred(self):
        r = self.r
        if r.random() < 0.55:
            return {'pw': r.choice(PASSWORDS)}
        kf = r.choice([None, [r.choice(gen.KF_KINDS), r.randrange(1000)], [r.choice(gen.KF_KINDS), r.randrange(1000)]])
        return {'kf': kf, 'how': r.choice(['path', 'Path', 'stream', 'pipe'])}

    def wrong(self):
        return {'n': self.i(), 'seed': self.i(), 'k': 8, 'via': self.r.choice(['path', 'stream', 'pipe', 'tk'])}

    def save(self):
        r = self.r
        s = {}
        if r.random() < 0.3:
            s['to'] = r.choice(NAMES)
            s['pathlib'] = r.random() < 0.3
        if r.random() < 0.4:
            s['verify'] = r.choice(['path', 'tk', 'stream', 'pipe'])
        return s

    def save_other(self):
        return {'op': 'save', 'to': self.r.choice(NAMES)}

    def save_tk(self):
        s = {'op': 'save', 'to': self.r.choice(NAMES), 'tk': self.r.randrange(1, 10**6), 'verify': 'tk'}
        if self.r.random() < 0.3:
            s['faults'] = faults_save(self.r)
        return s

    def save_fault(self):
        r = self.r
        s = {'op': 'save', 'faults': faults_save(r)}
        if r.random() < 0.3:
            s['to'] = r.choice(NAMES)
        return s

    def create(self):
        r = self.r
        s = {'n': self.i(), 'c': self.i(), 'how': r.choice(['path', 'Path', 'stream'])}
        if r.random() < 0.3:
            s['to'] = r.choice(NAMES)
        k = r.random()
        if k < 0.4:
            s['faults'] = faults_save(r)
        elif k < 0.6:
            s['line'] = {'f': r.random()}
            if r.random() < 0.5:
                s['line'] = {'f': r.random() * 0.2, 'file': 'pykeepass.py'}
        return s

    def create_crash(self):
        r = self.r
        s = {'op': 'create', 'n': self.i(), 'c': self.i(), 'crash': {'seed': r.randrange(10**6), 'probes': r.choice([6, 14, 25]), 'sweep': r.random() < 0.5}}
        if r.random() < 0.25:
            s['to'] = r.choice(NAMES)
        return s

    def save_count(self):
        return {'op': 'save', 'count': True}

    def save_line(self):
        r = self.r
        f = r.random() if r.random() < 0.5 else 1 - r.random() * 0.1
        s = {'op': 'save', 'line': {'f': f, 'exc': r.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'RecursionError'])}}
        if r.random() < 0.5:
            s['line']['file'] = 'pykeepass.py'
            s['line']['f'] = f * r.choice([0.02, 0.06, 0.2, 0.2])
        if r.random() < 0.25:
            s['to'] = r.choice(NAMES)
        return s

    def watched_save(self):
        s = self.save()
        if self.r.random() < 0.25:
            s['faults'] = faults_save(self.r)
        return s

    def reopen(self):
        s = {}
        if self.r.random() < 0.4:
            s['n'] = self.i()
        s['via'] = self.r.choice([None, None, 'stream', 'pipe', 'Path', 'tk' if self.prof.get('tk', True) else None])
        return s

    def reload(self):
        return {}

    def reload_fault(self):
        return {'op': 'reload', 'faults': faults_read(self.r)}

    def reload_line(self):
        return {'op': 'reload', 'line': {'f': self.r.random()}}

    def read(self):
        return {'n': self.i(), 'how': self.r.choice(['path', 'stream', 'pipe']), 'own': self.r.random() < 0.25}

    def save_stream(self):
        return {}

    def xml(self):
        return {}

    def failread(self):
        s = {'kind': self.r.choice(['missing', 'garbage', 'truncated', 'flipped', 'wrongpw', 'keyfile', 'io', 'io']), 'n': self.i()}
        if s['kind'] == 'io':
            s['faults'] = faults_read(self.r)
        return s

    def badcred(self):
        return {'kind': self.r.choice(['surrogate', 'type', 'keyfile', 'closed']), 'pw': self.r.choice([p for p in PASSWORDS if p]),
                'kf': [self.r.choice(gen.KF_KINDS), self.r.randrange(1000)]}

    def reject(self):
        return {'e': self.i(), 'g': self.i(), 'kind': '', 'v': self.i()}

    def crash(self):
        r = self.r
        s = {'mode': r.choice(['kill', 'power', 'both']), 'seed': r.randrange(10**6), 'probes': r.choice([6, 14, 25]), 'sweep': r.random() < 0.5}
        if r.random() < 0.25:
            s['to'] = r.choice(NAMES)
        return s

    def crash_fault(self):
        """a crash in or after a save that also meets a short write or an error"""
        s = self.crash()
        s['op'] = 'crash'
        k = self.r.random()
        if k < 0.35:
            s['faults'] = [{'op': 'write', 'nth': 1, 'short': self.r.choice([0.1, 0.5, 0.9])}]
        elif k < 0.7:
            s['faults'] = [{'op': 'sync', 'nth': 1, 'err': self.r.choice(ERRS['sync'][:3]), 'sticky': self.r.random() < 0.5}]
        else:
            s['faults'] = faults_save(self.r)
        return s


TREE = dict(add_group=3, add_entry=4, append=1, reindex=1, move_entry=3, move_group=3, trash_entry=3, trash_group=2, delete_entry=1, delete_group=1, empty_group=1)
FIELDS = dict(set_field=6, set_custom=2, del_custom=1, set_group=1, set_misc=2, set_meta=1)
TIMES = dict(set_time=2, set_expires=1, touch=2, clock=1)
BINS = dict(add_binary=3, attach=3, edit_attachment=2, delete_binary=2)
HISTO = dict(save_history=3, del_history=1)
IO = dict(save=4, reopen=2, reload=1)
FAULTY = dict(save_fault=2, save_count=.5, save_line=1, reload_fault=1, reload_line=.5, crash=1)


def mix(*ds, **kw):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    out.update(kw)
    return out


PROFILES = {
    'C01': dict(weights=mix(FIELDS, dict(add_entry=2, add_binary=1, attach=1, set_cred=1), save_fault=12, save_line=7, save_count=1.5, badcred=1, save=2,
                            reopen=1, create=1.5), steps=(6, 16), neighbours=True),
    'C02': dict(weights=mix(FIELDS, dict(add_entry=2, add_binary=1, set_cred=1), crash=9, crash_fault=2, save=1, reopen=.5, create_crash=1.5), steps=(4, 9),
                neighbours=True, bigblob=0.05),
    'C04': dict(weights=mix(TREE, FIELDS, TIMES, BINS, HISTO, FAULTY, save=6, reopen=3, reload=2, save_other=1, save_stream=.4, xml=.4, tz=.3, read=.5), steps=(8, 30),
                bigblob=0.03, sizes=True, noname=True),
    'C06': dict(weights=mix(dict(set_cred=6, swap_kf=2, set_field=2, add_entry=1, wrong=5, save=4, save_other=1, save_tk=1, save_fault=2, reopen=3, reload=3,
                                 reload_fault=1, crash=1, badcred=.5, failread=1, read=1, create=.4)), steps=(6, 16), creds=True, via_tk=0.3),
    'C07': dict(weights=mix(TREE, FIELDS, BINS, HISTO, dict(set_time=1), reject=14, failread=6, reload_fault=4, reload_line=2, save_fault=4, save_line=2,
                            save_count=1, save=2, save_tk=1.5, reload=1, reopen=1, badcred=1, set_cred=1), steps=(8, 22), live_before=True),
    'C08': dict(weights=mix(BINS, BINS, BINS, dict(save_history=4, del_history=1, move_entry=2, delete_entry=1, trash_entry=1, add_entry=2, move_group=.5),
                            save=4, reopen=2, reload=2, save_fault=2, save_line=.5, crash=1, reload_fault=1, failread=.5), steps=(10, 36), bins=True, lookup=True, bigblob=0.04, noname=True),
    'C09': dict(weights=mix(TIMES, TIMES, dict(set_time=6, touch=4, clock=4, clock_expiry=5, tz=2, add_entry=4, add_group=2, set_credchange=3,
                                               set_meta=2, set_cred=1, trash_entry=1, set_expires=3), save=3, reopen=2, reload=1, save_fault=1),
                steps=(8, 26), expiry=True),
    'C10': dict(weights=mix(dict(add_entry=9, add_group=4, clock=5, reopen=4, save=4, reload=2, move_entry=2, move_group=1, set_uuid=1.5, trash_entry=1, delete_entry=2, delete_group=.7,
                                 empty_group=.3, set_field=1, set_time=.5, touch=.5, save_history=1, save_fault=1, crash=1)), steps=(15, 45), lookup=True),
    'C11': dict(weights=mix(FIELDS, BINS, HISTO, dict(add_entry=4, set_cred=1, watched_save=9, save_other=1, reopen=2, reload=1, save_line=.5,
                                                      move_entry=1, set_custom=4, create=.4, save_stream=1.5)), steps=(8, 22), watch=True, init_create=0.2, bigblob=0.12),
    'C14': dict(weights=mix(TREE, FIELDS, TIMES, BINS, HISTO, dict(set_cred=1, save_fault=2, reload_fault=1, save_line=.5, crash=.5), save=8, reopen=3,
                            reload=2, read=.5, save_stream=.3, xml=.6), steps=(6, 24), init_create=0.03, foreign=True),
    'C15': dict(weights=mix(HISTO, HISTO, HISTO, FIELDS, FIELDS, BINS, dict(move_entry=2, move_group=1, trash_entry=1, set_time=2, touch=1, add_entry=2,
                                                                     set_uuid=.3), save=4, reopen=2, reload=2, save_fault=2, save_line=.5, crash=1,
                            failread=.5), steps=(10, 34), small=True),
    'C16': dict(weights=mix(TREE, TREE, TREE, dict(set_field=1, save_history=1, attach=1), save=4, reopen=2, reload=2, save_fault=2, crash=1,
                            save_line=.5, reject=1), steps=(10, 34), lookup=True, deep=True),
    'C17': dict(weights=mix(TREE, BINS, dict(query=14, pool_entry=8, pool_group=4, pool_field=8, pool_custom=4, set_customs=3, pool_misc=5, save_history=4, del_history=1,
                                       set_uuid=1.5, set_group=1, set_cred=.3), save=3, reopen=3, reload=3, save_fault=2, reload_fault=1, failread=.7,
                            reload_line=.5, save_line=.5, crash=.5, read=1),
                steps=(12, 36), deep=True, bins=True),
    'C18': dict(weights=mix(dict(deref=12, set_ref=12, ref_chain=2, pool_entry=6, pool_field=6, set_field=1, set_uuid=1, delete_entry=2, trash_entry=2, move_entry=2,
                                 save_history=3, add_group=1, move_group=1, delete_group=.5), save=3, reopen=3, reload=3, save_fault=2, reload_fault=1,
                            failread=.5, reload_line=.5, save_line=.5, crash=.5, read=1),
                steps=(12, 36), deep=True),
}


MANY = {'C04': ['entries', 'groups', 'custom', 'history'], 'C10': ['entries', 'groups'], 'C14': ['entries', 'custom', 'history'], 'C15': ['history'],
        'C16': ['entries', 'groups'], 'C17': ['entries', 'groups', 'custom', 'history'], 'C18': ['entries']}


def creds(rng, tk_ok=True):
    kf = rng.choice([None, None, [rng.choice(gen.KF_KINDS), rng.randrange(1000)]])
    pw = rng.choice(PASSWORDS)
    return {'pw': pw, 'kf': kf, 'how': rng.choice(['path', 'Path', 'stream', 'pipe'])}


def plan(prop, seed, tier='quick'):
    prof = PROFILES[prop]
    rng = random.Random('%s/%d' % (prop, seed))
    cfg = gen.config(rng)
    size = {'entries': rng.choice([1, 2, 4]), 'groups': rng.choice([0, 1, 2]), 'depth': rng.choice([1, 2]), 'binaries': rng.choice([0, 0, 1, 3]),
            'foreign': rng.random() < (0.9 if prof.get('foreign') else 0.5)}
    if prof.get('bins'):
        size['binaries'] = rng.choice([0, 1, 3, 5, 12])
    if prof.get('deep'):
        size.update(groups=rng.choice([1, 2, 3]), depth=rng.choice([1, 2, 3]))
    if prof.get('small'):
        size.update(entries=rng.choice([1, 2]), groups=rng.choice([0, 1]))
    if prop in ('C06', 'C07', 'C14') and rng.random() < 0.06:
        cfg['nomk'] = True
    c = creds(rng)
    if not prof.get('creds') and rng.random() < 0.5:
        c = {'pw': 'password', 'kf': None, 'how': 'path'}
    p = {'prop': prop, 'seed': seed, 'kind': 'hist', 'cfg': cfg, 'size': size, 'dbseed': rng.randrange(10**9), 'creds': c,
         'init': 'create' if rng.random() < prof.get('init_create', 0.06) else 'foreign',
         'clock': {'now': rng.randint(1_500_000_000, 2_000_000_000) * 10**9 + rng.randrange(10**9),
                   'tick': rng.choice([0, 100, 1000, 1_000_003, 15_600_000, 10**9])},
         'tz': rng.choice(TZS) if rng.random() < 0.4 else 'UTC'}
    opts = {}
    for k in ('lookup', 'expiry', 'watch', 'live_before'):
        if prof.get(k):
            opts[k] = True
    if prof.get('watch'):
        opts['keys'] = True
    if rng.random() < 0.15:
        opts['relative'] = True
    if rng.random() < 0.2:
        opts['pathlib'] = True
    p['opts'] = opts
    p['dirs'] = ['sub']
    if prof.get('neighbours') or rng.random() < 0.2:
        p['neighbours'] = rng.sample(['db.tmp', 'db.kdbx.tmp', 'db.kdbx~', 'other.kdbx', 'notes.txt', 'tmp', '.tmp', 'db', 'db.kdbx.bak', 'db.bak.tmp',
                                      'copy.tmp', 'copy.kdbx.tmp', 'sub/inner.tmp'], rng.randint(2, 6))
    if rng.random() < prof.get('via_tk', 0.05):
        p['via'] = 'tk'
    if rng.random() < 0.1:
        p['name'] = rng.choice(['noext', 'ünï.kdbx', 'sub/db.kdbx', 'db.tmp2', 'x.y.kdbx'])
    g = G(rng, prof)
    w = prof['weights']
    # swarm: leave out some operations in each run
    ops = sorted(w)
    keep = [o for o in ops if rng.random() < 0.75 or o in ('save', 'reopen', 'save_fault', 'crash', 'reject')]
    ws = [w[o] for o in keep]
    lo, hi = prof['steps']
    n = rng.randint(lo, hi)
    steps = []
    if any(o in keep for o in ('save_line', 'reload_line')):
        steps.append({'op': 'save', 'count': True})
    if prof.get('sizes') and rng.random() < 0.12:
        # make the payload end near a multiple of the block size
        cfg['comp'] = 0
        if cfg['cipher'] == 'twofish':
            cfg['cipher'] = rng.choice(['aes256', 'chacha20'])
        steps.append({'op': 'fit', 'blocks': rng.choice([1, 1, 2]), 'd': rng.choice([-17, -16, -15, -1, 0, 0, 0, 1, 15, 16, 17])})
        steps.append({'op': 'save', 'verify': 'path'})
        n = min(n, 6)
    elif prof.get('sizes') and rng.random() < 0.015:
        # values and nesting beyond the usual limits of XML parsers
        if cfg['cipher'] == 'twofish':
            cfg['cipher'] = rng.choice(['aes256', 'chacha20'])
        cfg['block'] = max(cfg['block'], 2**20)
        k = rng.randrange(4)
        if k == 0:
            steps.append({'op': 'add_binary', 'b': {'seed': rng.randrange(10**6), 'len': 8_000_000, 'kind': 'rand'}, 'c': False})
            steps.append({'op': 'attach', 'e': 0, 'n': 999, 'name': 'big'})
        elif k == 1:
            steps.append({'op': 'set_field', 'e': g.i(), 'f': rng.choice(['notes', 'password']), 'vlen': 10_100_000, 'seed': rng.randrange(100, 1000)})
        else:
            steps.append({'op': 'chain', 'g': g.i(), 'n': rng.choice([120, 260, 300])})
            steps.append(dict(g.add_entry(), op='add_entry', g=999))
        steps += [{'op': 'save', 'verify': 'path'}, {'op': 'reopen'}, dict(g.set_field(), op='set_field'), {'op': 'save'}, {'op': 'reopen'}]
        n = 0
    if prop == 'C08' and rng.random() < 0.015:
        steps.append({'op': 'many_binaries', 'upto': rng.choice([100, 258, 300]), 'seed': g.i()})
        for k in (3, 250, 255, 256, 257, 299):
            steps.append({'op': 'attach', 'e': g.i(), 'n': k, 'name': 'many %d' % k})
        n = min(n, 14)
    if prop in MANY and rng.random() < 0.03:
        if cfg['cipher'] == 'twofish':
            cfg['cipher'] = rng.choice(['aes256', 'chacha20'])
        k = rng.choice(MANY[prop])
        steps.append({'op': 'many', 'kind': k, 'g': rng.choice([0, g.i()]), 'n': rng.choice([9, 11, 12, 21, 33] if k == 'history' else [33, 65, 130]), 'seed': g.i()})
        steps += [{'op': 'save'}, {'op': 'reopen'}]
        n = min(n, 8)
    if prof.get('bigblob') and cfg['cipher'] == 'twofish':
        g.prof = dict(prof, bigblob=0)
    for _ in range(n):
        o = rng.choices(keep, ws)[0]
        s = getattr(g, o)()
        s.setdefault('op', o)
        steps.append(s)
    p['steps'] = unseen(seed, steps)
    return p


def unseen(seed, steps):
    """after some steps of some runs nobody looks at the database: looking may refresh what the library remembers"""
    r = random.Random('unseen/%d' % seed)
    if r.random() < 0.4:
        q = r.choice([0.3, 0.6, 0.9])
        return [dict(s, unseen=True) if r.random() < q else s for s in steps]
    return steps


JUDGE = {
    'C01': lambda ph, c: ph == 'file' and c not in ('header',) or c == 'error',
    'C02': lambda ph, c: ph == 'file' and c not in ('header', 'foreign') or (ph == 'reopen' and c in ('cred', 'error')),
    'C04': lambda ph, c: ph in ('file', 'reopen') and c not in ('dir',) or (ph == 'live' and c not in ('uuid', 'expired')),
    'C06': lambda ph, c: c in ('cred', 'format', 'error', 'session'),
    'C07': lambda ph, c: ph == 'fail' or c in ('error', 'format', 'session'),
    'C08': lambda ph, c: c in ('attach', 'hattach', 'binaries', 'format', 'error'),
    'C09': lambda ph, c: c in ('time', 'expired', 'format', 'error'),
    'C10': lambda ph, c: c in ('uuid', 'tree', 'format', 'error'),
    'C11': lambda ph, c: c in ('plaintext', 'reuse', 'protect', 'format', 'error'),
    'C14': lambda ph, c: c not in ('dir', 'target', 'crash', 'expired', 'uuid', 'plaintext', 'reuse', 'cred'),
    'C15': lambda ph, c: c in ('history', 'hattach', 'format', 'error'),
    'C16': lambda ph, c: c in ('tree', 'field', 'protect', 'attach', 'history', 'foreign', 'autotype', 'time', 'format', 'error'),
    'C17': lambda ph, c: c in ('search', 'format', 'error'),
    'C18': lambda ph, c: c in ('deref', 'format', 'error'),
}
