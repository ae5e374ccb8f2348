"""Histories: one database object driven through its public API in the simulated world, next to the model.

A plan (plain JSON) fixes everything: initial database, credentials, clock, and the list of steps with the
faults placed in them.  run(plan) is a pure function of the plan and the code under test.
"""
import base64
import copy
import hashlib
import io
import os
import random
import re
import sys
import unicodedata
import zlib
from collections import Counter
from datetime import datetime, timedelta, timezone
from pathlib import Path
from uuid import UUID

from . import gen, kdbxref as ref, model as M, query
from .seam import HarnessError, LineFault, Recorder, World

ANY = ('live', 'file', 'reopen', 'fail')


ADDR = re.compile('0x[0-9a-f]{5,}')


class Violation(Exception):
    def __init__(self, cat, msg):
        super().__init__(msg)
        self.cat, self.msg = cat, msg


class Inconclusive(Exception):
    """the run cannot be judged any further (not a violation)"""


class Saved:
    """what the model knows about one file"""
    def __init__(self, doc, cred, data, hdr):
        self.doc, self.cred, self.data, self.hdr = doc, cred, data, hdr


class Pipe:
    """a readable stream that cannot be rewound"""
    def __init__(self, data):
        self.b = io.BytesIO(data)

    def read(self, n=-1):
        return self.b.read(n)

    def seekable(self):
        return False

    def readable(self):
        return True


def aware(t, off):
    """aware datetime of the instant t (seconds, may be fractional) at the UTC offset off (minutes)"""
    return (datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=round(t * 10**6))).astimezone(
        timezone(timedelta(minutes=off)))


def exc_text(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200].replace(World.current.dir if World.current else '\0', '.'))


class Hist:
    def __init__(self, plan, pk, judge, lib, world=None):
        """judge(phase, cat) -> bool: does a difference of this kind concern the property under check"""
        self.plan, self.pk, self.judge, self.lib = plan, pk, judge, lib
        self.w = world or World(plan['seed'], plan['clock']['now'], plan['clock']['tick'])
        if world is None:
            self.w.set_tz(plan.get('tz', 'UTC'))
        self.stats = Counter()
        self.states = set()
        self.digest = hashlib.sha256()
        self.ignored = Counter()
        self.disk = {}
        self.files = {}          # every file that is supposed to exist: name -> bytes
        self.handles = {}
        self.gheld = {}          # objects for groups, kept by the caller
        self.keep = []
        self.asked = []          # searches made before
        self.uuids = set()
        self.secrets = {}
        self.used_keys = {}
        self.kf_count = 0
        self.step_no = -1
        self.unseen = False
        self.opts = plan.get('opts', {})
        if self.opts.get('relative'):
            os.chdir(self.w.dir)

    # ------------------------------------------------------------ reporting
    def fail(self, phase, cat, msg):
        msg = ADDR.sub('0x..', msg.replace(self.w.dir, '.'))
        if self.judge(phase, cat):
            raise Violation('%s/%s' % (phase, cat), 'step %d: %s' % (self.step_no, msg))
        self.ignored['%s/%s' % (phase, cat)] += 1

    def note(self, *what):
        self.digest.update(repr(what).encode())

    def compare(self, phase, expected, actual, context):
        for cat, text in M.diff(expected, actual):
            self.fail(phase, cat, '%s: %s' % (context, text))

    # ------------------------------------------------------------ credentials
    def kf_bytes(self, kf):
        return gen.keyfile(kf[0], kf[1]) if kf else None

    def tk_of(self, pw, kf, hdr):
        return ref.transform(ref.composite(pw, self.kf_bytes(kf)), hdr['kdf'])

    def kf_arg(self, kf, how):
        if not kf:
            return None
        data = self.kf_bytes(kf)
        if how == 'stream':
            return io.BytesIO(data)
        if how == 'pipe':
            return Pipe(data)
        name, i = 'key-%s-%d.key' % tuple(kf), 0
        while self.files.get(name, data) != data:        # its contents were replaced
            i += 1
            name = 'key-%s-%d-%d.key' % (*kf, i)
        if name not in self.files:
            self.w.put(name, data)
            self.files[name] = data
        p = self.target(name)
        return Path(p) if how == 'Path' else p

    def target(self, name):
        return name if self.opts.get('relative') else self.w.path(name)

    @staticmethod
    def header_facts(r):
        return dict(version=(r.major, r.minor), cipher=r.cipher, comp=r.comp, kdf=r.kdf, kdf_types=getattr(r, 'kdf_types', None),
                    stream=r.stream, fields=tuple(sorted(i for i, _ in r.fields)), pcd=r.pcd, comment=dict(r.fields).get(1))

    # ------------------------------------------------------------ start
    def start(self):
        p = self.plan
        c = p['creds']
        self.name = p.get('name', 'db.kdbx')
        for n in p.get('neighbours', []):
            d = b'neighbour %s\n' % n.encode() * 3
            os.makedirs(os.path.dirname(self.w.path(n)), exist_ok=True)
            self.w.put(n, d)
            self.files[n] = d
        for d in p.get('dirs', []):
            with self.w.outside:
                os.makedirs(self.w.path(d), exist_ok=True)
        if p['init'] == 'create':
            self.kp = self.pk.create_database(self.target(self.name), password=c['pw'], keyfile=self.kf_arg(c['kf'], c['how']))
            data = self.w.get(self.name)
        else:
            rng = random.Random(p['dbseed'])
            root, bins = gen.build(rng, p['cfg'], p['size'], p['size'].get('foreign', True))
            data = ref.write(root, p['cfg'], c['pw'], self.kf_bytes(c['kf']), rng, bins)
            self.w.put(self.name, data)
        self.files[self.name] = data
        r = self.decode(data, c['pw'], self.kf_bytes(c['kf']))
        self.hdr = self.header_facts(r)
        self.major = r.major
        self.doc = r.doc
        cred = dict(pw=c['pw'], kf=c['kf'], tk=r.tk)
        self.disk[self.name] = Saved(copy.deepcopy(r.doc), cred, data, self.hdr)
        self.cred = cred                              # what the next save will use
        self.sess = dict(pw=c['pw'], kf=c['kf'], tk=None)
        self.fname = self.name
        if p['init'] != 'create':
            if p.get('via') == 'tk':
                self.sess = dict(pw=None, kf=None, tk=r.tk)
                self.kp = self.lib.PyKeePass(self.target(self.name), transformed_key=r.tk)
            else:
                fn = self.target(self.name)
                self.kp = self.lib.PyKeePass(Path(fn) if self.opts.get('pathlib') else fn, password=c['pw'],
                                             keyfile=self.kf_arg(c['kf'], c['how']))
        for g, *_ in M.all_groups(self.doc):
            self.uuids.add(g['uuid'])
        for e, *_ in M.all_entries(self.doc):
            self.uuids.add(e['uuid'])
        self.check_live('reopen', 'opening the initial database')
        if self.opts.get('watch'):
            self.start_watch()
        if self.opts.get('keys'):
            self.learn_keys(r, data)

    def decode(self, data, pw, kf, tk=None):
        with self.w.outside:
            return ref.read(data, pw, kf, tk)

    # ------------------------------------------------------------ oracles
    def check_live(self, phase, context):
        try:
            v = M.live_view(self.kp)
        except Violation:
            raise
        except Exception as e:
            self.fail(phase, 'error', '%s: reading the database through its API failed: %s' % (context, exc_text(e)))
            raise Inconclusive()
        self.compare(phase, M.flatten(self.doc, True), v, context)
        self.check_held(phase, context)
        self.states.add(hash(repr(sorted(v.items(), key=repr))))
        self.stats['live-compare'] += 1
        if (self.kp.version, self.kp.encryption_algorithm) != (self.hdr['version'], self.hdr['cipher']):
            self.fail(phase, 'header', '%s: version or cipher changed' % context)
        if self.kp.database_salt != self.hdr['kdf']['S']:
            self.fail(phase, 'header', '%s: the salt of the key derivation changed' % context)
        if self.opts.get('lookup'):
            self.check_lookup(phase)
        if self.opts.get('expiry'):
            self.check_expiry()

    def check_lookup(self, phase):
        """find by UUID returns exactly the element, and the flat lists agree with the tree"""
        es = M.all_entries(self.doc)
        gs = M.all_groups(self.doc)
        for e, g, *_ in es[:12]:
            f = self.kp.find_entries(uuid=UUID(bytes=e['uuid']))
            if len(f) != 1 or f[0].uuid.bytes != e['uuid'] or M.norm(f[0].title) != M.norm(e['strings'].get('Title', (None,))[0]):
                self.fail(phase, 'uuid', 'lookup of entry %s found %d entries' % (e['uuid'].hex(), len(f)))
            elif f[0].group.uuid.bytes != g['uuid']:
                self.fail(phase, 'tree', 'entry %s is in another group' % e['uuid'].hex())
            f = self.kp.find_entries(uuid=UUID(bytes=e['uuid']), first=True)
            if f is None or f.uuid.bytes != e['uuid'] or f.group.uuid.bytes != g['uuid'] or M.norm(f.title) != M.norm(e['strings'].get('Title', (None,))[0]):
                self.fail(phase, 'uuid', 'lookup of entry %s found %s' % (e['uuid'].hex(), f and f.uuid))
        here = {e['uuid'] for e, *_ in es} | {g['uuid'] for g, *_ in gs}
        for u in sorted(self.uuids - here)[:6]:
            f = self.kp.find_entries(uuid=UUID(bytes=u), first=True) or self.kp.find_groups(uuid=UUID(bytes=u), first=True)
            if f is not None or self.kp.find_entries(uuid=UUID(bytes=u)) or self.kp.find_groups(uuid=UUID(bytes=u)):
                self.fail(phase, 'uuid', 'lookup of %s found an element that is not in the database' % u.hex())
        for g, parent, _ in gs[:8]:
            f = self.kp.find_groups(uuid=UUID(bytes=g['uuid']), first=True)
            if f is None or f.uuid.bytes != g['uuid'] or M.norm(f.name) != M.norm(g['name']):
                self.fail(phase, 'uuid', 'lookup of group %s found %s' % (g['uuid'].hex(), f and f.uuid))
            f = self.kp.find_groups(uuid=UUID(bytes=g['uuid']))
            if len(f) != 1 or f[0].uuid.bytes != g['uuid'] or M.norm(f[0].name) != M.norm(g['name']):
                self.fail(phase, 'uuid', 'lookup of group %s found %d groups' % (g['uuid'].hex(), len(f)))
        if sorted(x.uuid.bytes for x in self.kp.entries) != sorted(e['uuid'] for e, *_ in es):
            self.fail(phase, 'tree', 'the list of all entries does not match the tree')
        if sorted((a.entry.uuid.hex, M.norm(a.filename) or '', M.live_attached(a)) for a in self.kp.attachments) != sorted(
                (e['uuid'].hex(), M.norm(f) or '', M.attached(self.doc, i)) for e, *_ in es for f, i in e['attachments']):
            self.fail(phase, 'attach', 'the list of all attachments does not match the entries')
        if sorted(x.uuid.bytes for x in self.kp.groups) != sorted(g['uuid'] for g, *_ in gs):
            self.fail(phase, 'tree', 'the list of all groups does not match the tree')

    def check_expiry(self):
        w = self.w
        objs = [(g, self.group_obj(path)) for g, _, path in M.all_groups(self.doc)][:4]
        objs += [(e, self.entry_obj(e)) for e, *_ in M.all_entries(self.doc)][:6]
        for m, o in objs:
            t = m['times']['ExpiryTime']
            fr = m.get('_fr', 0.0)       # known fraction of a second, None if unknown
            lo = w.now_ns()
            got = o.expired
            hi = w.now_ns()
            self.stats['expiry-check'] += 1
            if not m['times']['Expires']:
                want = False
            else:
                # the library sees whole microseconds
                t *= 10**6
                a, b = (t, t) if fr == 0 else (t, t + 10**6) if fr is None else (t + round(fr * 10**6),) * 2
                if lo // 1000 > b:
                    want = True
                elif -(-hi // 1000) <= a:
                    want = False
                else:
                    continue
            if got is not want:
                self.fail('live', 'expired', '%s: expired is %r at clock %d, expires=%r, expiry time %r' % (
                    m['uuid'].hex(), got, lo // 10**9, m['times']['Expires'], m['times']['ExpiryTime']))
        for attr, tag in (('credchange_required', 'MasterKeyChangeForce'), ('credchange_recommended', 'MasterKeyChangeRec')):
            days = int(M.meta_get(self.doc, tag))
            ch = M.meta_get(self.doc, 'MasterKeyChanged')
            if ch is None:
                continue
            lo = w.now_ns()
            got = getattr(self.kp, attr)
            hi = w.now_ns()
            d1 = ((lo - (ch + 1) * 10**9) // 10**9) // 86400
            d2 = ((hi - ch * 10**9) // 10**9) // 86400
            if d1 != d2:
                continue
            want = days != -1 and d1 > days
            if got is not want:
                self.fail('live', 'expired', '%s is %r, %d days after the last change with %d days allowed' % (attr, got, d1, days))

    # ------------------------------------------------------------ objects
    def group_obj(self, path):
        m = self.doc['root']
        for i in path:
            m = m['groups'][i]
        held = self.gheld.get(id(m))
        if held and (self.step_no + len(path)) % 2:
            return held[1]                  # the object the caller has kept since earlier
        g = self.kp.root_group
        for i in path:
            g = g.subgroups[i]
        if not held:
            self.gheld[id(m)] = (m, g)
            if len(path) % 2 == 0:
                g.entries, g.subgroups      # and has looked at
        return g

    def check_held(self, phase, context):
        """objects for groups that the caller kept show what is in the database now"""
        for m, parent, _ in M.all_groups(self.doc):
            held = self.gheld.get(id(m))
            if held is None:
                continue
            g = held[1]
            self.stats['held-groups'] += 1
            for what, got in (('entries', g.entries), ('groups', g.subgroups)):
                if [x.uuid.bytes for x in got] != [x['uuid'] for x in m[what]]:
                    self.fail(phase, 'tree', '%s: an object for group %s kept since earlier shows other %s' % (context, m['uuid'].hex(), what))
            if g.uuid.bytes != m['uuid'] or M.norm(g.name) != M.norm(m['name']) or M.norm(g.notes) != M.norm(m['notes']):
                self.fail(phase, 'tree', '%s: an object for group %s kept since earlier shows %s' % (context, m['uuid'].hex(), M.short(g.name)))
            up = g.parentgroup
            if (up.uuid.bytes if up is not None else None) != (parent['uuid'] if parent else None):
                self.fail(phase, 'tree', '%s: an object for group %s kept since earlier shows another parent' % (context, m['uuid'].hex()))

    def entry_obj(self, e, fresh=False):
        o = self.handles.get(id(e))
        if o is not None and not fresh:
            return o
        for x, g, path, i in M.all_entries(self.doc):
            if x is e:
                o = self.group_obj(path).entries[i]
                self.handles[id(e)] = o
                self.keep.append(e)
                return o
        raise HarnessError('entry vanished from the model')

    def pick_entry(self, n):
        es = M.all_entries(self.doc)
        if not es:
            return None
        return es[n % len(es)][0]

    def pick_group(self, n):
        gs = M.all_groups(self.doc)
        return gs[n % len(gs)]

    def parent_of(self, e):
        for x, g, *_ in M.all_entries(self.doc):
            if x is e:
                return g

    def forget(self):
        self.handles = {}
        self.gheld = {}

    # ------------------------------------------------------------ running
    def step(self, i, s):
        self.step_no = i
        self.unseen = s.get('unseen', False)
        self.note(i, s['op'], self.w.now_ns())
        self.stats['op:' + s['op']] += 1
        if self.opts.get('watch'):
            self.collect_secrets()
        self.note(getattr(self, 'op_' + s['op'])(s))
        if self.opts.get('watch'):
            self.check_leak()

    def begin(self):
        try:
            self.start()
        except (Violation, Inconclusive, HarnessError):
            raise
        except ref.FormatError as e:
            self.fail('file', 'format', 'the file written by create_database cannot be read: %s' % e)
            raise Inconclusive()
        except Exception as e:
            self.fail('reopen', 'error', 'opening a well-formed database failed: %s' % exc_text(e))
            raise Inconclusive()

    def run(self):
        try:
            self.begin()
            for i, s in enumerate(self.plan['steps']):
                self.step(i, s)
            self.step_no = len(self.plan['steps'])
            if self.opts.get('watch'):
                self.collect_secrets()
            self.finish()
            if self.opts.get('watch'):
                self.check_leak()
        except Inconclusive:
            self.stats['inconclusive'] += 1
        finally:
            os.chdir('/')
            self.w.disarm()
            self.note([x if isinstance(x, tuple) else x for x in self.w.log])
            self.w.close()

    def finish(self):
        """with all faults gone the database can be saved, and reopened with the saved contents"""
        if any(s.get('unseen') for s in self.plan['steps']):
            self.unseen = False
            self.check_live('live', 'at the end')
        if self.plan.get('finish', True):
            self.op_save({'op': 'save'})
            self.op_reopen({'op': 'reopen'})

    def edit(self, what, f):
        """an edit that must succeed"""
        lo = self.w.now_ns()
        try:
            r = f()
        except Exception as e:
            self.fail('live', 'error', '%s failed: %s' % (what, exc_text(e)))
            raise Inconclusive()
        self.window = (lo, self.w.now_ns())
        return r

    def after(self, what):
        if self.unseen:
            # nobody looks, so nothing is read between this step and the next
            self.stats['unseen'] += 1
            return
        self.check_live('live', 'after ' + what)

    def clock_time(self, dt, what):
        """dt was recorded by the library just now: check it against the clock and return it in seconds"""
        s = M.secs(dt)
        lo, hi = self.window
        ok = lo // 10**9 <= s <= (hi + 20_000) // 10**9
        if not ok:
            self.fail('live', 'time', '%s is %s, but the clock was between %.6f and %.6f' % (what, dt, lo / 1e9, hi / 1e9))
        return s

    def new_uuid(self, u, what):
        if u in self.uuids:
            self.fail('live', 'uuid', 'new %s has the UUID %s of another element' % (what, u.hex()))
        self.uuids.add(u)

    # ------------------------------------------------------------ edits: tree
    def op_add_group(self, s):
        g, _, path = self.pick_group(s['g'])
        dest = self.group_obj(path)
        args = {k: s[k] for k in ('icon', 'notes') if s.get(k) is not None}
        o = self.edit('add_group', lambda: self.kp.add_group(dest, s['name'], **args))
        u = o.uuid.bytes
        self.new_uuid(u, 'group')
        t = self.clock_time(o.ctime, 'creation time of a new group')
        g['groups'].append(dict(uuid=u, name=M.norm(s['name']), notes=M.norm(args.get('notes')), icon=M.norm(args.get('icon')),
                                times=M.new_times(t), entries=[], groups=[], other=[], _fr=None if self.major == 3 else 0.0))
        self.after('add_group')

    def op_chain(self, s):
        """a chain of nested groups"""
        sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))      # for the model's own walks
        g, _, path = self.pick_group(s['g'])
        dest = self.group_obj(path)
        for k in range(s['n']):
            o = dest = self.edit('add_group', lambda: self.kp.add_group(dest, 'level %d' % k))
            u = o.uuid.bytes
            self.new_uuid(u, 'group')
            t = self.clock_time(o.ctime, 'creation time of a new group')
            n = dict(uuid=u, name='level %d' % k, notes=None, icon=None, times=M.new_times(t), entries=[], groups=[], other=[],
                     _fr=None if self.major == 3 else 0.0)
            g['groups'].append(n)
            g = n
        self.after('add_group')

    def op_add_entry(self, s):
        g, _, path = self.pick_group(s['g'])
        dest = self.group_obj(path)
        kw = {k: s[k] for k in ('url', 'notes', 'otp', 'icon', 'tags') if s.get(k) is not None}
        exp = None
        if s.get('expiry'):
            exp = aware(*s['expiry'])
            kw['expiry_time'] = exp
        dup = any(e['strings'].get('Title', (None,))[0] == s['title'] and e['strings'].get('UserName', (None,))[0] == s['username']
                  for e in g['entries']) and s['title'] and s['username']
        if not s['username']:
            s = dict(s, force=True)           # whether an empty user name makes a duplicate is left open
        f = lambda: self.kp.add_entry(dest, s['title'], s['username'], s['password'], force_creation=bool(s.get('force')), **kw)
        if dup and not s.get('force'):
            try:
                f()
            except Exception:
                self.check_live('fail', 'after a refused duplicate entry')
                return 'dup'
            raise Inconclusive()
        o = self.edit('add_entry', f)
        u = o.uuid.bytes
        self.new_uuid(u, 'entry')
        t = self.clock_time(o.ctime, 'creation time of a new entry')
        st = {'Title': (M.norm(s['title']), False), 'UserName': (M.norm(s['username']), False), 'Password': (M.norm(s['password']), True)}
        for k, n, p in (('url', 'URL', False), ('notes', 'Notes', False), ('otp', 'otp', True)):
            if kw.get(k):
                st[n] = (kw[k], p)
        tags = kw.get('tags') or []
        g['entries'].append(dict(
            uuid=u, icon=M.norm(kw.get('icon')), tags=ref.split_tags(';'.join(tags) if isinstance(tags, list) else tags), strings=st,
            times=M.new_times(t, exp is not None, None if exp is None else M.secs(exp)), autotype=M.NEW_AUTOTYPE, attachments=[],
            history=[], other=[], _fr=0.0 if self.major == 4 else None if exp is None else exp.microsecond / 1e6))
        self.keep.append(g['entries'][-1])
        self.handles[id(g['entries'][-1])] = o
        self.after('add_entry')

    def op_move_entry(self, s):
        e = self.pick_entry(s['e'])
        if e is None:
            return
        g, _, path = self.pick_group(s['g'])
        o, dest = self.entry_obj(e, s.get('fresh')), self.group_obj(path)
        self.edit('move_entry', lambda: self.kp.move_entry(o, dest))
        p = self.parent_of(e)
        p['entries'] = [x for x in p['entries'] if x is not e]
        g['entries'].append(e)
        self.after('move_entry')

    def op_append(self, s):
        """Group.append with a list of entries and groups"""
        d, _, dpath = self.pick_group(s['g'])
        ms = []
        for n in s['es']:
            e = self.pick_entry(n)
            if e is not None and not any(e is x for x, _ in ms):
                ms.append((e, self.entry_obj(e)))
        dest = self.group_obj(dpath)
        self.edit('append', lambda: dest.append([o for _, o in ms]))
        for e, _ in ms:
            p = self.parent_of(e)
            p['entries'] = [x for x in p['entries'] if x is not e]
            d['entries'].append(e)
        self.after('append')

    def op_reindex(self, s):
        """Entry.reindex, in groups whose entries are not mixed with other elements"""
        e = self.pick_entry(s['e'])
        if e is None:
            return
        o, p = self.entry_obj(e, s.get('fresh')), self.parent_of(e)
        kids = [c.tag for c in self.kp.tree.xpath('//Group[UUID="%s"]' % base64.b64encode(p['uuid']).decode())[0]]
        i = kids.index('Entry')
        n = len(p['entries'])
        if kids[i:i + n] != ['Entry'] * n or n < 2:
            return
        k = s['n'] % n
        # the position is counted from the first entry of the group
        if p['entries'][0] is e and i + n < len(kids):
            return
        self.edit('reindex', lambda: o.reindex(k))
        p['entries'] = [x for x in p['entries'] if x is not e]
        p['entries'].insert(k, e)
        if o.index != k:
            self.fail('live', 'tree', 'index is %r after reindex(%d)' % (o.index, k))
        self.after('reindex')

    def op_move_group(self, s):
        x, xp, path = self.pick_group(s['g'])
        d, _, dpath = self.pick_group(s['d'])
        if xp is None or M.in_subtree(d, x):
            return
        o, dest = self.group_obj(path), self.group_obj(dpath)
        self.edit('move_group', lambda: self.kp.move_group(o, dest))
        xp['groups'] = [y for y in xp['groups'] if y is not x]
        d['groups'].append(x)
        self.after('move_group')

    def bin_group(self):
        u = M.meta_get(self.doc, 'RecycleBinUUID')
        import base64
        u = base64.b64decode(u)
        for g, p, path in M.all_groups(self.doc):
            if g['uuid'] == u:
                return g

    def adopt_bin(self):
        """the library had to create a recycle bin; find it and take it into the model"""
        import base64
        o = self.kp.recyclebin_group
        if o is None:
            self.fail('live', 'tree', 'no recycle bin after trashing')
            raise Inconclusive()
        u = o.uuid.bytes
        self.new_uuid(u, 'recycle bin')
        t = self.clock_time(o.ctime, 'creation time of the recycle bin')
        if not o.name:
            self.fail('live', 'tree', 'recycle bin without a name')
        b = dict(uuid=u, name=o.name, notes=None, icon=M.norm(o.icon), times=M.new_times(t), entries=[], groups=[], other=[],
                 _fr=None if self.major == 3 else 0.0)
        self.doc['root']['groups'].append(b)
        M.meta_set(self.doc, 'RecycleBinUUID', base64.b64encode(u).decode())
        return b

    def op_trash_entry(self, s):
        e = self.pick_entry(s['e'])
        if e is None:
            return
        b = self.bin_group()
        o = self.entry_obj(e)
        self.edit('trash_entry', lambda: self.kp.trash_entry(o))
        p = self.parent_of(e)
        if b is None:
            b = self.adopt_bin()
        p['entries'] = [x for x in p['entries'] if x is not e]
        b['entries'].append(e)
        self.check_bin(b)
        self.after('trash_entry')

    def check_bin(self, b):
        r = self.kp.recyclebin_group
        if r is None or r.uuid.bytes != b['uuid']:
            self.fail('live', 'tree', 'the recycle bin is not found')

    def op_trash_group(self, s):
        x, xp, path = self.pick_group(s['g'])
        b = self.bin_group()
        o = self.group_obj(path)
        refuse = xp is None or (b is not None and M.in_subtree(b, x))
        if refuse:
            try:
                self.kp.trash_group(o)
            except Exception:
                self.check_live('fail', 'after a refused trash_group')
                self.check_live('live', 'after a refused trash_group')
                return 'refused'
            self.fail('live', 'tree', 'the root group or a group containing the recycle bin was moved into the recycle bin')
            raise Inconclusive()
        self.edit('trash_group', lambda: self.kp.trash_group(o))
        if b is None:
            b = self.adopt_bin()
        xp['groups'] = [y for y in xp['groups'] if y is not x]
        b['groups'].append(x)
        self.check_bin(b)
        self.after('trash_group')

    def op_delete_entry(self, s):
        e = self.pick_entry(s['e'])
        if e is None:
            return
        o = self.entry_obj(e)
        self.edit('delete_entry', lambda: self.kp.delete_entry(o))
        p = self.parent_of(e)
        p['entries'] = [x for x in p['entries'] if x is not e]
        self.after('delete_entry')

    def op_delete_group(self, s):
        x, xp, path = self.pick_group(s['g'])
        if xp is None:
            return
        o = self.group_obj(path)
        self.edit('delete_group', lambda: self.kp.delete_group(o))
        xp['groups'] = [y for y in xp['groups'] if y is not x]
        self.after('delete_group')

    def op_empty_group(self, s):
        x, xp, path = self.pick_group(s['g'])
        if s.get('bin'):
            x = self.bin_group() or x
            path = [p for g, _, p in M.all_groups(self.doc) if g is x][0]
        if x is self.doc['root'] and not s.get('root'):
            return
        o = self.group_obj(path)
        self.edit('empty_group', lambda: self.kp.empty_group(o))
        x['groups'], x['entries'] = [], []
        self.after('empty_group')

    def op_set_uuid(self, s):
        u = random.Random(s['u']).randbytes(16)
        if u in self.uuids:
            return
        if s.get('group'):
            g, _, path = self.pick_group(s['e'])
            if g is self.bin_group():
                return
            o, m = self.group_obj(path), g
        else:
            m = self.pick_entry(s['e'])
            if m is None:
                return
            o = self.entry_obj(m)
        old = m['uuid']
        if s['u'] % 2:          # somebody has looked the element up before its UUID changes
            kind = 'g' if s.get('group') else 'e'
            find = self.kp.find_groups if s.get('group') else self.kp.find_entries
            for x in (old, u):
                f = self.edit('find(uuid)', lambda: find(uuid=UUID(bytes=x), first=True))
                if (f.uuid.bytes if f is not None else None) != (old if x == old else None):
                    self.fail('live', 'search', 'the lookup of UUID %s found %s' % (x.hex(), f and f.uuid))
                self.asked.append((kind, 'uuid', x, True))
        self.edit('setting the uuid', lambda: setattr(o, 'uuid', UUID(bytes=u)))
        m['uuid'] = u
        self.uuids.add(u)
        self.after('setting the uuid')

    # ------------------------------------------------------------ edits: fields
    def op_set_field(self, s):
        e = self.pick_entry(s['e'])
        if e is None:
            return
        o = self.entry_obj(e, s.get('fresh'))
        if s.get('vlen'):       # very long values are given by their length
            s = dict(s, v=('%d ' % s['seed'] * (s['vlen'] // 4 + 1))[:s['vlen']] + '.')
        self.edit('setting ' + s['f'], lambda: setattr(o, s['f'], s['v']))
        k = M.STD[s['f']]
        old = e['strings'].get(k)
        if s['f'] in ('password', 'otp') and not (old and old[0]):
            prot = True
        else:
            prot = old[1] if old else False
        e['strings'].pop(k, None)
        e['strings'][k] = (M.norm(s['v']), prot)
        self.after('setting ' + s['f'])

    def op_set_custom(self, s):
        e = self.pick_entry(s['e'])
        if e is None:
            return
        o = self.entry_obj(e)
        self.edit('set_custom_property', lambda: o.set_custom_property(s['k'], s['v'], protect=s['p']))
        e['strings'].pop(s['k'], None)
        e['strings'][s['k']] = (M.norm(s['v']), s['p'])
        self.after('set_custom_property')

    def op_set_customs(self, s):
        for k, v, p in s['items']:
            self.op_set_custom({'op': 'set_custom', 'e': s['e'], 'k': k, 'v': v, 'p': p})

    def op_del_custom(self, s):
        e = self.pick_entry(s['e'])
        if e is None:
            return
        o = self.entry_obj(e)
        ks = [k for k in e['strings'] if k not in M.RESERVED]
        if not ks:
            try:
                o.delete_custom_property('no such key')
            except Exception:
                self.check_live('fail', 'after deleting a missing property')
                return 'missing'
            raise Inconclusive()
        k = ks[s['n'] % len(ks)]
        self.edit('delete_custom_property', lambda: o.delete_custom_property(k))
        del e['strings'][k]
        self.after('delete_custom_property')

    def op_set_group(self, s):
        g, _, path = self.pick_group(s['g'])
        o = self.group_obj(path)
        self.edit('setting group ' + s['f'], lambda: setattr(o, s['f'], s['v']))
        g[s['f']] = M.norm(s['v'])
        self.after('setting group ' + s['f'])

    def op_set_misc(self, s):
        e = self.pick_entry(s['e'])
        if e is None:
            return
        o = self.entry_obj(e)
        f, v = s['f'], s['v']
        if f == 'autotype_window' and (e['autotype'] is None or not any(k[0] == 'Association' for k in e['autotype'][3])):
            return
        self.edit('setting ' + f, lambda: setattr(o, f, v))
        if f == 'tags':
            e['tags'] = ref.split_tags(';'.join(v) if isinstance(v, list) else v)
        elif f == 'icon':
            e['icon'] = M.norm(v)
        else:
            tag = {'autotype_enabled': 'Enabled', 'autotype_sequence': 'DefaultSequence', 'autotype_window': 'Window'}[f]
            e['autotype'] = M.autotype_set(e['autotype'], tag, str(v) if isinstance(v, bool) else v)
        self.after('setting ' + f)

    def op_set_meta(self, s):
        self.edit('setting ' + s['f'], lambda: setattr(self.kp, s['f'], s['v']))
        M.meta_set(self.doc, M.META_API[s['f']], M.norm(str(s['v'])))
        self.after('setting ' + s['f'])

    def op_find(self, s):
        """a search by title, user name or tag-free field, over everything or below one group"""
        e = self.pick_entry(s['e'])
        k = s['f']
        if e is None or k == 'title' and s.get('first'):
            return
        v = e['strings'].get(M.STD[k], (None,))[0]
        if not v:
            return
        want = [x['uuid'] for x, *_ in M.all_entries(self.doc) if x['strings'].get(M.STD[k], (None,))[0] == v]
        got = self.edit('find_entries', lambda: self.kp.find_entries(**{k: v}))
        if sorted(x.uuid.bytes for x in got) != sorted(want):
            self.fail('live', 'find', 'search for %s %r found %d entries, expected %d' % (k, v[:40], len(got), len(want)))

    def op_query(self, s):
        """searches over the current state"""
        query.run(self, s['seed'], s['n'])

    def op_deref(self, s):
        query.run_deref(self, s['seed'], s['n'])

    def op_set_ref(self, s):
        """a field that refers to other fields"""
        e = self.pick_entry(s['e'])
        if e is not None:
            flat = query.Flat(self)
            v = query.text(random.Random(s['seed']), flat)
            return self.op_set_field(dict(s, v=v))

    def op_ref_chain(self, s):
        """a field that refers to a field that refers to a field..."""
        rng = random.Random(s['seed'])
        es = [e for e, *_ in M.all_entries(self.doc)]
        fs = {'T': 'title', 'U': 'username', 'P': 'password', 'A': 'url', 'N': 'notes'}
        slots = [(i, k) for i in range(min(len(es), 12)) for k in fs]
        rng.shuffle(slots)
        slots = slots[:s['n']]
        if len(slots) < 2:
            return
        for j, (i, k) in enumerate(slots):
            v = 'the end ü'
            if j + 1 < len(slots):
                i2, k2 = slots[j + 1]
                v = '{REF:%s@I:%s}' % (k2, es[i2]['uuid'].hex().upper())
                if s['pad']:
                    v = '<' + v
            self.op_set_field({'op': 'set_field', 'e': i, 'f': fs[k], 'v': v})
        i, k = slots[0]
        e = es[i]
        want = query.resolve(query.Flat(self), e['strings'][M.STD[fs[k]]][0])
        what = 'deref(%r) through %d references' % (fs[k], len(slots) - 1)
        got = self.edit(what, lambda: self.entry_obj(e).deref(fs[k]))
        if got != want:
            self.fail('live', 'deref', '%s is %s, expected %s' % (what, M.short(got), M.short(want)))
        self.stats['ref-chain'] += 1

    def check_place(self, o, up, title):
        """a found entry says where it is"""
        if o.group.uuid.bytes != up[-1]['uuid'] or o.parentgroup.uuid.bytes != up[-1]['uuid']:
            self.fail('live', 'search', 'the found entry %s says it is in group %s, but it is in %s' % (o.uuid.hex, o.group.uuid.hex, up[-1]['uuid'].hex()))
        names = [g['name'] for g in up[1:]]
        if all(names) and title and o.path != names + [title]:
            self.fail('live', 'search', 'the path of the found entry %s is %r, expected %r' % (o.uuid.hex, o.path, names + [title]))

    # ------------------------------------------------------------ edits: times
    def timed(self, s):
        if s.get('group'):
            g, _, path = self.pick_group(s['e'])
            return g, self.group_obj(path)
        e = self.pick_entry(s['e'])
        return (None, None) if e is None else (e, self.entry_obj(e))

    def op_set_time(self, s):
        m, o = self.timed(s)
        if m is None:
            return
        t = s['t'] if not s.get('rel') else self.w.now_ns() // 10**9 + s['t']
        dt = aware(t, s['off'])
        self.edit('setting ' + s['f'], lambda: setattr(o, s['f'], dt))
        tag = {v: k for k, v in M.API_TIMES.items()}[s['f']]
        if tag in m['times']:
            m['times'][tag] = M.secs(dt)
            if tag == 'ExpiryTime':
                m['_fr'] = 0.0 if self.major == 4 else dt.microsecond / 1e6
        got = getattr(o, s['f'])
        if got is None or got.tzinfo is None or M.secs(got) != M.secs(dt):
            self.fail('live', 'time', '%s set to %s reads back as %s' % (s['f'], dt, got))
        self.after('setting ' + s['f'])

    def op_set_expires(self, s):
        m, o = self.timed(s)
        if m is None:
            return
        self.edit('setting expires', lambda: setattr(o, 'expires', s['v']))
        m['times']['Expires'] = bool(s['v'])
        self.after('setting expires')

    def op_touch(self, s):
        m, o = self.timed(s)
        if m is None:
            return
        self.edit('touch', lambda: o.touch(modify=s['m']))
        m['times']['LastAccessTime'] = self.clock_time(o.atime, 'access time after touch')
        if s['m']:
            m['times']['LastModificationTime'] = self.clock_time(o.mtime, 'modification time after touch')
        self.after('touch')

    def op_set_credchange(self, s):
        if M.meta_get(self.doc, 'MasterKeyChanged') is None:
            return
        t = s['t'] if not s.get('rel') else self.w.now_ns() // 10**9 + s['t']
        dt = aware(t, s['off'])
        self.edit('setting credchange_date', lambda: setattr(self.kp, 'credchange_date', dt))
        M.meta_set(self.doc, 'MasterKeyChanged', M.secs(dt))
        self.after('setting credchange_date')

    def op_clock(self, s):
        if 'jump' in s:
            self.w.jump(s['jump'])
        if 'tick' in s:
            self.w.set_tick(s['tick'])
        if 'freeze_at' in s:
            self.w.set_tick(0)
            self.w.set_now(s['freeze_at'])
        self.check_live('live', 'after a clock change')

    def op_clock_expiry(self, s):
        """move the clock to just around an expiry time"""
        m, o = self.timed(s)
        if m is None:
            return
        self.w.set_now((m['times']['ExpiryTime'] + s['d']) * 10**9)
        self.check_live('live', 'with the clock near an expiry time')

    def op_tz(self, s):
        self.w.set_tz(s['tz'])
        self.check_live('live', 'after a time zone change')

    # ------------------------------------------------------------ edits: history
    def op_save_history(self, s):
        e = self.pick_entry(s['e'])
        if e is None:
            return
        o = self.entry_obj(e, s.get('fresh'))
        self.edit('save_history', lambda: o.save_history())
        e['history'].append(M.copy_entry(e))
        self.after('save_history')

    def op_del_history(self, s):
        e = self.pick_entry(s['e'])
        if e is None or not e['history']:
            return
        o = self.entry_obj(e)
        if s.get('all'):
            self.edit('delete_history(all)', lambda: o.delete_history(all=True))
            e['history'] = []
        else:
            i = s['n'] % len(e['history'])
            f = {None: lambda: o.delete_history(o.history[i]), 'item': lambda: o.history[i].delete(), 'kp': lambda: self.kp.delete_entry(o.history[i])}[s.get('how')]
            self.edit('delete_history', f)
            del e['history'][i]
        self.after('delete_history')

    # ------------------------------------------------------------ edits: attachments
    def op_add_binary(self, s):
        d = gen.blob(s['b'])
        kw = {'compressed': s['c']} if self.major == 3 else {'protected': s['c']}
        i = self.edit('add_binary', lambda: self.kp.add_binary(d, **kw))
        self.doc['binaries'].append((d, int(bool(s['c']))))
        if i != len(self.doc['binaries']) - 1:
            self.fail('live', 'binaries', 'add_binary returned id %r, expected %d' % (i, len(self.doc['binaries']) - 1))
        self.after('add_binary')

    def op_attach(self, s):
        e = self.pick_entry(s['e'])
        if e is None or not self.doc['binaries'] and 'dangle' not in s:
            return
        if 'dangle' in s:
            # the existence of the binary is not checked
            i = len(self.doc['binaries']) + s['dangle']
        else:
            i = s['n'] % len(self.doc['binaries'])
        o = self.entry_obj(e, s.get('fresh'))
        a = self.edit('add_attachment', lambda: o.add_attachment(i, s['name']))
        e['attachments'].append([s['name'], i])
        if M.norm(a.filename) != M.norm(s['name']) or M.live_attached(a) != M.attached(self.doc, i) or a.entry.uuid.bytes != e['uuid']:
            self.fail('live', 'attach', 'add_attachment returned an attachment with other name, data or entry')
        self.after('add_attachment')

    def op_edit_attachment(self, s):
        e = self.pick_entry(s['e'])
        if e is None or not e['attachments']:
            return
        j = s['n'] % len(e['attachments'])
        o = self.entry_obj(e).attachments[j]
        if s['kind'] == 'delete':
            eo = self.entry_obj(e)
            self.edit('delete_attachment', (lambda: eo.delete_attachment(o)) if s.get('via') else o.delete)
            del e['attachments'][j]
        elif s['kind'] == 'rename':
            self.edit('renaming an attachment', lambda: setattr(o, 'filename', s['name']))
            e['attachments'][j][0] = s['name']
        else:
            i = s['m'] % max(1, len(self.doc['binaries']))
            self.edit('changing an attachment id', lambda: setattr(o, 'id', i))
            e['attachments'][j][1] = i
        self.after('editing an attachment')

    def op_delete_binary(self, s):
        n = len(self.doc['binaries'])
        i = s['n'] if s.get('bad') else s['n'] % n if n else 0
        if s.get('bad'):
            # a missing binary that something refers to
            refs = sorted({r for e in M.every_entry(self.doc) for _, r in e['attachments'] if r >= n})
            i = refs[s['n'] % len(refs)] if refs else i
        if not 0 <= i < n:
            try:
                self.kp.delete_binary(i)
            except Exception as e:
                if type(e).__name__ != 'BinaryError':
                    self.fail('live', 'attach', 'delete_binary(%d) raised %s' % (i, exc_text(e)))
                self.check_live('fail', 'after deleting a missing binary')
                self.check_live('live', 'after deleting a missing binary')
                return 'missing'
            self.fail('live', 'attach', 'delete_binary(%d) was accepted with %d binaries' % (i, n))
            raise Inconclusive()
        self.edit('delete_binary', lambda: self.kp.delete_binary(i))
        del self.doc['binaries'][i]
        for e in M.every_entry(self.doc):
            e['attachments'] = [[a, r - (r > i)] for a, r in e['attachments'] if r != i]
        self.after('delete_binary')

    # ------------------------------------------------------------ credentials
    def op_set_cred(self, s):
        if M.meta_get(self.doc, 'MasterKeyChanged') is None:
            # no place for the date of the change: it may be refused, but then completely
            try:
                if 'pw' in s:
                    self.kp.password = s['pw']
                else:
                    self.kp.keyfile = self.kf_arg(s['kf'], s.get('how', 'path'))
            except Exception:
                self.check_live('fail', 'after a refused change of credentials')
                self.check_session('after a refused change of credentials')
                return 'refused'
            raise Inconclusive()
        if 'pw' in s:
            self.edit('setting password', lambda: setattr(self.kp, 'password', s['pw']))
            self.sess['pw'] = s['pw']
        else:
            arg = self.kf_arg(s['kf'], s.get('how', 'path'))
            self.edit('setting keyfile', lambda: setattr(self.kp, 'keyfile', arg))
            self.sess['kf'] = s['kf']
        self.sess['tk'] = None
        self.cred = dict(pw=self.sess['pw'], kf=self.sess['kf'], tk=self.tk_of(self.sess['pw'], self.sess['kf'], self.hdr))
        M.meta_set(self.doc, 'MasterKeyChanged', self.clock_time(self.kp.credchange_date, 'credential change date'))
        self.after('changing credentials')

    def op_swap_kf(self, s):
        """the key file of the open database is replaced on disk, under the same path"""
        k = self.kp.keyfile
        if not isinstance(k, (str, Path)) or not self.sess['kf'] or self.sess['tk'] is not None or self.cred.get('bad'):
            return
        name = os.path.basename(str(k))
        if name not in self.files:
            return
        old = self.sess['kf']
        data = self.kf_bytes(s['kf'])
        self.w.put(name, data)
        self.files[name] = data
        self.sess['kf'] = s['kf']
        self.cred = dict(pw=self.sess['pw'], kf=s['kf'], tk=self.tk_of(self.sess['pw'], s['kf'], self.hdr))
        d = self.disk.get(self.fname)
        if d is not None and not d.cred.get('opaque') and d.cred['pw'] == self.sess['pw']:
            right = d.cred['tk'] == self.cred['tk']
            try:
                self.lib.PyKeePass(self.target(self.fname), password=self.sess['pw'], keyfile=k)
            except Exception as e:
                if right or type(e).__name__ != 'CredentialsError':
                    self.fail('reopen', 'cred', 'opening with a replaced key file raised %s' % exc_text(e))
            else:
                if not right:
                    self.fail('reopen', 'cred', '%s opened with a key file whose contents were replaced (%s by %s)' % (self.fname, old, s['kf']))
        self.check_session('after replacing the key file')

    def op_wrong(self, s):
        """wrong credentials are refused, right ones are not"""
        name = self.pick_file(s.get('n', 0))
        d = self.disk[name]
        rng = random.Random(s['seed'])
        for pw, kf, why in near_misses(d.cred['pw'], self.kf_bytes(d.cred['kf']), rng)[:s.get('k', 4) if self.plan['init'] != 'create' else 1]:
            try:
                tk = ref.transform(ref.composite(pw, kf), d.hdr['kdf'])
            except ref.FormatError:
                tk = None   # a damaged key file is no key file
            except UnicodeEncodeError:
                tk = None   # no bytes, no key
            except ValueError:
                continue
            if tk == d.cred['tk']:
                continue
            self.stats['wrong-credentials'] += 1
            try:
                self.lib.PyKeePass(self.target(name), password=pw, keyfile=io.BytesIO(kf) if kf is not None else None)
            except Exception as e:
                if type(e).__name__ != 'CredentialsError' and tk is not None:
                    self.fail('reopen', 'cred', '%s: wrong credentials (%s) raised %s' % (name, why, exc_text(e)))
                continue
            self.fail('reopen', 'cred', '%s opened with wrong credentials: %s' % (name, why))
        bad = bytes([d.cred['tk'][0] ^ 1]) + d.cred['tk'][1:]
        for tk in (bad, d.cred['tk'][:-1] + bytes([d.cred['tk'][-1] ^ 128]), rng.choice((d.cred['tk'] + b'\0', d.cred['tk'][:-1], b'', b'\0' * 32))):
            try:
                self.lib.PyKeePass(self.target(name), transformed_key=tk)
            except Exception as e:
                if type(e).__name__ != 'CredentialsError':
                    self.fail('reopen', 'cred', '%s: a wrong transformed key raised %s' % (name, exc_text(e)))
            else:
                self.fail('reopen', 'cred', '%s opened with a wrong transformed key' % name)
        if rng.random() < 0.3:
            # without decryption nothing but the headers can be seen
            kp = self.lib.PyKeePass(self.target(name), password='x', decrypt=False)
            for a in ('entries', 'groups', 'tree', 'root_group', 'binaries', 'attachments'):
                try:
                    v = getattr(kp, a)
                except Exception:
                    continue
                self.fail('reopen', 'cred', '%s: %s is readable without credentials: %r' % (name, a, v))
        self.open_right(name, s.get('via'))

    def open_right(self, name, via):
        d = self.disk[name]
        try:
            if via == 'tk' or d.cred.get('opaque'):
                kp = self.lib.PyKeePass(self.target(name), transformed_key=d.cred['tk'])
            else:
                kp = self.lib.PyKeePass(self.target(name), password=d.cred['pw'], keyfile=self.kf_arg(d.cred['kf'], via or 'path'))
        except Exception as e:
            self.fail('reopen', 'cred', '%s does not open with the credentials of its last save: %s' % (name, exc_text(e)))
            raise Inconclusive()
        if kp.transformed_key != d.cred['tk']:
            self.fail('reopen', 'cred', '%s: transformed_key differs from the published key derivation' % name)
        return kp

    def pick_file(self, n):
        names = sorted(x for x in self.disk if not x.startswith('<'))
        return names[n % len(names)]

    # ------------------------------------------------------------ saving
    def do_save(self, s):
        """-> (name, exception or None, fired faults, recorder, stream or None)"""
        to = s.get('to')
        name = to or self.fname
        tk = self.cred['tk']
        arg = None if to is None else self.target(to)
        if arg is not None and s.get('pathlib'):
            arg = Path(arg)
        kw = {}
        if s.get('tk'):
            tk = random.Random(s['tk']).randbytes(32)
            kw['transformed_key'] = tk
        rec = Recorder(self.w.image())
        self.w.recorder = rec
        self.w.arm(s.get('faults', []))
        lf = s.get('line')
        exc = None
        try:
            if lf:
                n = getattr(self, 'save_lines', 300)
                with LineFault(1 + int(lf['f'] * n), {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
                                                       'RecursionError': RecursionError}[lf['exc']], lf.get('file')) as t:
                    self.kp.save(arg, **kw)
            elif s.get('count'):
                with LineFault() as t:
                    self.kp.save(arg, **kw)
                self.save_lines = t.lines
            else:
                self.kp.save(arg, **kw)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
            if isinstance(e, (Violation, HarnessError)):
                raise
        finally:
            self.w.recorder = None
            fired = self.w.disarm()
        if lf and t.fired:
            self.w.faults['line-' + lf['exc']] += 1
            fired.append('line')
        return name, exc, fired, rec, tk

    def op_save(self, s):
        before = self.w.image()
        name, exc, fired, rec, tk = self.do_save(s)
        after = self.w.image()
        replaced = any(e[0] in ('rename',) and e[2] == name for e in rec.events)
        self.note(name, type(exc).__name__, tuple(fired), hashlib.sha256(after.get(name) or b'').hexdigest())
        strays = [n for n in after if n not in before and n != name]
        for n in before:
            if n != name and after.get(n, 0) != before[n]:
                self.fail('file', 'dir', 'saving to %s changed the file %s' % (name, n))
        if exc is not None:
            if not fired and not self.bad_creds():
                self.fail('file', 'error', 'save failed without any fault: %s' % exc_text(exc))
                raise Inconclusive()
            self.stats['failed-save'] += 1
            if self.opts.get('keys'):
                self.learn_partial(rec, tk)
            if strays and not any(f.startswith('unlink') or f == 'line' for f in fired):
                self.fail('file', 'dir', 'a save to %s that failed with %s after %s left %s behind' % (
                    name, exc_text(exc), '+'.join(fired), strays))
            if after.get(name, -1) != before.get(name, -1):
                if replaced and after.get(name) is not None:
                    # the failure came after the new file was in place
                    self.saved(name, after[name], tk, bool(s.get('tk')))
                else:
                    self.fail('file', 'target', 'a save to %s failed with %s after %s, and the file changed from %s to %s' % (
                        name, exc_text(exc), '+'.join(fired) or 'bad credentials', size(before.get(name)), size(after.get(name))))
            self.sync_files(after)
            self.check_live('fail', 'after a failed save')
            self.check_session('after a failed save')
            return 'failed'
        if self.bad_creds() and not s.get('tk'):
            if self.bad_creds() == 'keyfile':
                self.fail('file', 'cred', 'saving to %s succeeded although the key file cannot be read' % name)
            if self.bad_creds() != 'closed':
                raise Inconclusive()
        if strays and not any(f.startswith('unlink') for f in fired):
            self.fail('file', 'dir', 'a successful save to %s left %s behind' % (name, strays))
        if after.get(name) is None:
            self.fail('file', 'target', 'save to %s succeeded but there is no such file' % name)
            raise Inconclusive()
        self.saved(name, after[name], tk, bool(s.get('tk')))
        if any(f.startswith('sync') for f in fired):
            # success was reported although the disk refused: what would be there after a power cut?
            rng = random.Random(len(rec.events))
            for _ in range(6):
                got = rec.power_cut(len(rec.events), rng).get(name)
                if got != before.get(name) and got != after[name]:
                    self.fail('file', 'target', 'a save to %s succeeded after %s, but what is on disk is %s' % (name, '+'.join(fired), size(got)))
                    break
        self.sync_files(after)
        if self.opts.get('live_after_save', True):
            self.check_live('live', 'after a save')
        self.check_session('after a save')
        if s.get('verify'):
            self.verify_reopen(name, s['verify'])
        return 'ok'

    def op_save_stream(self, s):
        """save to a stream; path and session stay"""
        if self.bad_creds():
            return
        buf = io.BytesIO()
        buf.write(b'before')
        self.edit('saving to a stream', lambda: self.kp.save(buf))
        data = buf.getvalue()
        if data[:6] != b'before':
            self.fail('file', 'format', 'saving to a stream changed what was there before its position')
        self.saved('<stream>', data[6:], self.cred['tk'], False)
        del self.disk['<stream>']
        self.check_live('live', 'after saving to a stream')
        self.check_session('after saving to a stream')

    def op_xml(self, s):
        """the XML handed out is that of the current contents"""
        x = self.edit('xml()', lambda: self.kp.xml())
        try:
            doc = ref.doc_of(ref.parse_xml(x), self.major, [bytes([f]) + d for d, f in self.doc['binaries']])
        except ref.FormatError as e:
            self.fail('live', 'format', 'xml() is malformed: %s' % e)
            raise Inconclusive()
        self.compare('live', M.flatten(self.doc), M.flatten(doc), 'in xml()')
        self.after('xml()')

    def op_many_binaries(self, s):
        n = s['upto'] - len(self.doc['binaries'])
        for i in range(n):
            d = b'%d' % (s['seed'] + i)
            self.edit('add_binary', lambda: self.kp.add_binary(d))
            self.doc['binaries'].append((d, 1))
        self.after('adding %d binaries' % n)

    def op_many(self, s):
        """more of something than usual"""
        k, n = s['kind'], s['n']
        words = ('same', 'a', 'Ünï', 'x y', '7')
        self.after = lambda what: None
        try:
            for i in range(n):
                w = words[(s['seed'] + i) % 5]
                if k == 'entries':
                    self.op_add_entry({'op': 'add_entry', 'g': s['g'], 'title': w, 'username': 'u%d' % i, 'password': 'p%d' % i, 'force': True,
                                       'url': 'http://%d' % i, 'tags': ['t%d' % (i % 3)]})
                elif k == 'groups':
                    self.op_add_group({'op': 'add_group', 'g': s['g'], 'name': '%s %d' % (w, i // 2)})
                elif k == 'custom':
                    self.op_set_custom({'op': 'set_custom', 'e': s['g'], 'k': 'key %d' % i, 'v': w, 'p': i % 3 == 0})
                elif k == 'history':
                    self.op_set_field({'op': 'set_field', 'e': s['g'], 'f': ('notes', 'password', 'title')[i % 3], 'v': '%s %d' % (w, i)})
                    self.op_save_history({'op': 'save_history', 'e': s['g']})
        finally:
            del self.after
        self.after('adding %d %s' % (n, k))

    def sync_files(self, image):
        self.files = dict(image)

    def bad_creds(self):
        return self.cred.get('bad')

    def saved(self, name, data, tk, opaque):
        """data was stored for the current contents: decode it independently and compare"""
        cred = dict(self.cred, tk=tk)
        if opaque:
            cred['opaque'] = True
        try:
            if opaque or self.sess['tk'] is not None or cred.get('opaque'):
                r = self.decode(data, None, None, tk)
            else:
                r = self.decode(data, cred['pw'], self.kf_bytes(cred['kf']))
        except ref.BadCredentials as e:
            self.fail('file', 'cred', 'the saved file %s does not open with the current credentials: %s' % (name, e))
            raise Inconclusive()
        except ref.FormatError as e:
            self.fail('file', 'format', 'the saved file %s is malformed: %s' % (name, e))
            raise Inconclusive()
        self.stats['decoded-save'] += 1
        self.compare('file', M.flatten(self.doc), M.flatten(r.doc), 'in the saved file')
        hd = self.header_facts(r)
        for k in hd:
            if hd[k] != self.hdr[k]:
                self.fail('file', 'header', 'header %s changed from %r to %r' % (k, self.hdr[k], hd[k]))
        if r.major == 3 and self.plan['cfg'].get('hh') and self.plan['init'] != 'create' and not r.header_hash:
            self.fail('file', 'header', 'the header checksum is gone')
        if any(b != 2**20 for b in r.block_sizes[:-1]):
            pass       # any block size is legal
        self.stats['blocks-%s' % ('0' if not r.block_sizes else '1' if len(r.block_sizes) == 1 else '2+')] += 1
        if self.opts.get('keys'):
            self.learn_keys(r, data)
        if self.opts.get('watch'):
            self.check_protection(r)
        self.disk[name] = Saved(copy.deepcopy(self.doc), cred, data, self.hdr)

    def check_session(self, context):
        fn = self.kp.filename
        if str(fn) != str(self.target(self.fname)):
            self.fail('fail', 'session', '%s: filename is %r, expected %r' % (context, str(fn), self.fname))
        if self.kp.password != self.sess['pw'] and not self.cred.get('bad'):
            self.fail('fail', 'session', '%s: password is %r, expected %r' % (context, self.kp.password, self.sess['pw']))
        if (self.kp.keyfile is None) != (self.sess['kf'] is None):
            self.fail('fail', 'session', '%s: keyfile is %r' % (context, self.kp.keyfile))

    def verify_reopen(self, name, via):
        kp = self.open_right(name, via if via in ('tk', 'stream', 'pipe', 'Path') else None)
        d = self.disk[name]
        self.compare('reopen', M.flatten(d.doc, True), M.live_view(kp), 'after reopening %s' % name)
        self.stats['reopen'] += 1

    def op_reopen(self, s):
        """restart: a new process opens the file"""
        name = self.pick_file(s['n']) if 'n' in s else self.fname if self.fname in self.disk else self.pick_file(0)
        d = self.disk[name]
        self.w.new_process()
        self.forget()
        via = s.get('via')
        if d.cred.get('opaque'):
            via = 'tk'
        self.kp = self.open_right(name, via)
        self.sess = dict(pw=None, kf=None, tk=d.cred['tk']) if via == 'tk' else dict(pw=d.cred['pw'], kf=d.cred['kf'], tk=None)
        self.cred = dict(d.cred)
        self.doc = copy.deepcopy(d.doc)
        self.fname = name
        self.reset_fractions()
        self.check_live('reopen', 'after reopening %s' % name)
        self.stats['reopen'] += 1
        return 'ok'

    def reset_fractions(self):
        pass     # fractions of a second survive in KDBX3 and were never there in KDBX4

    def op_reload(self, s):
        d = self.disk.get(self.fname)
        if d is None:
            return
        if self.cred.get('bad'):
            return
        match = self.cred['tk'] == d.cred['tk']
        self.w.arm(s.get('faults', []))
        exc = None
        lf = s.get('line')
        try:
            if lf:
                with LineFault(1 + int(lf['f'] * getattr(self, 'save_lines', 300)), KeyboardInterrupt) as t:
                    self.kp.reload()
            else:
                self.kp.reload()
        except (Exception, KeyboardInterrupt) as e:
            if isinstance(e, HarnessError):
                raise
            exc = e
        fired = self.w.disarm()
        if lf and t.fired:
            self.w.faults['line-KeyboardInterrupt'] += 1
            fired.append('line')
        self.note('reload', type(exc).__name__, tuple(fired))
        if exc is not None:
            if not fired and match:
                self.fail('reopen', 'error', 'reload failed without any fault: %s' % exc_text(exc))
                raise Inconclusive()
            if not fired and type(exc).__name__ != 'CredentialsError':
                self.fail('reopen', 'cred', 'reload with credentials that do not match the file raised %s' % exc_text(exc))
            self.stats['failed-reload'] += 1
            if fired and lf:
                # an interrupt may come when the new state is already in place
                v = M.live_view(self.kp)
                if v == M.flatten(d.doc, True):
                    self.forget()               # the handles may belong to the tree that was replaced
                    if v != M.flatten(self.doc, True):
                        self.doc = copy.deepcopy(d.doc)
            self.check_live('fail', 'after a failed reload')
            self.check_session('after a failed reload')
            return 'failed'
        if not match:
            self.fail('reopen', 'cred', 'reload succeeded although the credentials do not match the file')
            raise Inconclusive()
        self.forget()
        self.doc = copy.deepcopy(d.doc)
        self.check_live('reopen', 'after a reload')
        self.check_session('after a reload')
        self.stats['reload'] += 1
        return 'ok'

    def op_failread(self, s):
        """reading something unusable into the open database"""
        k = s['kind']
        pw = self.cred['pw'] if not self.cred.get('bad') else 'x'
        kf = self.kf_bytes(self.cred['kf'])
        args = dict(password=pw, keyfile=io.BytesIO(kf) if kf is not None else None)
        name = self.pick_file(s['n'])
        d = self.disk[name]
        args = dict(password=d.cred['pw'], keyfile=self.kf_arg(d.cred['kf'], 'stream'))
        faults = []
        fn = self.target(name)
        r = random.Random(s['n'])
        if k == 'missing':
            fn = self.target('no such file')
        elif k == 'garbage':
            fn = io.BytesIO(r.randbytes(200))
        elif k == 'truncated':
            fn = io.BytesIO(d.data[:r.randrange(len(d.data))])
        elif k == 'flipped':
            i = r.randrange(len(d.data) // 2, len(d.data) - 20)
            fn = io.BytesIO(d.data[:i] + bytes([d.data[i] ^ 1]) + d.data[i + 1:])
        elif k == 'wrongpw':
            args['password'] = (d.cred['pw'] or '') + 'x'
        elif k == 'keyfile':
            args['keyfile'] = self.target('no such key')
        elif k == 'io':
            faults = s['faults']
        self.w.arm(faults)
        exc = None
        try:
            self.kp.read(fn, **args)
        except Exception as e:
            exc = e
        fired = self.w.disarm()
        self.note('failread', k, type(exc).__name__, tuple(fired))
        if exc is None:
            if k in ('io', 'flipped', 'truncated') and not d.cred.get('opaque'):
                # nothing fired, or only padding was hit: this is a successful read of another database
                if isinstance(fn, io.BytesIO):
                    raise Inconclusive()
                self.adopt_read(name, d)
                return 'read'
            if d.cred.get('opaque'):
                raise Inconclusive()
            self.fail('fail', 'error', 'reading %s was accepted' % k)
            raise Inconclusive()
        self.stats['failed-read'] += 1
        self.check_live('fail', 'after a failed read (%s)' % k)
        self.check_session('after a failed read (%s)' % k)
        return 'failed'

    def adopt_read(self, name, d):
        self.forget()
        self.doc = copy.deepcopy(d.doc)
        self.cred = dict(d.cred)
        self.sess = dict(pw=d.cred['pw'], kf=d.cred['kf'], tk=None)
        self.fname = name
        self.check_live('reopen', 'after reading %s into the open database' % name)

    def op_read(self, s):
        """read another database into the object"""
        name = self.pick_file(s['n'])
        d = self.disk[name]
        if d.cred.get('opaque'):
            return
        kf = self.kf_arg(d.cred['kf'], s.get('how', 'path'))
        if s.get('own') and self.fname in self.disk and not self.disk[self.fname].cred.get('opaque'):
            # without a file name the database is read again
            name = self.fname
            d = self.disk[name]
            kf = self.kf_arg(d.cred['kf'], s.get('how', 'path'))
            self.edit('read', lambda: self.kp.read(password=d.cred['pw'], keyfile=kf))
            self.adopt_read(name, d)
            return
        self.edit('read', lambda: self.kp.read(self.target(name), password=d.cred['pw'], keyfile=kf))
        self.adopt_read(name, d)

    def op_badcred(self, s):
        """credentials that cannot be encoded or read: every save fails, the file stays; then they are replaced"""
        k = s['kind']
        if M.meta_get(self.doc, 'MasterKeyChanged') is None:
            return
        if k == 'closed':
            # either the save fails or the contents were kept
            f = io.BytesIO(self.kf_bytes(s['kf']))
            self.kp.keyfile = f
            f.close()
            pw = self.sess['pw']
            self.cred = dict(pw=pw, kf=s['kf'], tk=self.tk_of(pw, s['kf'], self.hdr), bad='closed')
            self.sess.update(kf=s['kf'], tk=None)
            M.meta_set(self.doc, 'MasterKeyChanged', M.secs(self.kp.credchange_date))
            if self.op_save({'op': 'save', 'to': s.get('to')}) == 'ok':
                self.stats['closed-key-file-kept'] += 1
            self.kp.keyfile = self.kf_arg(s['kf'], 'stream')
            self.cred = dict(self.cred, bad=None)
            M.meta_set(self.doc, 'MasterKeyChanged', M.secs(self.kp.credchange_date))
            self.check_live('fail', 'after replacing a closed key file')
            return
        if k == 'surrogate':
            self.kp.password = 'x\ud800'
        elif k == 'type':
            self.kp.password = 12345
        else:
            self.kp.keyfile = self.target('missing.key')
            self.sess['kf'] = 'bad'
        self.cred = dict(self.cred, bad=k)
        M.meta_set(self.doc, 'MasterKeyChanged', M.secs(self.kp.credchange_date))
        self.op_save({'op': 'save', 'to': s.get('to')})
        if k == 'keyfile':
            self.kp.keyfile = None
            self.sess['kf'] = None
        self.kp.password = s['pw']
        self.sess.update(pw=s['pw'], tk=None)
        self.cred = dict(pw=s['pw'], kf=self.sess['kf'], tk=self.tk_of(s['pw'], self.sess['kf'], self.hdr))
        M.meta_set(self.doc, 'MasterKeyChanged', M.secs(self.kp.credchange_date))
        self.check_live('fail', 'after replacing unusable credentials')

    # ------------------------------------------------------------ rejected edits
    def op_reject(self, s):
        """an edit the library refuses must not change anything"""
        e = self.pick_entry(s['e'])
        g, gp, path = self.pick_group(s['g'])
        go = self.group_obj(path)
        o = self.entry_obj(e) if e is not None else None
        k, kp = s['kind'], self.kp
        bad = ['a\x00b', '\x01', 'x\ufffe', '\x0b', 'ok\x1f'][s['v'] % 5]
        acts = {
            'database_name': lambda: setattr(kp, 'database_name', bad),
            'database_description': lambda: setattr(kp, 'database_description', bad),
            'default_username': lambda: setattr(kp, 'default_username', bad),
            'credchange_date': lambda: setattr(kp, 'credchange_date', 'yesterday'),
            'keyfile_read': lambda: setattr(kp, 'keyfile', BrokenStream()),
            'keyfile_seekable': lambda: setattr(kp, 'keyfile', BrokenStream(True)),
            'read_keyfile': lambda: kp.read(kp.filename, keyfile=BrokenStream()),
            'move_group_none': lambda: kp.move_group(go, None),
            'trash_group_none': lambda: kp.trash_group(None),
            'delete_group_none': lambda: kp.delete_group(None),
            'group_mtime': lambda: setattr(go, 'mtime', 'now'),
            'group_ctime': lambda: setattr(go, 'ctime', 5),
            'group_name': lambda: setattr(go, 'name', bad),
            'group_notes': lambda: setattr(go, 'notes', bad),
            'group_icon': lambda: setattr(go, 'icon', bad),
            'group_expiry': lambda: setattr(go, 'expiry_time', 'never'),
            'group_uuid': lambda: setattr(go, 'uuid', 'not a uuid'),
            'add_group': lambda: kp.add_group(go, bad),
            'add_group_notes': lambda: kp.add_group(go, 'fine', notes=bad),
            'add_entry': lambda: kp.add_entry(go, 'fine', 'fine', bad),
            'add_entry_notes': lambda: kp.add_entry(go, 'fine2', 'fine2', 'fine', notes=bad),
            'add_entry_tags': lambda: kp.add_entry(go, 'fine3', 'fine3', 'fine', tags=[bad]),
            'add_entry_icon': lambda: kp.add_entry(go, 'fine5', 'fine5', 'fine', icon=bad if s['v'] % 2 else 7),
            'add_entry_url': lambda: kp.add_entry(go, 'fine6', 'fine6', 'fine', url=bad if s['v'] % 2 else 7),
            'add_entry_otp': lambda: kp.add_entry(go, 'fine7', 'fine7', 'fine', otp=bad if s['v'] % 2 else 7),
            'add_entry_title': lambda: kp.add_entry(go, bad if s['v'] % 2 else 7, 'fine8', 'fine'),
            'add_entry_user': lambda: kp.add_entry(go, 'fine9', bad if s['v'] % 2 else 7, 'fine'),
            'add_group_icon': lambda: kp.add_group(go, 'fine', icon=bad if s['v'] % 2 else 7),
            'add_group_none': lambda: kp.add_group(None, 'fine'),
            'add_entry_none': lambda: kp.add_entry('root', 'fineA', 'fineA', 'fine', force_creation=True),
            'append_mixed': lambda: kp.root_group.append([x for x in (o, None, go if gp else None) if x is not None] + [None]),
            'append_none': lambda: go.append(None),
            'empty_none': lambda: kp.empty_group(None),
            'days_required': lambda: setattr(kp, 'credchange_required_days', bad),
            'days_recommended': lambda: setattr(kp, 'credchange_recommended_days', bad),
            'add_entry_expiry': lambda: kp.add_entry(go, 'fine4', 'fine4', 'fine', expiry_time='tomorrow'),
            'add_binary': lambda: kp.add_binary(bad),
            'delete_binary': lambda: kp.delete_binary(len(self.doc['binaries']) + s['v']),
            'delete_binary_neg': lambda: kp.delete_binary(-1 - s['v'] % 3),
            'move_into_itself': lambda: kp.move_group(kp.root_group, go),
            'trash_root': lambda: kp.trash_group(kp.root_group),
        }
        lost = sorted({r for x in M.every_entry(self.doc) for _, r in x['attachments'] if r >= len(self.doc['binaries'])})
        if lost:
            for j in range(8):
                acts['delete_missing_%d' % j] = lambda: kp.delete_binary(lost[s['v'] % len(lost)])
        if self.bin_group() is not None:
            acts['trash_bin'] = lambda: kp.trash_group(kp.recyclebin_group)
        if o is not None:
            for f in ('title', 'username', 'password', 'url', 'notes', 'otp'):
                acts['e_' + f] = lambda f=f: setattr(o, f, bad)
            acts.update({
                'e_reindex': lambda: o.reindex(['1', None, 'x'][s['v'] % 3]),
                'e_move_none': lambda: kp.move_entry(o, None),
                'e_trash_hist': lambda: kp.trash_entry(None),
                'e_autotype_enabled': lambda: setattr(o, 'autotype_enabled', bad),
                'e_expires': lambda: setattr(o, 'expiry_time', None),
                'e_attach_id': lambda: o.add_attachment(bad, 'name'),
                'e_none': lambda: setattr(o, 'password', None),
                'e_int': lambda: setattr(o, 'notes', 7),
                'e_custom': lambda: o.set_custom_property('Custom', bad),
                'e_custom_key': lambda: o.set_custom_property(bad, 'v'),
                'e_reserved': lambda: o.set_custom_property('Title', 'v'),
                'e_delcustom': lambda: o.delete_custom_property('no such key'),
                'e_tags': lambda: setattr(o, 'tags', ['fine', bad]),
                'e_icon': lambda: setattr(o, 'icon', bad),
                'e_autotype_sequence': lambda: setattr(o, 'autotype_sequence', bad),
                'e_autotype_window': lambda: setattr(o, 'autotype_window', bad),
                'e_expiry': lambda: setattr(o, 'expiry_time', 'never'),
                'e_mtime': lambda: setattr(o, 'mtime', 12),
                'e_atime': lambda: setattr(o, 'atime', 'now'),
                'e_ctime': lambda: setattr(o, 'ctime', datetime(2020, 1, 1) if self.major == 4 else 0),
                'e_tags_none': lambda: setattr(o, 'tags', [None]),
                'e_move_str': lambda: kp.move_entry(o, 'somewhere'),
                'e_delhistory_none': lambda: o.delete_history(None),
                'e_attach_name': lambda: o.add_attachment(0, 7),
                'e_uuid': lambda: setattr(o, 'uuid', 'not a uuid'),
                'e_attach': lambda: o.add_attachment(0, bad),
                'e_history': lambda: setattr(o, 'history', []),
                'e_delhistory': lambda: o.delete_history(o),
            })
            t, u = e['strings'].get('Title', (None,))[0], e['strings'].get('UserName', (None,))[0]
            if t and u:
                acts['add_twice'] = lambda: kp.add_entry(o.group, t, u, 'another')
            others = [x for x, *_ in M.all_entries(self.doc) if x is not e and x['history']]
            if others and e['history']:
                acts['e_delhistory_other'] = lambda: o.delete_history(self.entry_obj(others[0]).history[0])
            if not e['history']:
                acts['e_delhistory_all'] = lambda: o.delete_history(all=True)
            if e['attachments']:
                acts['a_id'] = lambda: setattr(o.attachments[0], 'id', bad)
                acts['a_name'] = lambda: setattr(o.attachments[0], 'filename', bad)
        names = sorted(acts)
        k = k if k in acts else names[s['v'] % len(names)]
        self.stats['reject:' + k] += 1
        before = M.live_view(self.kp) if self.opts.get('live_before') else None
        try:
            acts[k]()
        except Exception as x:
            self.note('rejected', k, type(x).__name__)
        else:
            if before is not None and M.live_view(self.kp) == before:
                return 'accepted without effect'
            self.note('accepted', k)
            raise Inconclusive()
        self.check_live('fail', 'after a refused edit (%s)' % k)
        self.check_session('after a refused edit (%s)' % k)
        return 'rejected'

    # ------------------------------------------------------------ creating a database
    def op_create(self, s):
        """create_database at a path that may hold a database already, with faults, an interrupt or a crash"""
        if self.cred.get('bad'):
            return
        names = sorted(x for x in self.disk if not x.startswith('<'))
        name = s['to'] if s.get('to') else names[s['n'] % len(names)]
        pw, kf = CREATE_CREDS[s['c'] % len(CREATE_CREDS)]
        kfa = self.kf_arg(kf, s.get('how', 'path'))
        before = self.w.image()
        self.sync_files(before)
        rec = Recorder(before)
        if self.opts.get('watch'):
            self.secret_list = sorted(set(self.secret_list) | {pw.encode()} | ({self.kf_bytes(kf)} if kf else set()))
        self.w.recorder = rec
        self.w.arm(s.get('faults', []))
        lf, exc, kp, t = s.get('line'), None, None, None
        try:
            if lf:
                with LineFault(1 + int(lf['f'] * 900), KeyboardInterrupt, lf.get('file')) as t:
                    kp = self.pk.create_database(self.target(name), password=pw, keyfile=kfa)
            else:
                kp = self.pk.create_database(self.target(name), password=pw, keyfile=kfa)
        except (Exception, KeyboardInterrupt) as e:
            if isinstance(e, (Violation, HarnessError)):
                raise
            exc = e
        finally:
            self.w.recorder = None
            fired = self.w.disarm()
        if t is not None and t.fired:
            self.w.faults['line-KeyboardInterrupt'] += 1
            fired.append('line')
        after = self.w.image()
        self.note('create', name, type(exc).__name__, tuple(fired), hashlib.sha256(after.get(name) or b'').hexdigest())
        for n in before:
            if n != name and after.get(n, 0) != before[n]:
                self.fail('file', 'dir', 'creating %s changed the file %s' % (name, n))
        strays = [n for n in after if n not in before and n != name]
        if strays and not any(f.startswith('unlink') or f == 'line' for f in fired):
            self.fail('file', 'dir', 'creating %s left %s behind' % (name, strays))
        new = after.get(name)
        if exc is not None and not fired:
            self.fail('file', 'error', 'create_database failed without any fault: %s' % exc_text(exc))
            raise Inconclusive()
        if exc is not None and new != before.get(name):
            if not (new is not None and any(e[0] == 'rename' and e[2] == name for e in rec.events)):
                self.fail('file', 'target', 'create_database at %s failed with %s after %s, and the file changed from %s to %s' % (
                    name, exc_text(exc), '+'.join(fired), size(before.get(name)), size(new)))
                raise Inconclusive()
        if exc is None and new is None:
            self.fail('file', 'target', 'create_database succeeded but there is no file %s' % name)
            raise Inconclusive()
        if exc is None or new != before.get(name):
            try:
                r = self.decode(new, pw, self.kf_bytes(kf))
            except ref.BadCredentials as e:
                self.fail('file', 'cred', 'the created file %s does not open with its credentials: %s' % (name, e))
                raise Inconclusive()
            except ref.FormatError as e:
                self.fail('file', 'format', 'the created file %s is malformed: %s' % (name, e))
                raise Inconclusive()
            if kp is not None:
                self.compare('reopen', M.flatten(r.doc, True), M.live_view(kp), 'in the database just created')
                if r.doc['root']['entries'] or r.doc['binaries']:
                    self.fail('file', 'tree', 'a database just created is not empty')
                if self.opts.get('keys'):
                    self.learn_keys(r, new)
            self.stats['created'] += 1
            c = s.get('crash')
            if c and exc is None:
                rng = random.Random(c['seed'])
                n = len(rec.events)
                for p in range(c['probes']):
                    kind = rng.choice(['kill', 'power'])
                    k = p % (n + 1) if c['sweep'] else rng.randint(0, n)
                    img = rec.killed(k, rng.random()) if kind == 'kill' else rec.power_cut(k, rng)
                    self.w.faults['crash-' + kind] += 1
                    self.states.add(hash(('create', k, kind, tuple(sorted((a, len(b or b'')) for a, b in img.items() if b is not None)))))
                    got = img.get(name)
                    if got != before.get(name) and got != new:
                        self.fail('file', 'crash', 'after a %s before event %d (%s) of %d while %s was created, it is neither the old nor the new '
                                  'database but %s' % (kind, k, ev(rec, k), n, name, size(got)))
                    if kind == 'kill' and k >= n and got != new:
                        self.fail('file', 'crash', 'the process was killed after create_database returned, but %s is not the new database' % name)
                    for f, d in before.items():
                        if f != name and d is not None and img.get(f) != d:
                            self.fail('file', 'crash', 'after a crash while %s was created, the file %s has changed' % (name, f))
        self.check_live('fail', 'after creating another database')
        self.check_session('after creating another database')
        # the open database goes there next
        self.op_save({'op': 'save', 'to': name})
        return 'created' if exc is None else 'failed'

    # ------------------------------------------------------------ crash
    def op_crash(self, s):
        """the save runs against a recorded disk; then the process or the machine is made to fail at chosen instants"""
        if self.cred.get('bad'):
            return
        image0 = self.w.image()
        old = self.disk.get(s.get('to') or self.fname)
        name, exc, fired, rec, tk = self.do_save(s)
        image1 = self.w.image()
        new = image1.get(name)
        if exc is not None:
            if not fired:
                self.fail('file', 'error', 'save failed without any fault: %s' % exc_text(exc))
                raise Inconclusive()
            if new != image0.get(name) and not (new is not None and any(e[0] == 'rename' and e[2] == name for e in rec.events)):
                self.fail('file', 'target', 'a save to %s failed with %s after %s, and the file changed' % (name, exc_text(exc), '+'.join(fired)))
                raise Inconclusive()
        if new != image0.get(name):
            self.saved(name, new, tk, bool(s.get('tk')))
        rng = random.Random(s['seed'])
        n = len(rec.events)
        img = None
        for p in range(s.get('probes', 12)):
            kind = s['mode'] if s['mode'] != 'both' else rng.choice(['kill', 'power'])
            # instants: all boundaries in turn, then random ones inside writes
            k = s['at'] if 'at' in s and p == 0 else (p % (n + 1) if s.get('sweep') else rng.randint(0, n))
            k = min(k, n)
            if kind == 'kill':
                torn = rng.random()
                img = rec.killed(k, torn)
                what = 'the process was killed before event %d (%s) of %d' % (k, ev(rec, k), n)
            else:
                img = rec.power_cut(k, rng)
                what = 'power was lost before event %d (%s) of %d' % (k, ev(rec, k), n)
            self.w.faults['crash-' + kind] += 1
            self.states.add(hash((k, kind, tuple(sorted((a, len(b or b'')) for a, b in img.items() if b is not None)))))
            got = img.get(name)
            if got != image0.get(name) and got != new:
                self.fail('file', 'crash', 'after %s, %s is neither the old nor the new database but %s' % (what, name, size(got)))
            if kind == 'kill' and k >= n and got != new:
                self.fail('file', 'crash', 'the process was killed after save returned, but %s is the old database' % name)
            for f, d in image0.items():
                if f != name and d is not None and img.get(f) != d:
                    self.fail('file', 'crash', 'after %s, the file %s has changed' % (what, f))
        for d in image0:
            if image0[d] is None:
                img[d] = None
        # carry on from the last one
        self.w.set_image(img)
        self.sync_files(img)
        if img.get(name) == new:
            pass
        elif old is not None and img.get(name) == old.data:
            self.disk[name] = old
        else:
            self.disk.pop(name, None)
        if self.opts.get('relative'):
            os.chdir(self.w.dir)
        self.forget()
        self.w.new_process()
        if not self.disk:
            raise Inconclusive()
        self.op_reopen({'op': 'reopen'} if name not in self.disk else {'op': 'reopen', 'n': sorted(self.disk).index(name)})
        self.op_save({'op': 'save'})
        return (n, len(img))

    # ------------------------------------------------------------ secrecy
    def start_watch(self):
        self.secret_list, self.tails, self.unzip = [], {}, {}
        self.collect_secrets()
        self.w.watch.append(self.watch_write)

    def collect_secrets(self):
        s = set()
        for e in M.every_entry(self.doc):
            for k, (v, p) in e['strings'].items():
                if v and len(v) >= 8:
                    s.add(v.encode())
        for b, _ in self.doc['binaries']:
            if len(b) >= 12 and len(set(b)) > 4:
                s.add(bytes(b[:64]))
                if len(b) > 200_000:
                    s.update(bytes(b[i:i + 32]) for i in (100_000, len(b) - 64) if len(set(b[i:i + 32])) > 4)
        for pw in (self.cred['pw'], self.sess['pw']):
            if isinstance(pw, str) and len(pw) >= 6:
                s.add(pw.encode())
        for n in ('DatabaseName', 'DatabaseDescription'):
            v = M.meta_get(self.doc, n)
            if v and len(v) >= 8:
                s.add(v.encode())
        s.add(self.cred['tk'])
        s.add(base64.b64encode(self.cred['tk']))
        s.add(self.cred['tk'].hex().encode())
        if not self.cred.get('bad'):
            try:
                c = ref.composite(self.cred['pw'], self.kf_bytes(self.cred['kf']))
                s.update((c, c.hex().encode(), base64.b64encode(c)))
            except Exception:
                pass
        self.secret_list = sorted(s)
        self.markers = [b'<KeePassFile', b'<Entry>', b'<String><Key>']
        return self.secret_list

    def watch_write(self, path, data):
        self.stats['watched-writes'] += 1
        z = self.unzip.get(path)
        more = b''
        if z is not None:       # a compressed stream written piece by piece
            try:
                more = self.tails.get((path, 'z'), b'') + z.decompress(data, 2**22)
                self.tails[path, 'z'] = more[-300:]
            except zlib.error:
                self.unzip[path] = None
        elif data[:3] == b'\x1f\x8b\x08' or data[:2] in (b'\x78\x9c', b'\x78\x01', b'\x78\xda'):
            z = self.unzip[path] = zlib.decompressobj(47)
            try:
                z.decompress(data, 2**22)
            except zlib.error:
                self.unzip[path] = None
        data = self.tails.get(path, b'') + data
        self.tails[path] = data[-300:]
        for d in (data, unpacked(data), more):
            for m in self.markers + self.secret_list:
                if m in d:
                    self.leak = (path, m)

    def check_leak(self):
        if getattr(self, 'leak', None):
            self.fail('file', 'plaintext', 'contents written in the clear to %s: %r' % (self.leak[0], self.leak[1][:40]))

    def op_watched_save(self, s):
        self.collect_secrets()
        self.op_save(s)
        self.check_leak()

    def check_protection(self, r):
        """every protected field is encrypted once more inside the payload"""
        want = Counter()
        for e in M.every_entry(self.doc):
            for k, (v, p) in e['strings'].items():
                if p and v:
                    want[v] += 1
        got = Counter(t for _, t in r.protected)
        for v in want:
            if got[v] < want[v]:
                self.fail('file', 'plaintext', 'protected field value %r is not encrypted in the payload' % v[:40])
        plain = r.xml.decode('utf-8', 'replace')
        texts = []
        for e in M.every_entry(self.doc):
            texts += [v for v, p in e['strings'].values() if v and not p] + strings_in([e['attachments'], e['tags'], e['other'], e['autotype'],
                                                                                      list(e['strings'])])
        for g, *_ in M.all_groups(self.doc):
            texts += strings_in([g['name'], g['notes'], g['other']])
        blob = '\0'.join(texts + strings_in([self.doc['meta'], self.doc['root_other'], self.doc['file_other']]))
        for v in want:
            if len(v) >= 10 and v not in blob and v in plain:
                self.fail('file', 'plaintext', 'protected field value %r appears unencrypted in the payload' % v[:40])
        for raw, t in r.protected:
            if len(t) >= 10 and raw == t.encode():
                self.fail('file', 'plaintext', 'protected value stored without encryption')

    def learn_partial(self, rec, tk):
        """a save that failed may have stored an encrypted database for a while"""
        seen = set(rec.initial.values())
        for k in range(1, len(rec.events) + 1):
            if k < len(rec.events) and rec.events[k - 1][0] not in ('write', 'sync'):
                continue
            for d in rec.killed(k).values():
                if d in seen or not d:
                    continue
                seen.add(d)
                try:
                    r = self.decode(d, None, None, tk)
                except (ref.FormatError, ref.BadCredentials):
                    continue
                self.stats['keys-of-failed-saves'] += 1
                self.learn_keys(r, d)

    def learn_keys(self, r, data):
        body = hashlib.sha256(data).digest()
        for kind, key in (('key and iv', (r.key, r.iv)), ('inner stream key', (r.stream, r.stream_key))):
            k = (kind, key)
            if self.used_keys.setdefault(k, (body, r.plain)) != (body, r.plain) and self.used_keys[k][1] != r.plain:
                self.fail('file', 'reuse', 'two different payloads were encrypted with the same %s' % kind)
        self.stats['keys-seen'] += 1


CREATE_CREDS = [('created 1', None), ('cre\u00e4ted 2', None), ('created 3', ['hashtext', 77]), ('Created key', ['raw32', 78])]


def unpacked(data):
    """what gzip or base64 hides"""
    out = b''
    i = data.find(b'\x1f\x8b\x08')
    if i >= 0:
        try:
            out += zlib.decompressobj(31).decompress(data[i:], 2**22)
        except zlib.error:
            pass
    if data[:2] in (b'\x78\x9c', b'\x78\x01', b'\x78\xda'):
        try:
            out += zlib.decompressobj().decompress(data, 2**22)
        except zlib.error:
            pass
    return out


def ev(rec, k):
    return rec.events[k][0] if k < len(rec.events) else 'end'


def strings_in(x):
    if isinstance(x, str):
        return [x]
    if isinstance(x, (list, tuple)):
        return [t for y in x for t in strings_in(y)]
    return []


def size(d):
    return 'nothing' if d is None else '%d bytes (%s)' % (len(d), hashlib.sha256(d).hexdigest()[:8])


class BrokenStream:
    """a key file that cannot be read"""
    def __init__(self, seek=False):
        self.seek_error = seek

    def seekable(self):
        if self.seek_error:
            raise OSError(5, 'Input/output error')
        return False

    def read(self, n=-1):
        raise OSError(5, 'Input/output error')


def near_misses(pw, kf, rng):
    """[(password, key file contents, description)] similar to the given ones"""
    out = []
    if pw is not None:
        for v, why in ((pw + ' ', 'trailing space'), (' ' + pw, 'leading space'), (pw.strip(), 'stripped'), (pw[:-1], 'last character missing'),
                       (pw[1:], 'first character missing'), (pw + '\0', 'trailing NUL'), (pw.lower(), 'lower case'), (pw.upper(), 'upper case'),
                       (pw.swapcase(), 'swapped case'), (unicodedata.normalize('NFC', pw), 'NFC'), (unicodedata.normalize('NFD', pw), 'NFD'),
                       (unicodedata.normalize('NFKC', pw), 'NFKC'), (pw + pw, 'doubled'), ('', 'empty'), (pw[::-1], 'reversed'),
                       (pw.replace('\n', ''), 'line breaks removed'), (pw[:max(1, len(pw) // 2)], 'half'), (pw + 'x', 'one more character'),
                       (pw[:64], '64 characters'), (pw[:72], '72 characters'), (pw[:255], '255 characters'), (pw[:1024], '1024 characters'),
                       (pw.casefold(), 'case folded'), (' '.join(pw.split()), 'white space collapsed'), (pw.split('\0')[0], 'up to NUL'),
                       (pw.replace('\ufeff', '').replace('\u200b', ''), 'invisible characters removed'), ('\ufeff' + pw, 'with a byte order mark'),
                       (pw.encode('ascii', 'replace').decode(), 'ASCII only'), (pw.encode('utf-8').decode('latin-1'), 'as Latin-1'),
                       (pw.replace('?', '\ud800'), 'lone surrogate instead of a question mark'), (pw + '\udc80', 'one more lone surrogate'),
                       (pw[:-1] + chr(ord(pw[-1]) ^ 1) if pw else 'x', 'last bit')):
            if v != pw:
                out.append((v, kf, 'password: ' + why))
        out.append((None, kf, 'no password'))
    else:
        out += [('', kf, 'empty instead of no password'), ('password', kf, 'some password'), ('None', kf, "'None'")]
    if kf is not None:
        out.append((pw, None, 'no key file'))
        for v, why in ((kf[:-1] + bytes([kf[-1] ^ 1]), 'last bit'), (bytes([kf[0] ^ 1]) + kf[1:], 'first bit'), (kf + b'\n', 'newline'),
                       (kf[:-1], 'truncated'), (kf + kf, 'doubled'), (b'\0' * 32, 'zeros'), (kf[:64] + b'x' + kf[65:], 'byte 64'),
                       (kf[:32], 'first 32 bytes'), (kf[:len(kf) // 2], 'half'),
                       (b'\xef\xbb\xbf' + kf, 'with a byte order mark'), (kf.replace(b'\n', b'\r\n'), 'CRLF'), (kf.strip(), 'stripped'), (kf.lower(), 'lower case'),
                       (kf[:4096], '4096 bytes'), (kf[:65536], '65536 bytes'), (kf + b'\0', 'trailing NUL'), (kf.hex().encode(), 'in hex'), (kf[::-1], 'reversed'),
                       (re.sub(rb'Hash="(..)', lambda m: b'Hash="%02X' % (int(m[1], 16) ^ 16), kf), 'checksum of the key file'),
                       (re.sub(rb'([0-9A-F]{8} ?)([0-9A-F]{8})', rb'\2\1', kf, count=1), 'key file data')):
            if v != kf and v:
                out.append((pw, v, 'key file: ' + why))
    else:
        out += [(pw, b'x' * 32, 'a key file'), (pw, b'\0' * 32, 'a zero key file')]
    rng.shuffle(out)
    return out


def _op_fit(self, s):
    """resize the database so that the stored payload ends near a block boundary"""
    e = self.pick_entry(0)
    if e is None:
        self.op_add_entry({'op': 'add_entry', 'g': 0, 'title': 'fit', 'username': 'u', 'password': 'p', 'force': True})
        e = self.pick_entry(0)
    want = s['blocks'] * 2**20 + s['d']
    self.op_set_field({'op': 'set_field', 'e': 0, 'f': 'notes', 'v': 'x'})
    n = 1
    for _ in range(3):
        self.op_save({'op': 'save'})
        r = self.decode(self.files[self.fname], None, None, self.cred['tk'])
        have = len(r.plain) if self.major == 3 or self.hdr['cipher'] == 'chacha20' else sum(r.block_sizes)
        if self.major == 4 and self.hdr['cipher'] != 'chacha20':
            # aim at the size before padding, so that padding crosses the boundary or does not
            have = len(r.plain)
        prot = e['strings']['Notes'][1]
        step = want - have
        if step == 0:
            break
        n = max(1, n + (step if not prot else step * 3 // 4))
        self.op_set_field({'op': 'set_field', 'e': 0, 'f': 'notes', 'v': 'x' * n})
    self.stats['fit-%+d' % (have - s['blocks'] * 2**20)] += 1


Hist.op_fit = _op_fit
