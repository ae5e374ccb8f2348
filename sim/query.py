"""Searches and field references, judged against the model at a given point of a history.

The expected result of a search is computed from the model alone; only the order of elements (which the model
does not keep between subgroups and entries) is taken from the document itself.
"""
import base64
import re
from uuid import UUID

from . import model as M

ENTRY = {'title': 'Title', 'username': 'UserName', 'password': 'Password', 'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}
REF = {'T': 'Title', 'U': 'UserName', 'P': 'Password', 'A': 'URL', 'N': 'Notes'}
ATTR = {'T': 'title', 'U': 'username', 'P': 'password', 'A': 'url', 'N': 'notes', 'I': 'uuid'}
REF_RE = re.compile(r'\{REF:([TUPANI])@([TUPANI]):([^}]+)\}')


def usable(v):
    """values whose use as a search criterion is not left open"""
    return isinstance(v, str) and 0 < len(v) < 500 and v.isprintable()


class Flat:
    """all elements of the model, in the order of the document"""

    def __init__(self, h):
        order = {}
        for i, el in enumerate(h.kp.tree.getroot().iter('Group', 'Entry')):
            u = el.findtext('UUID')
            order.setdefault((el.tag, base64.b64decode(u)), i)
        self.groups = []      # (group, ancestors from the root group)
        self.entries = []     # (entry, ancestors, item of history or None)

        def walk(g, up):
            self.groups.append((g, up))
            for e in g['entries']:
                self.entries.append((e, up + [g]))
            for x in g['groups']:
                walk(x, up + [g])
        walk(h.doc['root'], [])
        self.groups.sort(key=lambda x: order[('Group', x[0]['uuid'])])
        self.entries.sort(key=lambda x: order[('Entry', x[0]['uuid'])])

    def records(self, history):
        """[(record, its entry, ancestors, number in history or None)]"""
        out = []
        for e, up in self.entries:
            out.append((e, e, up, None))
            if history:
                out += [(x, e, up, i) for i, x in enumerate(e['history'])]
        return out


def value(e, field):
    return e['strings'].get(ENTRY[field], (None,))[0]


def custom(e, key):
    return e['strings'].get(key, (None,))[0]


def autotype(e):
    d = {'autotype_enabled': [], 'autotype_sequence': [], 'autotype_window': []}
    if e['autotype'] is not None:
        for tag, _, text, kids in e['autotype'][3]:
            if tag == 'Enabled':
                d['autotype_enabled'].append(text)
            elif tag == 'DefaultSequence':
                d['autotype_sequence'].append(text)
            elif tag == 'Association':
                d['autotype_window'] += [x for t, _, x, _ in kids if t == 'Window']
    return d


def pattern(rng, v):
    """a regular expression that v matches, and its flags"""
    k = rng.randrange(6)
    if k == 0:
        return '^%s$' % re.escape(v), None
    if k == 1:
        return re.escape(v[:rng.randint(1, len(v))]) + rng.choice(['', '.*']), None
    if k == 2:
        i = rng.randrange(len(v))
        return re.escape(v[i:i + rng.randint(1, 4)]) + '$' * rng.randint(0, 1), None
    if k == 3:
        return '^' + re.escape(v.swapcase()) + '$', 'i'
    if k == 4:
        return '^' + re.escape(v[:rng.randint(1, len(v))]), rng.choice([None, 'i'])
    return '%s|no such value at all' % re.escape(v), None


class Match:
    def __init__(self, pat, regex, flags):
        self.pat, self.regex = pat, regex
        if regex:
            self.re = re.compile(pat, re.I if flags and 'i' in flags else 0)

    def __call__(self, text):
        if text is None or text == '':
            return False
        return self.re.search(text) is not None if self.regex else text == self.pat


def near(rng, v):
    """a value that is similar, and mostly not there"""
    return rng.choice([v + 'x', v[:-1] or 'x', v.swapcase(), v + ' ', 'x' + v])


def crit(rng, v, regex, flags):
    """criterion and matcher for a value"""
    if regex:
        p = re.escape(v) if flags == 'fixed' else None
        p, fl = (p, None) if p else pattern(rng, v)
        return p, fl
    return (near(rng, v) if rng.random() < 0.12 else v), None


def search_entries(h, rng, flat):
    hist = rng.random() < 0.3
    recs = flat.records(hist)
    regex = rng.random() < 0.35
    first = rng.random() < 0.3
    base = rng.choice(flat.groups) if rng.random() < 0.45 else None
    recursive = rng.random() < 0.6 if base else True
    pool = recs
    if base and rng.random() < 0.8:
        pool = [r for r in recs if any(g is base[0] for g in (r[2] if recursive else r[2][-1:]))] or recs
    t = rng.choice(pool)[0] if pool else None
    kw, tests, loose = {}, [], []
    flags = None
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        if t is None:
            break
        if kw and rng.random() < 0.12:
            # all criteria have to hold, not just some
            t = rng.choice(pool)[0]
        k = rng.choice(['title', 'title', 'username', 'password', 'url', 'notes', 'otp', 'string', 'uuid', 'tags',
                        'autotype_enabled', 'autotype_sequence', 'autotype_window'])
        if k in kw:
            continue
        if k == 'uuid':
            if regex:
                continue
            kw['uuid'] = UUID(bytes=t['uuid'])
            tests.append(lambda e, u=t['uuid']: e['uuid'] == u)
        elif k == 'tags':
            ts = [x for x in t['tags'] if usable(x)]
            if not ts:
                continue
            ts = rng.sample(ts, rng.randint(1, len(ts)))
            kw['tags'] = ts
            loose.append((lambda e, ts=ts: all(x in e['tags'] for x in ts), lambda e, ts=ts: all(any(x in y for y in [';'.join(e['tags']), ','.join(e['tags'])]) for x in ts)))
        elif k == 'string':
            cs = [(a, b[0]) for a, b in t['strings'].items() if a not in M.RESERVED and usable(a) and usable(b[0])]
            if not cs and not kw:
                t = rng.choice(pool)[0]
                cs = [(a, b[0]) for a, b in t['strings'].items() if a not in M.RESERVED and usable(a) and usable(b[0])]
            if not cs:
                continue
            d = {}
            for a, b in rng.sample(cs, rng.randint(1, min(4, len(cs)))):
                d[a], fl = crit(rng, b, regex, 'fixed' if flags is None and kw else None)
                if regex and fl != flags and (kw or len(d) > 1):
                    d[a] = re.escape(b)
                elif regex:
                    flags = fl
            if len(d) > 1 and rng.random() < 0.3:
                a = rng.choice(sorted(d))
                o = rng.choice(pool)[0]['strings'].get(a, (None,))[0]
                d[a] = (re.escape(o) if regex else o) if usable(o) else 'zzz'
            kw['string'] = dict(d)
            for a, b in d.items():
                tests.append(lambda e, a=a, m=(b,): Match(m[0], regex, flags)(custom(e, a)))
        elif k.startswith('autotype'):
            vs = [x for x in autotype(t)[k] if usable(x)]
            if not vs:
                continue
            v = rng.choice(vs)
            if k == 'autotype_enabled':
                if v not in ('True', 'False'):
                    continue
                kw[k] = v == 'True'
                p = v
            else:
                p = re.escape(v) if regex else v
                kw[k] = p
            tests.append(lambda e, k=k, p=p: any(Match(p, regex, flags)(x) for x in autotype(e)[k]))
        else:
            v = value(t, k)
            if not usable(v):
                continue
            p, fl = crit(rng, v, regex, 'fixed' if kw else None)
            if regex and not kw:
                flags = fl
            kw[k] = p
            tests.append(lambda e, k=k, p=p: Match(p, regex, flags)(value(e, k)))
    inside = (lambda r: True) if base is None else (lambda r: any(g is base[0] for g in (r[2] if recursive else r[2][-1:])))
    if not recursive:
        # history entries are not direct children
        inside = lambda r: r[2][-1] is base[0] and r[3] is None
    upper = [r for r in recs if inside(r) and all(f(r[0]) for f in tests) and all(b(r[0]) for _, b in loose)]
    lower = [r for r in upper if all(a(r[0]) for a, _ in loose)]
    args = dict(kw)
    if regex:
        args['regex'] = True
        if flags:
            args['flags'] = flags
    elif rng.random() < 0.2:
        args['regex'] = False
    if hist:
        args['history'] = True
    if first:
        args['first'] = True
    if base is not None:
        args['group'] = h.group_obj(path_to(h, base[0]))
        if not recursive:
            args['recursive'] = False
    f = h.kp.find_entries
    name = 'find_entries'
    if len(kw) == 1 and rng.random() < 0.25:
        k = next(iter(kw))
        old = getattr(h.kp, 'find_entries_by_' + k, None)
        if old is not None and recursive:
            name = 'find_entries_by_' + k
            a = dict(args)
            v = a.pop(k)
            f = lambda **_: old(v, **a)
    elif base is not None and not recursive and not kw and not hist and not first and not regex and rng.random() < 0.5:
        name, f = 'entries', lambda **_: args['group'].entries
    elif base is None and not kw and not hist and not first and not regex and rng.random() < 0.5:
        name, f = 'entries', lambda **_: h.kp.entries
    got = h.edit('%s(%s)' % (name, show(args)), lambda: f(**{k: (dict(v) if isinstance(v, dict) else v) for k, v in args.items()}))
    key = lambda r: (r[0]['uuid'].hex(), r[3] is not None, tuple(M.norm(value(r[0], k)) for k in ENTRY), r[0]['times'].get('LastModificationTime'))
    live = lambda o: (o.uuid.hex, bool(o.is_a_history_entry), tuple(M.norm(getattr(o, k)) for k in ENTRY), M.secs(o.mtime))
    judge(h, '%s(%s)' % (name, show(args)), got, live, [key(r) for r in lower], [key(r) for r in upper], first)
    if got and not hist:
        o = got if first else rng.choice(got)
        r = [r for r in recs if r[0]['uuid'] == o.uuid.bytes and r[3] is None]
        if r:
            h.check_place(o, r[0][2], value(r[0][0], 'title'))
    return len(upper)


def path_to(h, g):
    for x, _, path in M.all_groups(h.doc):
        if x is g:
            return path


def show(args):
    return ', '.join('%s=%r' % (k, v if k not in ('group', 'element') else str(getattr(v, 'uuid', v))) for k, v in sorted(args.items()))


def judge(h, what, got, live, lower, upper, first):
    h.stats['searches'] += 1
    h.note(what, len(upper))
    if first:
        if got is None:
            if lower:
                h.fail('live', 'search', '%s found nothing, expected %s' % (what, M.short(lower[0])))
            return
        x = live(got)
        if x not in upper:
            h.fail('live', 'search', '%s found %s, which does not match' % (what, M.short(x)))
        elif lower and upper.index(x) > upper.index(lower[0]):
            h.fail('live', 'search', '%s found %s, which is not the first' % (what, M.short(x)))
        return
    if not isinstance(got, list):
        h.fail('live', 'search', '%s returned %s, not a list' % (what, M.short(got)))
        return
    xs = [live(o) for o in got]
    h.stats['found'] += len(xs)
    if lower == upper:
        if xs != upper:
            h.fail('live', 'search', '%s found %d elements, expected %d: %s' % (what, len(xs), len(upper), explain(xs, upper)))
        return
    for x in lower:
        if x not in xs:
            h.fail('live', 'search', '%s did not find %s' % (what, M.short(x)))
    for x in xs:
        if x not in upper:
            h.fail('live', 'search', '%s found %s, which does not match' % (what, M.short(x)))


def explain(xs, want):
    for x in want:
        if x not in xs:
            return '%s is missing' % M.short(x)
    for x in xs:
        if x not in want:
            return '%s does not match' % M.short(x)
    return 'found several times' if len(xs) != len(want) else 'in another order'


def search_again(h, rng, flat):
    """a search that was asked before, when other things were in the database"""
    asked = h.asked
    if not asked or len(asked) < 12 and rng.random() < 0.5:
        kind = rng.choice(['e', 'e', 'e', 'g'])
        pool = [e for e, _ in flat.entries] if kind == 'e' else [g for g, _ in flat.groups]
        if not pool:
            return 0
        t = rng.choice(pool)
        k = rng.choice(['uuid', 'uuid', 'title', 'username', 'url'] if kind == 'e' else ['uuid', 'name'])
        v = t['uuid'] if k == 'uuid' else value(t, k) if kind == 'e' else t[k]
        if k != 'uuid' and not usable(v):
            return 0
        asked.append((kind, k, v, rng.random() < 0.6))
        q = asked[-1]
    else:
        q = rng.choice(asked)
    kind, k, v, first = q
    args = {k: UUID(bytes=v) if k == 'uuid' else v}
    if first:
        args['first'] = True
    if kind == 'e':
        name, f = 'find_entries', h.kp.find_entries
        hits = [e for e, _ in flat.entries if (e['uuid'] if k == 'uuid' else value(e, k)) == v]
        live = lambda o: (o.uuid.hex, tuple(M.norm(getattr(o, x)) for x in ENTRY))
        want = [(e['uuid'].hex(), tuple(M.norm(value(e, x)) for x in ENTRY)) for e in hits]
    else:
        name, f = 'find_groups', h.kp.find_groups
        hits = [g for g, _ in flat.groups if g[k] == v]
        live = lambda o: (o.uuid.hex, M.norm(o.name), M.norm(o.notes))
        want = [(g['uuid'].hex(), M.norm(g['name']), M.norm(g['notes'])) for g in hits]
    got = h.edit('%s(%s)' % (name, show(args)), lambda: f(**args))
    h.stats['asked-again'] += 1
    judge(h, '%s(%s)' % (name, show(args)), got, live, want, want, first)
    return len(want)


def search_groups(h, rng, flat):
    regex = rng.random() < 0.35
    first = rng.random() < 0.3
    base = rng.choice(flat.groups) if rng.random() < 0.45 else None
    recursive = rng.random() < 0.6 if base else True
    t = rng.choice(flat.groups)[0]
    kw, tests, flags = {}, [], None
    for _ in range(rng.choice([0, 1, 1, 2])):
        k = rng.choice(['name', 'name', 'notes', 'uuid'])
        if k in kw:
            continue
        if k == 'uuid':
            if regex:
                continue
            kw[k] = UUID(bytes=t['uuid'])
            tests.append(lambda g, u=t['uuid']: g['uuid'] == u)
            continue
        if not usable(t[k]):
            continue
        p, fl = crit(rng, t[k], regex, 'fixed' if kw else None)
        if regex and not kw:
            flags = fl
        kw[k] = p
        tests.append(lambda g, k=k, p=p: Match(p, regex, flags)(g[k]))
    want = [g for g, up in flat.groups if (base is None or any(x is base[0] for x in (up if recursive else up[-1:]))) and all(f(g) for f in tests)]
    args = dict(kw)
    if regex:
        args['regex'] = True
        if flags:
            args['flags'] = flags
    if first:
        args['first'] = True
    if base is not None:
        args['group'] = h.group_obj(path_to(h, base[0]))
        if not recursive:
            args['recursive'] = False
    name, f = 'find_groups', h.kp.find_groups
    if len(kw) == 1 and recursive and rng.random() < 0.25:
        k = next(iter(kw))
        old = getattr(h.kp, 'find_groups_by_' + k, None)
        if old is not None:
            name = 'find_groups_by_' + k
            a = dict(args)
            v = a.pop(k)
            f = lambda **_: old(v, **a)
    elif base is not None and not recursive and not kw and not first and not regex and rng.random() < 0.5:
        name, f = 'subgroups', lambda **_: args['group'].subgroups
    got = h.edit('%s(%s)' % (name, show(args)), lambda: f(**args))
    live = lambda o: (o.uuid.hex, M.norm(o.name), M.norm(o.notes))
    want = [(g['uuid'].hex(), M.norm(g['name']), M.norm(g['notes'])) for g in want]
    judge(h, '%s(%s)' % (name, show(args)), got, live, want, want, first)
    return len(want)


def search_path(h, rng, flat):
    entry = rng.random() < 0.6 and flat.entries
    regex = rng.random() < 0.25
    if entry:
        e, up = rng.choice(flat.entries)
        path = [g['name'] for g in up[1:]] + [value(e, 'title')]
        cands = [(x, [g['name'] for g in u[1:]] + [value(x, 'title')]) for x, u in flat.entries]
    else:
        g, up = rng.choice(flat.groups)
        path = [x['name'] for x in up[1:]] + ([g['name']] if up else [])
        cands = [(x, [y['name'] for y in u[1:]] + ([x['name']] if u else [])) for x, u in flat.groups]
    if not all(usable(p) for p in path):
        return 0
    k = rng.random()
    if path and k < 0.15:
        i = rng.randrange(len(path))
        path[i] = near(rng, path[i])
    elif len(path) > 1 and k < 0.35:    # no such place, or another one
        path = path[1:] if k < 0.25 else path[:-2] + path[-1:]
    elif path and k < 0.4:
        path = path[:1] + path
    ms = [Match(p, False, None) for p in path]
    if regex and path:
        path = [rng.choice(['^%s$' % re.escape(p), re.escape(p)]) for p in path]
        ms = [Match(p, True, None) for p in path]
    want = [x for x, p in cands if len(p) == len(path) and all(m(y) for m, y in zip(ms, p))]
    f = h.kp.find_entries if entry else h.kp.find_groups
    name = 'find_entries' if entry else 'find_groups'
    args = dict(path=list(path))
    if regex:
        args['regex'] = True
    what = '%s(%s)' % (name, show(args))
    got = h.edit(what, lambda: f(**args))
    h.stats['searches'] += 1
    h.note(what, len(want))
    w = want[0]['uuid'] if want else None
    if isinstance(got, list):
        h.fail('live', 'search', '%s returned a list' % what)
    elif (got.uuid.bytes if got is not None else None) != w:
        h.fail('live', 'search', '%s found %s, expected %s' % (what, got and got.uuid.hex, w and w.hex()))
    return len(want)


def search_attachments(h, rng, flat):
    hist = rng.random() < 0.4
    recs = flat.records(hist)
    alls = [(r, n, i) for r in recs for n, i in r[0]['attachments']]
    k = rng.random()
    base, recursive = None, True
    if k < 0.3 and flat.entries:
        base = ('e', rng.choice(alls)[0] if alls and rng.random() < 0.7 else rng.choice(recs))
        if base[1][3] is not None:
            base = ('e', (base[1][1], base[1][1], base[1][2], None))
        recursive = rng.random() < 0.6
        inside = lambda r: r[1] is base[1][1] if recursive else r[0] is base[1][0]
    elif k < 0.5:
        base = ('g', rng.choice(flat.groups)[0])
        inside = lambda r: any(g is base[1] for g in r[2])
    else:
        inside = lambda r: True
    regex = rng.random() < 0.35
    first = rng.random() < 0.25
    args, tests = {}, []
    t = rng.choice(alls) if alls else None
    if t is None or rng.random() < 0.15:
        args['filename'] = 'no such name'
        tests.append(lambda a: False)
    if rng.random() < 0.6 and t and not args and usable(t[1]):
        p, fl = crit(rng, t[1], regex, None)
        args['filename'] = p
        if fl:
            args['flags'] = fl
        tests.append(lambda a: Match(p, regex, fl)(a[1]))
    if t and (not args or rng.random() < 0.2) and not regex:
        args['id'] = t[2]
        tests.append(lambda a: a[2] == t[2])
    if not args or not tests:
        args['filename'] = '.*'
        regex = True
    want = [(r[0]['uuid'].hex(), r[3] is not None, M.norm(n), i) for r, n, i in alls if inside(r) and all(f((r, n, i)) for f in tests)]
    if regex:
        args['regex'] = True
    if hist:
        args['history'] = True
    if first:
        args['first'] = True
    if base:
        args['element'] = h.entry_obj(base[1][1], True) if base[0] == 'e' else h.group_obj(path_to(h, base[1]))
        if not recursive:
            args['recursive'] = False
    what = 'find_attachments(%s)' % show(args)
    got = h.edit(what, lambda: h.kp.find_attachments(**args))
    live = lambda a: (a.entry.uuid.hex, bool(a.entry.is_a_history_entry), M.norm(a.filename), a.id)
    if hist and not first and isinstance(got, list):
        # an entry's own attachments may come before or after its history
        got = sorted(got, key=live)
        want.sort()
    elif hist and first and got is not None and live(got) in want:
        want = [live(got)]
    judge(h, what, got, live, want, want, first)
    return len(want)


def run(h, seed, n):
    import random
    rng = random.Random(seed)
    flat = Flat(h)
    for _ in range(n):
        f = rng.choice([search_entries] * 5 + [search_groups] * 2 + [search_path] * 4 + [search_attachments] * 2 + [search_again] * 3)
        f(h, rng, flat)


# ---------------------------------------------------------------- field references
class Cycle(Exception):
    """the result is left open: references that never end, or are malformed"""


def resolve(flat, value_, depth=0):
    """the value with all references replaced; None if one leads nowhere"""
    if not value_:
        return value_
    if depth > 30 or len(value_) > 3000:
        raise Cycle()
    for m in REF_RE.finditer(value_):
        if m.group(2) == 'I' and not re.fullmatch('[0-9a-fA-F]{32}', m.group(3)):
            raise Cycle()            # what a malformed identifier means is left open
    missing = []

    def sub(m):
        want, where, what = m.groups()
        if where == 'I':
            hit = [e for e, _ in flat.entries if e['uuid'] == UUID(what).bytes]
        else:
            hit = [e for e, _ in flat.entries if e['strings'].get(REF[where], (None,))[0] == what]
        if not hit:
            missing.append(m.group())
            return ''
        return e_text(hit[0], want)
    out = REF_RE.sub(sub, value_)
    if missing:
        return None
    return resolve(flat, out, depth + 1) if REF_RE.search(out) else out


def e_text(e, want):
    if want == 'I':
        return e['uuid'].hex().upper()
    return e['strings'].get(REF[want], (None,))[0] or ''


def clean(v):
    return usable(v) and '{' not in v and '}' not in v


def reference(rng, flat):
    """a reference to some field of some entry"""
    e = rng.choice(flat.entries)[0]
    want = rng.choice('TUPANTUPANI')
    where = rng.choice('IIITUPAN')
    v = e['uuid'].hex().upper() if where == 'I' else e['strings'].get(REF[where], (None,))[0]
    if rng.random() < 0.08:
        v = 'nobody has this' if where != 'I' else UUID(int=rng.getrandbits(128)).hex.upper()
    if where == 'I' and rng.random() < 0.2:
        v = v.lower()
    if not clean(v):
        return None
    return '{REF:%s@%s:%s}' % (want, where, v)


def text(rng, flat):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.4:
            parts.append(rng.choice(['domain\\', 'A', ' - ', 'ü', '@']))
        r = reference(rng, flat)
        if r:
            parts.append(r)
    if parts and rng.random() < 0.2:
        parts.append(rng.choice(parts))
    return ''.join(parts)


def run_deref(h, seed, n):
    import random
    rng = random.Random(seed)
    flat = Flat(h)
    for _ in range(n):
        k = rng.random()
        if not flat.entries:
            return
        if k < 0.5:
            e, _ = rng.choice(flat.entries)
            f = rng.choice(list(REF))
            v = e['strings'].get(REF[f], (None,))[0]
            call = lambda: h.entry_obj(e, rng.random() < 0.5).deref(ATTR[f])
            what = 'deref(%r) of %s' % (ATTR[f], e['uuid'].hex())
        else:
            v = text(rng, flat)
            call = lambda: h.kp.deref(v)
            what = 'deref(%r)' % v
        left = REF_RE.sub('', v or '')
        if '{' in left or '}' in left:
            continue
        try:
            want = resolve(flat, v)
        except Cycle:
            h.stats['cycles'] += 1
            continue
        got = h.edit(what, call)
        h.stats['derefs'] += 1
        if v and REF_RE.search(v):
            h.stats['derefs-real'] += 1
        h.note(what)
        if M.norm(got) != M.norm(want) or (want == '' and v and got is None):
            h.fail('live', 'deref', '%s is %s, expected %s' % (what, M.short(got), M.short(want)))
        e, _ = rng.choice(flat.entries)
        a = rng.choice(list(ATTR))
        got = h.edit('ref', lambda: h.entry_obj(e).ref(ATTR[a]))
        if got != '{REF:%s@I:%s}' % (a, e['uuid'].hex().upper()):
            h.fail('live', 'deref', 'the reference to %s of %s is %s' % (ATTR[a], e['uuid'].hex(), got))
