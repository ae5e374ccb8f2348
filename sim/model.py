"""The reference model: a decoded database (see kdbxref) edited by trivially simple operations, and the
flattened, categorised views of model, file and live object that are compared.

A view maps (category, owner, name) to a value.  Two views of the same state are equal; the categories say
which property a difference belongs to.
"""
import copy
import hashlib
from datetime import datetime, timezone

STD = {'title': 'Title', 'username': 'UserName', 'password': 'Password', 'url': 'URL', 'notes': 'Notes', 'otp': 'otp'}
RESERVED = ['Title', 'UserName', 'Password', 'URL', 'Tags', 'IconID', 'Times', 'History', 'Notes', 'otp']
API_TIMES = {'CreationTime': 'ctime', 'LastModificationTime': 'mtime', 'LastAccessTime': 'atime', 'ExpiryTime': 'expiry_time'}
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


def secs(dt):
    """whole seconds since the epoch of an aware datetime (exact integer arithmetic)"""
    if dt is None:
        return None
    d = dt - EPOCH
    return d.days * 86400 + d.seconds


def h(data):
    return '%d:%s' % (len(data), hashlib.sha256(data).hexdigest()[:16])


def attached(doc, r):
    return h(doc['binaries'][r][0]) if r < len(doc['binaries']) else 'no binary %d' % r


def live_attached(a):
    try:
        return h(a.data)
    except Exception as e:
        if type(e).__name__ != 'BinaryError':
            raise
        return 'no binary %d' % a.id


def norm(s):
    return s or None


# ---------------------------------------------------------------- views of a doc
def _autotype_api(n):
    out = {'enabled': None, 'sequence': None, 'window': None}
    if n is None:
        return out
    for tag, _, text, kids in n[3]:
        if tag == 'Enabled':
            out['enabled'] = None if text is None else text == 'True'
        elif tag == 'DefaultSequence':
            out['sequence'] = norm(text)
        elif tag == 'Association' and out['window'] is None and not out.get('seen'):
            out['seen'] = True
            for t2, _, x2, _ in kids:
                if t2 == 'Window':
                    out['window'] = norm(x2)
    out.pop('seen', None)
    return out


def entry_items(e, doc, api):
    """[(category, name, value)] of one entry, without its history"""
    out = []
    for k, (v, p) in e['strings'].items():
        out.append(('field', k, norm(v)))
        if not api:
            out.append(('protect', k, p))
        elif k not in RESERVED:
            out.append(('protect', k, p))
    if api:
        for k in STD.values():
            if k not in e['strings']:
                out.append(('field', k, None))
    out.append(('field', '.tags', tuple(e['tags'])))
    out.append(('field', '.icon', e['icon']))
    out.append(('attach', '.list', tuple((norm(n), attached(doc, r)) for n, r in e['attachments'])))
    out += times_items(e, api)
    if api:
        for k, v in _autotype_api(e['autotype']).items():
            out.append(('autotype', k, v))
    else:
        out.append(('autotype', '.node', e['autotype']))
        out.append(('foreign', '.other', tuple(e['other'])))
    return out


def times_items(e, api):
    out = []
    t = e['times'] or {}
    for k, v in t.items():
        if k == '*':
            if not api:
                out.append(('foreign', '.times', tuple(v)))
        elif k == 'Expires':
            out.append(('time', k, v))
        elif k == 'UsageCount':
            if not api:
                out.append(('foreign', k, v))
        elif api and k not in API_TIMES:
            continue
        else:
            out.append(('time', k, v))
    return out


def flatten(doc, api=False):
    view = {}

    def put(cat, owner, name, value):
        k = (cat, owner, name)
        while k in view:
            k = (k[0], k[1] + "'", k[2])
        view[k] = value

    def entry(e):
        o = e['uuid'].hex()
        for cat, name, v in entry_items(e, doc, api):
            put(cat, o, name, v)
        put('history', o, '.items', tuple(hist_item(x) for x in e['history']))
        put('hattach', o, '.items', tuple(tuple((norm(n), attached(doc, r)) for n, r in x['attachments']) for x in e['history']))

    def hist_item(x):
        return (x['uuid'].hex(),) + tuple(sorted(entry_items(x, doc, api), key=repr))

    def group(g):
        o = g['uuid'].hex()
        put('tree', o, 'groups', tuple(x['uuid'].hex() for x in g['groups']))
        put('tree', o, 'entries', tuple(x['uuid'].hex() for x in g['entries']))
        for k in ('name', 'notes', 'icon'):
            put('field', o, k, norm(g[k]))
        for cat, name, v in times_items(g, api):
            put(cat, o, name, v)
        if not api:
            put('foreign', o, '.other', tuple(g['other']))
        for x in g['entries']:
            entry(x)
        for x in g['groups']:
            group(x)

    put('tree', '', 'root', doc['root']['uuid'].hex())
    group(doc['root'])
    if api:
        put('binaries', '', '.list', tuple(h(b[0]) for b in doc['binaries']))
        for n, tag in META_API.items():
            put('time' if n == 'credchange_date' else 'meta', '', n, norm(meta_get(doc, tag)))
    else:
        put('binaries', '', '.list', tuple((h(b[0]), int(b[1])) for b in doc['binaries']))
        per = {}
        for m in doc['meta']:
            per.setdefault(m[0], []).append(m[1:])
        for tag, v in per.items():
            put('time' if tag == 'MasterKeyChanged' else 'meta' if tag in META_KNOWN else 'foreign', 'Meta', tag, tuple(sorted(v, key=repr)))
        put('foreign', 'Root', '.other', tuple(doc['root_other']))
        put('foreign', 'File', '.other', tuple(doc['file_other']))
    return view


META_API = {'database_name': 'DatabaseName', 'database_description': 'DatabaseDescription', 'default_username': 'DefaultUserName',
            'credchange_date': 'MasterKeyChanged', 'credchange_required_days': 'MasterKeyChangeForce',
            'credchange_recommended_days': 'MasterKeyChangeRec'}
META_KNOWN = set(META_API.values()) | {'RecycleBinUUID'}


def meta_get(doc, tag):
    for m in doc['meta']:
        if m[0] == tag:
            return m[2]


def meta_set(doc, tag, value):
    for i, m in enumerate(doc['meta']):
        if m[0] == tag:
            doc['meta'][i] = (m[0], m[1], value, m[3])
            return
    raise KeyError(tag)


# ---------------------------------------------------------------- view of a live object, public API only
def live_entry_items(e):
    out = []
    for attr, k in STD.items():
        out.append(('field', k, norm(getattr(e, attr))))
    for k, v in e.custom_properties.items():
        out.append(('field', k, norm(v)))
        out.append(('protect', k, bool(e.is_custom_property_protected(k))))
    out.append(('field', '.tags', tuple(e.tags)))
    out.append(('field', '.icon', norm(e.icon)))
    out.append(('attach', '.list', tuple((norm(a.filename), live_attached(a)) for a in e.attachments)))
    out += live_times(e)
    out.append(('autotype', 'enabled', e.autotype_enabled))
    out.append(('autotype', 'sequence', norm(e.autotype_sequence)))
    out.append(('autotype', 'window', norm(e.autotype_window)))
    return out


def live_times(e):
    return [('time', k, secs(getattr(e, a))) for k, a in API_TIMES.items()] + [('time', 'Expires', e.expires)]


def live_view(kp):
    view = {}

    def put(cat, owner, name, value):
        k = (cat, owner, name)
        while k in view:
            k = (k[0], k[1] + "'", k[2])
        view[k] = value

    def entry(e):
        o = e.uuid.hex
        for cat, name, v in live_entry_items(e):
            put(cat, o, name, v)
        hist = e.history
        put('history', o, '.items', tuple((x.uuid.hex,) + tuple(sorted(live_entry_items(x), key=repr)) for x in hist))
        put('hattach', o, '.items', tuple(tuple((norm(a.filename), live_attached(a)) for a in x.attachments) for x in hist))

    def group(g):
        o = g.uuid.hex
        gs, es = g.subgroups, g.entries
        put('tree', o, 'groups', tuple(x.uuid.hex for x in gs))
        put('tree', o, 'entries', tuple(x.uuid.hex for x in es))
        for k in ('name', 'notes', 'icon'):
            put('field', o, k, norm(getattr(g, k)))
        for cat, name, v in live_times(g):
            put(cat, o, name, v)
        for x in es:
            entry(x)
        for x in gs:
            group(x)

    root = kp.root_group
    put('tree', '', 'root', root.uuid.hex)
    group(root)
    put('binaries', '', '.list', tuple(h(b) for b in kp.binaries))
    for n in META_API:
        v = getattr(kp, n)
        if n == 'credchange_date':
            v = secs(v)
        put('time' if n == 'credchange_date' else 'meta', '', n, norm(str(v)) if n.endswith('_days') else norm(v))
    return view


def diff(expected, actual, limit=6):
    """[(category, text)] of the differences between two views"""
    out = []
    for k in expected:
        if k not in actual:
            out.append((k[0], '%s %s %s is missing (expected %s)' % (k + (short(expected[k]),))))
        elif expected[k] != actual[k]:
            out.append((k[0], '%s %s %s is %s, expected %s' % (k + (short_diff(actual[k], expected[k]), short_diff(expected[k], actual[k])))))
    for k in actual:
        if k not in expected:
            out.append((k[0], 'unexpected %s %s %s = %s' % (k + (short(actual[k]),))))
    return out


def short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


def short_diff(v, other):
    if isinstance(v, tuple) and isinstance(other, tuple) and len(v) == len(other) and len(repr(v)) > 160:
        return '(...%s...)' % ', '.join('[%d] %s' % (i, short_diff(a, b)) for i, (a, b) in enumerate(zip(v, other)) if a != b)
    return short(v)


# ---------------------------------------------------------------- navigation in a doc
def all_groups(doc):
    """[(group, parent, path)] in document order of groups; path = subgroup indexes"""
    out = []

    def walk(g, parent, path):
        out.append((g, parent, path))
        for i, s in enumerate(g['groups']):
            walk(s, g, path + (i,))
    walk(doc['root'], None, ())
    return out


def all_entries(doc):
    return [(e, g, path, i) for g, _, path in all_groups(doc) for i, e in enumerate(g['entries'])]


def in_subtree(g, top):
    return g is top or any(in_subtree(g, s) for s in top['groups'])


def every_entry(doc):
    """all entries including history items"""
    for e, *_ in all_entries(doc):
        yield e
        yield from e['history']


def copy_entry(e):
    c = copy.deepcopy(e)
    c['history'] = []
    return c


def new_times(t, expires=False, expiry=None):
    return {'CreationTime': t, 'LastModificationTime': t, 'LastAccessTime': t, 'ExpiryTime': t if expiry is None else expiry,
            'LocationChanged': t, 'Expires': expires, 'UsageCount': '0', '*': []}


NEW_AUTOTYPE = ('AutoType', (), None, (('Enabled', (), 'True', ()), ('DataTransferObfuscation', (), '0', ()),
                                       ('DefaultSequence', (), None, ()),
                                       ('Association', (), None, (('Window', (), None, ()), ('KeystrokeSequence', (), None, ())))))


def autotype_set(n, what, text):
    """new autotype node with Enabled / DefaultSequence / first association's Window changed"""
    kids, done = [], False
    for k in n[3]:
        if what == 'Window' and k[0] == 'Association' and not done:
            k = (k[0], k[1], k[2], tuple((c[0], c[1], text or None, c[3]) if c[0] == 'Window' else c for c in k[3]))
            done = True
        elif k[0] == what:
            k = (k[0], k[1], text or None, k[3])
        kids.append(k)
    return (n[0], n[1], n[2], tuple(kids))
