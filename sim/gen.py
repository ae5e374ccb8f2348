"""Random databases as another program would have written them, and random values."""
import base64
import random
import xml.etree.ElementTree as ET

from . import kdbxref as ref

WORDS = ['alpha', 'Beta', 'gamma ray', 'delta', 'x', 'login', 'https://example.org/?a=1&b=2', "it's", '<tag>', 'a&b',
         'Zoë', '密码', 'пароль', '😀🔑', 'e\u0301', 'שלום', 'tab\there', 'line1\nline2', 'cr\rlf\r\n', ' lead', 'trail ',
         '\u00a0nbsp', '%s {0} \\', ']]>', '{REF:P@I:00}', '0', 'None', 'True', '-1', '\u2028', '\ufeffbom', '$(x)', ' ',
         '\x85nel\x7f', '\u200bzw\u202e', '\u2029', '\n', '\t \n', 'ﬁＡßİı', '&amp;&#65;', '<!-- c -->', '<![CDATA[x]]>', '\U0010fffd\ud7ff\ufffd']
ICONS = ['0', '1', '19', '43', '68']
CUSTOM_KEYS = ['Custom', 'PIN', 'foo bar', 'Schlüssel', 'TimeOtp-Secret-Base32', "it's", 'title', 'KPH: x', 'a&b<c>', 'Tags2', 'say "hi"', '"']


def text(rng, big=0.02):
    """a string any XML 1.0 document can hold (possibly empty)"""
    r = rng.random()
    if r < 0.06:
        return ''
    if r < 0.5:
        s = rng.choice(WORDS)
    elif r < 0.8:
        s = ' '.join(rng.choice(WORDS) for _ in range(rng.randint(2, 4)))
    else:
        s = ''.join(chr(rng.choice((rng.randint(0x20, 0x7e), rng.randint(0x7f, 0x24ff), rng.randint(0x4e00, 0x9fff),
                                    rng.randint(0x1f300, 0x1faff), rng.randint(0xe000, 0xfffd))))
                    for _ in range(rng.randint(1, 30)))
    if rng.random() < big:
        s = s * rng.randint(50, 400)
    if rng.random() < 0.1:
        s += '"quoted"'
    return s


def name(rng):
    s = text(rng)
    return s if s.strip() else s + 'n'


def blob(spec):
    """bytes of a binary given as {'seed', 'len', 'kind'}"""
    r = random.Random(spec['seed'])
    if spec.get('kind') == 'zero':
        return bytes(spec['len'])
    if spec.get('kind') == 'text':
        return (b'attachment %d ' % spec['seed'] * (spec['len'] // 12 + 1))[:spec['len']]
    if spec.get('kind') == 'gzip':
        return ref.gzip(r.randbytes(spec['len']))
    if spec.get('kind') == 'b64':
        return base64.b64encode(r.randbytes(spec['len']))
    if spec.get('kind') == 'odd':
        return r.choice([b'<?xml version="1.0"?><a> \r\n </a>\r\n', b'\xef\xbb\xbftext\r\n', b'\x00\x01' * 9, b' \n', b'\x01', b'\x00', ref.SIG + b'\x00' * 20,
                         b'\x1f\x8b\x08', b'\xff' * 33, b'True'])
    return r.randbytes(spec['len'])


def blob_spec(rng, big=0.0):
    n = rng.choice([0, 1, 2, 3, 15, 16, 17, 100, 1000, 5000])
    if rng.random() < big:
        n = rng.choice([2**16 + 1, 2**16 + 1, 200_000, 200_000, 300_000, 2**20 - 40, 2**20, 2**20 + 1, 2**20 * 2 + 7])
    return {'seed': rng.randrange(10**6), 'len': n, 'kind': rng.choice(['rand', 'rand', 'zero', 'text', 'gzip', 'b64', 'odd'])}


# ---------------------------------------------------------------- configuration
def config(rng, majors=(3, 4), ciphers=('aes256', 'chacha20', 'twofish'), block=None):
    major = rng.choice(majors)
    c = {'major': major, 'minor': 1 if major == 3 else rng.choice([0, 0, 0, 1]), 'cipher': rng.choice(ciphers),
         'comp': rng.choice([0, 1]), 'stream': 'salsa20' if major == 3 else rng.choice(['chacha20', 'chacha20', 'salsa20']),
         'block': block or rng.choice([2**20, 2**20, 64, 333, 1000]), 'indent': rng.random() < 0.5, 'comment': rng.random() < 0.2,
         'pcd': major == 4 and rng.random() < 0.4, 'shuffle': rng.random() < 0.2}
    c['kdf'] = 'aeskdf' if major == 3 else rng.choice(['aeskdf', 'argon2', 'argon2id'])
    if c['kdf'] == 'aeskdf':
        c['R'] = rng.choice([1, 2, 10, 60, 60, 700])
    else:
        c.update(I=rng.choice([1, 2]), M=1024 * rng.choice([8, 16, 64]), P=1)
        if rng.random() < 0.25:
            c.update(P=rng.choice([2, 3]), M=1024 * rng.choice([24, 64, 100]))
    c['hh'] = major == 3
    if c['pcd'] and rng.random() < 0.3:
        c['pcdlen'] = rng.choice([0, 1000, 4096, 70_000])
    if c['comment'] and rng.random() < 0.3:
        c['commentlen'] = rng.choice([1000, 60_000])
    if major == 4 and rng.random() < 0.15:
        c['kdfextra'] = True
    if c['kdf'] != 'aeskdf' and rng.random() < 0.1:
        c['V'] = 0x10
    return c


# ---------------------------------------------------------------- key files
KF_KINDS = ['raw32', 'hex64', 'HEX64', 'xml1', 'xml2', 'hash', 'hashtext', 'near32', 'near64', 'empty1', 'big']


def keyfile(kind, seed):
    r = random.Random(seed)
    k = r.randbytes(32)
    if kind == 'raw32':
        return k
    if kind == 'hex64':
        return k.hex().encode()
    if kind == 'HEX64':
        return k.hex().upper().encode()
    if kind == 'xml1':
        return ('<?xml version="1.0" encoding="utf-8"?>\n<KeyFile>\n\t<Meta>\n\t\t<Version>1.00</Version>\n\t</Meta>\n\t<Key>\n\t\t'
                '<Data>%s</Data>\n\t</Key>\n</KeyFile>\n' % base64.b64encode(k).decode()).encode()
    if kind == 'xml2':
        h = k.hex().upper()
        lines = '\n\t\t\t'.join(' '.join(h[i:i + 8] for i in range(j, j + 32, 8)) for j in (0, 32))
        return ('<?xml version="1.0" encoding="utf-8"?>\n<KeyFile>\n\t<Meta>\n\t\t<Version>2.0</Version>\n\t</Meta>\n\t<Key>\n\t\t'
                '<Data Hash="%s">\n\t\t\t%s\n\t\t</Data>\n\t</Key>\n</KeyFile>\n' % (ref.sha256(k)[:4].hex().upper(), lines)).encode()
    if kind == 'hash':
        return r.randbytes(r.choice([5, 31, 33, 63, 65, 100, 4000]))
    if kind == 'big':
        return r.randbytes(r.choice([4096, 4097, 8191, 8193, 65536, 65537, 200_000]))
    if kind == 'hashtext':
        return b'just some text file %d\n' % seed
    if kind == 'near32':
        return k + b'\n'
    if kind == 'near64':
        return (k.hex()[:-1] + 'g').encode()
    if kind == 'empty1':
        return b'\x00'
    raise ValueError(kind)


# ---------------------------------------------------------------- XML
def sub(p, tag, text=None, **attr):
    e = ET.SubElement(p, tag, {k.rstrip('_'): v for k, v in attr.items()})
    e.text = text if text else None
    return e


def b64(b):
    return base64.b64encode(b).decode()


def times(rng, p, major, foreign):
    t = sub(p, 'Times')
    base = rng.randint(1_000_000_000, 1_650_000_000)
    items = [(k, ref.fmt_time(base + rng.randint(-10**8, 10**8), major)) for k in ref.TIME_TAGS]
    items += [('Expires', rng.choice(['True', 'False'])), ('UsageCount', str(rng.randint(0, 9)))]
    if rng.random() < 0.3:
        rng.shuffle(items)
    for k, v in items:
        sub(t, k, v)
    if foreign and rng.random() < 0.15:
        sub(t, 'X-LastSeen', 'never', by='other')


def foreign_nodes(rng, p, where):
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(7)
        if k == 0:
            e = sub(p, 'X-%s%d' % (where, rng.randint(0, 9)), text(rng), flag='1', note=rng.choice(['a', 'b"c', 'ü']))
        elif k == 1:
            e = sub(p, 'CustomData')
            for i in range(rng.randint(1, 3)):
                it = sub(e, 'Item')
                sub(it, 'Key', 'key%d' % i)
                v = sub(it, 'Value', text(rng))
                if rng.random() < 0.3:      # out of reach of the API, but part of the inner key stream
                    v.set('Protected', 'True')
        elif k == 2:
            e = sub(p, 'X-Nested', None, v='2')
            sub(sub(sub(e, 'Level1'), 'Level2', None, a='b'), 'Level3', rng.choice(WORDS))
        elif k == 3:
            sub(p, 'PreviousParentGroup', b64(rng.randbytes(16)))
        elif k == 5:
            sub(p, '!comment', ' kept by another program %d ' % rng.randint(0, 99))
        elif k == 6:
            sub(p, '!pi', 'plugin state="%d"' % rng.randint(0, 99))
        else:
            sub(p, 'X-Empty')
        if k == 1:
            return


def entry(rng, p, cfg, size, foreign, uuid=None, hist=True):
    major = cfg['major']
    e = sub(p, 'Entry')
    uuid = uuid or rng.randbytes(16)
    sub(e, 'UUID', b64(uuid))
    if rng.random() < 0.85:
        sub(e, 'IconID', rng.choice(ICONS))
    if foreign and rng.random() < 0.4:
        sub(e, 'ForegroundColor', rng.choice(['', '#112233']))
        sub(e, 'BackgroundColor', rng.choice(['', '#445566']))
        sub(e, 'OverrideURL', rng.choice(['', 'cmd://x']))
        if rng.random() < 0.3:
            sub(e, 'QualityCheck', rng.choice(['True', 'False']))
        if rng.random() < 0.3:
            sub(e, 'CustomIconUUID', b64(rng.randbytes(16)))
    if rng.random() < 0.5:
        sub(e, 'Tags', rng.choice(['', 'one', 'one;two', 'a,b', 'x;y;z', 'ü;ß']))
    strings = [('Title', name(rng), 'False'), ('UserName', text(rng), 'False'), ('Password', text(rng), 'True')]
    if rng.random() < 0.6:
        strings.append(('URL', text(rng), rng.choice(['False', 'False', 'True'])))
    if rng.random() < 0.6:
        strings.append(('Notes', text(rng), rng.choice(['False', 'False', 'True'])))
    if rng.random() < 0.2:
        strings.append(('otp', 'otpauth://totp/x?secret=%d' % rng.randint(0, 10**6), 'True'))
    for k in rng.sample(CUSTOM_KEYS, rng.choice([0, 0, 1, 2, 4])):
        strings.append((k, text(rng), rng.choice(['True', 'False'])))
    if rng.random() < 0.5:
        rng.shuffle(strings)
    parts = [('s', x) for x in strings] + [('times', None), ('auto', None)]
    if size['binaries'] and rng.random() < 0.6:
        parts += [('bin', None)] * rng.randint(1, 2)
    if foreign and rng.random() < 0.3:
        parts.append(('x', None))
    if rng.random() < 0.3:
        rng.shuffle(parts)
    nbin = 0
    for kind, v in parts:
        if kind == 's':
            s = sub(e, 'String')
            sub(s, 'Key', v[0])
            val = sub(s, 'Value', v[1])
            if v[2] == 'True' or rng.random() < 0.1:
                val.set('Protected', v[2])
        elif kind == 'times':
            times(rng, e, major, foreign)
        elif kind == 'auto':
            a = sub(e, 'AutoType')
            sub(a, 'Enabled', rng.choice(['True', 'False']))
            sub(a, 'DataTransferObfuscation', rng.choice(['0', '1']))
            sub(a, 'DefaultSequence', rng.choice(['', '{USERNAME}{TAB}{PASSWORD}']))
            for _ in range(rng.choice([0, 1, 1, 2])):
                s = sub(a, 'Association')
                sub(s, 'Window', rng.choice(['', 'Firefox*', 'täst']))
                sub(s, 'KeystrokeSequence', rng.choice(['', '{ENTER}']))
        elif kind == 'bin':
            b = sub(e, 'Binary')
            sub(b, 'Key', 'file%d%s' % (nbin, rng.choice(['.txt', ' ä.bin', "'s.pdf"])))
            sub(b, 'Value', None, Ref=str(rng.randrange(size['binaries'])))
            nbin += 1
        else:
            foreign_nodes(rng, e, 'entry')
    if hist and rng.random() < 0.3:
        h = sub(e, 'History')
        for _ in range(rng.randint(0, 2)):
            entry(rng, h, cfg, size, foreign, uuid, False)
    return uuid


def group(rng, p, cfg, size, foreign, depth, groups):
    g = sub(p, 'Group')
    u = rng.randbytes(16)
    groups.append(u)
    parts = [('UUID', b64(u)), ('Name', text(rng)), ('IconID', rng.choice(ICONS))]
    if rng.random() < 0.5:
        parts.insert(2, ('Notes', text(rng)))
    for k, v in parts:
        sub(g, k, v)
    times(rng, g, cfg['major'], foreign)
    if foreign:
        sub(g, 'IsExpanded', rng.choice(['True', 'False']))
        sub(g, 'DefaultAutoTypeSequence')
        sub(g, 'EnableSearching', rng.choice(['null', 'true', 'false']))
        if rng.random() < 0.5:
            sub(g, 'EnableAutoType', rng.choice(['null', 'true', 'false']))
            sub(g, 'LastTopVisibleEntry', b64(rng.randbytes(16)))
            if rng.random() < 0.6:
                sub(g, 'CustomIconUUID', b64(rng.randbytes(16)))
            if rng.random() < 0.3:
                sub(g, 'Tags', 'group;tags')
        if rng.random() < 0.3:
            foreign_nodes(rng, g, 'group')
    n_e = rng.randint(0, size['entries'])
    n_g = rng.randint(0, size['groups']) if depth < size['depth'] else 0
    order = ['e'] * n_e + ['g'] * n_g
    if foreign and rng.random() < 0.25:
        rng.shuffle(order)
    for o in order:
        if o == 'e':
            entry(rng, g, cfg, size, foreign)
        else:
            group(rng, g, cfg, size, foreign, depth + 1, groups)


def build(rng, cfg, size, foreign=True):
    """-> (KeePassFile element, binaries for KDBX4)"""
    major = cfg['major']
    f = ET.Element('KeePassFile')
    m = sub(f, 'Meta')
    items = []
    add = lambda tag, text=None: items.append((tag, text))
    add('Generator', rng.choice(['KeePass', 'KeePassXC']))
    if cfg.get('hh'):
        add('HeaderHash', 'x')
    T = lambda: ref.fmt_time(rng.randint(1_300_000_000, 1_650_000_000), major)
    add('DatabaseName', text(rng)); add('DatabaseNameChanged', T())
    add('DatabaseDescription', text(rng)); add('DatabaseDescriptionChanged', T())
    add('DefaultUserName', text(rng)); add('DefaultUserNameChanged', T())
    add('MaintenanceHistoryDays', rng.choice(['365', '0', '1'])); add('Color')
    add('MasterKeyChanged', T())
    add('MasterKeyChangeRec', rng.choice(['-1', '-1', '0', '1', '182']))
    add('MasterKeyChangeForce', rng.choice(['-1', '-1', '0', '2', '365']))
    add('RecycleBinEnabled', rng.choice(['True', 'False']))
    add('RecycleBinUUID', 'bin'); add('RecycleBinChanged', T())
    add('EntryTemplatesGroup', b64(bytes(16))); add('HistoryMaxItems', rng.choice(['10', '10', '-1', '0', '1', '2']))
    add('HistoryMaxSize', rng.choice(['6291456', '-1', '0', '100']))
    add('LastSelectedGroup', b64(rng.randbytes(16))); add('LastTopVisibleGroup', b64(bytes(16)))
    if major == 4:
        add('SettingsChanged', T())
    if cfg.get('shuffle'):
        rng.shuffle(items)
    if cfg.get('nomk'):
        items = [x for x in items if x[0] != 'MasterKeyChanged']
    for k, v in items:
        sub(m, k, v)
    mp = sub(m, 'MemoryProtection')
    for k in ('Title', 'UserName', 'Password', 'URL', 'Notes'):
        sub(mp, 'Protect' + k, 'True' if (k == 'Password') != (rng.random() < 0.15) else 'False')
    if foreign:
        ci = sub(m, 'CustomIcons')
        for _ in range(rng.choice([0, 1, 2])):
            ic = sub(ci, 'Icon')
            sub(ic, 'UUID', b64(rng.randbytes(16)))
            sub(ic, 'Data', b64(rng.randbytes(30)))
        if rng.random() < 0.6:
            foreign_nodes(rng, m, 'meta')
    bins = [(blob(blob_spec(rng)), rng.choice([0, 1])) for _ in range(size['binaries'])]
    if major == 3:
        be = sub(m, 'Binaries')
        ids = list(range(len(bins)))
        if foreign and rng.random() < 0.4:
            rng.shuffle(ids)
        for i in ids:
            comp = rng.random() < 0.5
            d = ref.gzip(bins[i][0]) if comp else bins[i][0]
            e = sub(be, 'Binary', b64(d), ID=str(i))
            if comp or rng.random() < 0.5:
                e.set('Compressed', 'True' if comp else 'False')
    root = sub(f, 'Root')
    if foreign and rng.random() < 0.1:
        sub(root, 'X-Before')
    groups = []
    group(rng, root, cfg, size, foreign, 0, groups)
    do = sub(root, 'DeletedObjects')
    if foreign:
        for _ in range(rng.choice([0, 1, 3])):
            o = sub(do, 'DeletedObject')
            # an element may have come back after its deletion
            sub(o, 'UUID', b64(rng.randbytes(16)) if rng.random() < 0.6 else rng.choice([x.text for x in root.iter('UUID')]))
            sub(o, 'DeletionTime', T())
    rb = f.find('Meta/RecycleBinUUID')
    r = rng.random()
    if r < 0.45 and len(groups) > 1:
        rb.text = b64(rng.choice(groups[1:]))
    elif r < 0.55:
        rb.text = b64(rng.randbytes(16))
    else:
        rb.text = b64(bytes(16))
    return f, bins
