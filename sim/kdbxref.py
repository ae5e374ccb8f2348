"""Independent reader and writer for KDBX 3.1 / 4.x files.

Written from the published format, sharing no code with pykeepass (own block cipher glue, stdlib XML
parser, own time and attachment decoding).  The reader is strict: every checksum, block index, padding,
terminator and reference must be right and no byte may be left over, otherwise FormatError / BadCredentials.

A decoded database is a "doc", plain data:
  node  = (tag, ((attr, value), ...), text or None, (child nodes ...))
  times = {'CreationTime': epoch seconds ..., 'Expires': bool, 'UsageCount': text, '*': [other nodes]}
  entry = dict(uuid, icon, tags, strings {key: (value, protected)}, times, autotype, attachments [[name, index into binaries]],
               history [entry], other [node])
  group = dict(uuid, name, notes, icon, times, entries, groups, other)
  doc   = dict(meta [node], root group, root_other [node], binaries [(data, flag)])
"""
import base64
import binascii
import hashlib
import hmac
import re
import struct
import xml.etree.ElementTree as ET
import zlib
from datetime import datetime, timezone

from argon2 import low_level as _argon2
from Cryptodome.Cipher import AES, ChaCha20, Salsa20

from . import twofish

_hash_secret_raw = _argon2.hash_secret_raw   # bound before anything is wrapped


class FormatError(Exception):
    pass


class BadCredentials(FormatError):
    pass


SIG = b'\x03\xd9\xa2\x9a\x67\xfb\x4b\xb5'
CIPHERS = {'aes256': bytes.fromhex('31c1f2e6bf714350be5805216afc5aff'),
           'twofish': bytes.fromhex('ad68f29f576f4bb9a36ad47af965346c'),
           'chacha20': bytes.fromhex('d6038a2b8b6f4cb5a524339a31dbb59a')}
KDFS = {'argon2': bytes.fromhex('ef636ddf8c29444b91f7a9a403e30a0c'),
        'argon2id': bytes.fromhex('9e298b1956db4773b23dfc3ec6f0a1e6'),
        'aeskdf': bytes.fromhex('c9d9f39a628a4460bf740d08c18a4fea')}
STREAMS = {'salsa20': 2, 'chacha20': 3}
YEAR1 = 62135596800       # seconds from 0001-01-01 to 1970-01-01
TIME_TAGS = ('CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime', 'LocationChanged')
sha256 = lambda b: hashlib.sha256(b).digest()
sha512 = lambda b: hashlib.sha512(b).digest()


# ---------------------------------------------------------------- credentials
def keyfile_key(data):
    """32 byte key of a key file's contents"""
    try:
        t = ET.fromstring(data)
        v = t.findtext('Meta/Version')
        d = t.find('Key/Data')
    except Exception:
        v = d = None
    if v is not None and d is not None:
        if v.startswith('1.0'):
            return base64.b64decode(d.text)
        if v.startswith('2.0'):
            k = bytes.fromhex(''.join(d.text.split()))
            if sha256(k)[:4] != bytes.fromhex(d.get('Hash')):
                raise FormatError('key file checksum')
            return k
    if len(data) == 32:
        return data
    if len(data) == 64 and re.fullmatch(rb'[0-9a-fA-F]{64}', data):
        return binascii.unhexlify(data)
    return sha256(data)


def composite(pw, kf):
    parts = b''
    if pw is not None:
        parts += sha256(pw.encode('utf-8'))
    if kf is not None:
        parts += keyfile_key(kf)
    return sha256(parts)


def transform(comp, kdf):
    """kdf = dict(name, S, R) or dict(name, S, I, M, P, V)"""
    if kdf['name'] == 'aeskdf':
        c = AES.new(kdf['S'], AES.MODE_ECB)
        k = comp
        for _ in range(kdf['R']):
            k = c.encrypt(k)
        return sha256(k)
    key = (comp, kdf['name'], kdf['S'], kdf['I'], kdf['M'], kdf['P'], kdf['V'])
    if key not in _tk_cache:
        _tk_cache[key] = _argon(comp, kdf)
    return _tk_cache[key]


_tk_cache = {}


def _argon(comp, kdf):
    return _hash_secret_raw(secret=comp, salt=kdf['S'], hash_len=32, time_cost=kdf['I'], memory_cost=kdf['M'] // 1024,
                            parallelism=kdf['P'], version=kdf['V'],
                            type=_argon2.Type.ID if kdf['name'] == 'argon2id' else _argon2.Type.D)


# ---------------------------------------------------------------- payload ciphers
def _pad(d):
    n = 16 - len(d) % 16
    return d + bytes([n]) * n


def _unpad(d):
    if not d or len(d) % 16 or not 1 <= d[-1] <= 16 or d[-d[-1]:] != bytes([d[-1]]) * d[-1]:
        raise FormatError('payload padding')
    return d[:-d[-1]]


def encrypt(name, key, iv, d):
    if name == 'chacha20':
        return ChaCha20.new(key=key, nonce=iv).encrypt(d)
    if name == 'aes256':
        return AES.new(key, AES.MODE_CBC, iv).encrypt(_pad(d))
    return twofish.cbc_encrypt(key, iv, _pad(d))


def decrypt(name, key, iv, d):
    if name == 'chacha20':
        return ChaCha20.new(key=key, nonce=iv).decrypt(d)
    if len(d) % 16 or not d:
        raise FormatError('payload length')
    if name == 'aes256':
        return AES.new(key, AES.MODE_CBC, iv).decrypt(d)
    return twofish.cbc_decrypt(key, iv, d)


def inner_stream(name, key):
    if name == 'salsa20':
        return Salsa20.new(key=sha256(key), nonce=bytes.fromhex('e830094b97205d2a'))
    h = sha512(key)
    return ChaCha20.new(key=h[:32], nonce=h[32:44])


def gunzip(d):
    o = zlib.decompressobj(31)
    try:
        out = o.decompress(d)
    except zlib.error as e:
        raise FormatError('compression: %s' % e)
    if not o.eof or o.unused_data:
        raise FormatError('compressed data is incomplete or followed by garbage')
    return out


def gzip(d):
    o = zlib.compressobj(6, zlib.DEFLATED, 31)
    return o.compress(d) + o.flush()


# ---------------------------------------------------------------- XML <-> doc
def node(el):
    """canonical, immutable form of an element"""
    kids = tuple(node(c) for c in el)
    text = el.text
    if kids and (text is None or not text.strip()):
        text = None
    return (el.tag, tuple(sorted(el.attrib.items())), text or None, kids)


def parse_time(text, major):
    if text is None:
        return None
    if major >= 4 and not re.match(r'\d{4}-', text):
        raw = base64.b64decode(text, validate=True)
        if len(raw) != 8:
            raise FormatError('time %r' % text)
        return struct.unpack('<q', raw)[0] - YEAR1
    try:
        t = datetime.fromisoformat(text.replace('Z', '+00:00'))
    except ValueError:
        raise FormatError('time %r' % text)
    if t.tzinfo is None:
        t = t.replace(tzinfo=timezone.utc)
    # formats without an offset, or with one, name an instant
    return int((t - datetime(1970, 1, 1, tzinfo=timezone.utc)).total_seconds() // 1)


def fmt_time(secs, major):
    if major >= 4:
        return base64.b64encode(struct.pack('<q', secs + YEAR1)).decode()
    return datetime.fromtimestamp(secs, timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ').rjust(20, '0')


def _bool(text):
    return None if text is None else text == 'True'


def _one(el, tag):
    f = el.findall(tag)
    if len(f) > 1:
        raise FormatError('%s has %d %s elements' % (el.tag, len(f), tag))
    return f[0] if f else None


def _text(el, tag):
    f = _one(el, tag)
    return None if f is None else (f.text or None)


def _uuid(el):
    t = _text(el, 'UUID')
    try:
        u = base64.b64decode(t, validate=True)
    except Exception:
        raise FormatError('bad UUID %r' % t)
    if len(u) != 16:
        raise FormatError('bad UUID %r' % t)
    return u


def _times(el, major):
    t = _one(el, 'Times')
    if t is None:
        return None
    d = {k: parse_time(_text(t, k), major) for k in TIME_TAGS if t.find(k) is not None}
    d['Expires'] = _bool(_text(t, 'Expires'))
    d['UsageCount'] = _text(t, 'UsageCount')
    d['*'] = [node(c) for c in t if c.tag not in TIME_TAGS and c.tag not in ('Expires', 'UsageCount')]
    return d


def split_tags(text):
    return [] if not text else text.replace(',', ';').split(';')


def doc_entry(el, major, binaries, in_history=False):
    e = dict(uuid=_uuid(el), icon=_text(el, 'IconID'), tags=split_tags(_text(el, 'Tags')), strings={},
             times=_times(el, major), autotype=None, attachments=[], history=[], other=[])
    at = _one(el, 'AutoType')
    if at is not None:
        e['autotype'] = node(at)
    for c in el:
        if c.tag == 'String':
            k, v = _one(c, 'Key'), _one(c, 'Value')
            if k is None or v is None:
                raise FormatError('String without Key or Value')
            if k.text in e['strings']:
                raise FormatError('duplicate field %r' % k.text)
            e['strings'][k.text] = (v.text or None, v.get('Protected', 'False') == 'True')
        elif c.tag == 'Binary':
            k, v = _one(c, 'Key'), _one(c, 'Value')
            ref = int(v.get('Ref'))
            # a reference to a missing binary stays what it is
            e['attachments'].append([k.text, binaries.get(ref, ref)])
        elif c.tag == 'History':
            if in_history:
                raise FormatError('history item with a history')
            for h in c:
                if h.tag != 'Entry':
                    raise FormatError('%s in History' % h.tag)
                e['history'].append(doc_entry(h, major, binaries, True))
        elif c.tag not in ('UUID', 'IconID', 'Tags', 'Times', 'AutoType'):
            e['other'].append(node(c))
    if len(el.findall('History')) > 1:
        raise FormatError('two History elements')
    return e


def doc_group(el, major, binaries):
    g = dict(uuid=_uuid(el), name=_text(el, 'Name'), notes=_text(el, 'Notes'), icon=_text(el, 'IconID'),
             times=_times(el, major), entries=[], groups=[], other=[])
    for c in el:
        if c.tag == 'Entry':
            g['entries'].append(doc_entry(c, major, binaries))
        elif c.tag == 'Group':
            g['groups'].append(doc_group(c, major, binaries))
        elif c.tag not in ('UUID', 'Name', 'Notes', 'IconID', 'Times'):
            g['other'].append(node(c))
    return g


META_TIMES = ('DatabaseNameChanged', 'DatabaseDescriptionChanged', 'DefaultUserNameChanged', 'MasterKeyChanged',
              'RecycleBinChanged', 'EntryTemplatesGroupChanged', 'SettingsChanged')


def doc_of(root, major, inner_binaries):
    if root.tag != 'KeePassFile':
        raise FormatError('root element %s' % root.tag)
    meta, top = _one(root, 'Meta'), _one(root, 'Root')
    binaries = []
    if major >= 4:
        binaries = [(d[1:], d[0]) for d in inner_binaries]
        bmap = {i: i for i in range(len(binaries))}
    else:
        bmap = {}
        for b in (meta.find('Binaries') if meta.find('Binaries') is not None else ()):
            raw = base64.b64decode(b.text or '')
            comp = b.get('Compressed') == 'True'
            data = (gunzip(raw) if raw else b'') if comp else raw
            i = int(b.get('ID'))
            if i in bmap:
                raise FormatError('duplicate binary ID %d' % i)
            bmap[i] = None
            binaries.append((i, data, comp))
        binaries.sort(key=lambda b: b[0])
        bmap = {b[0]: n for n, b in enumerate(binaries)}
        binaries = [(d, c) for _, d, c in binaries]
    groups = top.findall('Group')
    if len(groups) != 1:
        raise FormatError('%d root groups' % len(groups))
    m = []
    for c in meta:
        if c.tag in ('HeaderHash', 'Binaries') and major < 4:
            continue
        if c.tag in META_TIMES:
            m.append((c.tag, tuple(sorted(c.attrib.items())), parse_time(c.text, major), tuple(node(k) for k in c)))
        else:
            m.append(node(c))
    return dict(meta=sorted(m, key=repr), root=doc_group(groups[0], major, bmap),
                root_other=[node(c) for c in top if c.tag != 'Group'], binaries=binaries,
                file_other=[node(c) for c in root if c.tag not in ('Meta', 'Root')])


def parse_xml(xml):
    try:
        root = ET.fromstring(xml, ET.XMLParser(target=ET.TreeBuilder(insert_comments=True, insert_pis=True)))
    except ET.ParseError as e:
        raise FormatError('XML: %s' % e)
    for el in root.iter():
        if el.tag in (ET.Comment, ET.PI):
            el.tag = '!comment' if el.tag is ET.Comment else '!pi'
    return root


# ---------------------------------------------------------------- reader
class Decoded:
    pass


def read_header(data):
    """outer header -> (major, minor, [(id, raw)], end offset)"""
    if data[:8] != SIG:
        raise FormatError('signature')
    minor, major = struct.unpack('<HH', data[8:12])
    if major not in (3, 4):
        raise FormatError('version %d.%d' % (major, minor))
    off, fields = 12, []
    lf, ls = ('<BH', 3) if major == 3 else ('<BI', 5)
    while True:
        if off + ls > len(data):
            raise FormatError('truncated header')
        i, n = struct.unpack(lf, data[off:off + ls])
        off += ls
        if off + n > len(data):
            raise FormatError('truncated header')
        fields.append((i, data[off:off + n]))
        off += n
        if i == 0:
            return major, minor, fields, off


def read_variant(data):
    if data[:2] != b'\x00\x01':
        raise FormatError('variant dictionary version')
    off, d = 2, {}
    while True:
        t = data[off]
        off += 1
        if t == 0:
            break
        n = struct.unpack('<I', data[off:off + 4])[0]
        k = data[off + 4:off + 4 + n].decode()
        off += 4 + n
        n = struct.unpack('<I', data[off:off + 4])[0]
        v = data[off + 4:off + 4 + n]
        if len(v) != n:
            raise FormatError('truncated variant dictionary')
        off += 4 + n
        conv = {0x04: '<I', 0x05: '<Q', 0x08: '<?', 0x0c: '<i', 0x0d: '<q'}
        d[k] = (t, struct.unpack(conv[t], v)[0] if t in conv else v)
    if off != len(data):
        raise FormatError('garbage after variant dictionary')
    return d


def read(data, pw=None, kf=None, transformed=None):
    """decode completely; kf = contents of the key file"""
    r = Decoded()
    r.major, r.minor, r.fields, off = read_header(data)
    f = dict(r.fields)
    if len(f) != len(r.fields):
        raise FormatError('duplicate header field')
    r.header = data[:off]
    r.cipher = {v: k for k, v in CIPHERS.items()}.get(f.get(2))
    if r.cipher is None:
        raise FormatError('cipher id')
    if len(f[3]) != 4:
        raise FormatError('compression field')
    r.comp = struct.unpack('<I', f[3])[0]
    if r.comp not in (0, 1):
        raise FormatError('compression field')
    r.seed, r.iv = f[4], f[7]
    if len(r.seed) != 32 or len(r.iv) != (12 if r.cipher == 'chacha20' else 16):
        raise FormatError('seed or iv length')
    if r.major == 4:
        v = read_variant(f[11])
        names = {b: a for a, b in KDFS.items()}
        r.kdf = dict(name=names[v['$UUID'][1]], **{k: x[1] for k, x in v.items() if k != '$UUID'})
        r.kdf_types = {k: x[0] for k, x in v.items()}
        r.pcd = f.get(12)
    else:
        r.kdf = dict(name='aeskdf', S=f[5], R=struct.unpack('<Q', f[6])[0])
        r.pcd = None
    r.tk = transformed if transformed is not None else transform(composite(pw, kf), r.kdf)
    r.key = sha256(r.seed + r.tk)
    if r.major == 4:
        base = sha512(r.seed + r.tk + b'\x01')
        if data[off:off + 32] != sha256(r.header):
            raise FormatError('header checksum')
        if data[off + 32:off + 64] != hmac.new(sha512(b'\xff' * 8 + base), r.header, hashlib.sha256).digest():
            raise BadCredentials('header authentication')
        off += 64
        blocks, i = [], 0
        r.block_sizes = []
        while True:
            mac = data[off:off + 32]
            if off + 36 > len(data):
                raise FormatError('truncated payload')
            n = struct.unpack('<I', data[off + 32:off + 36])[0]
            blk = data[off + 36:off + 36 + n]
            if len(blk) != n:
                raise FormatError('truncated payload')
            ix = struct.pack('<Q', i)
            if mac != hmac.new(sha512(ix + base), ix + struct.pack('<I', n) + blk, hashlib.sha256).digest():
                raise FormatError('block %d authentication' % i)
            off += 36 + n
            i += 1
            if n == 0:
                break
            blocks.append(blk)
            r.block_sizes.append(n)
        if off != len(data):
            raise FormatError('%d bytes after the last block' % (len(data) - off))
        plain = decrypt(r.cipher, r.key, r.iv, b''.join(blocks))
        if r.cipher != 'chacha20':
            plain = _unpad(plain)
        if r.comp:
            plain = gunzip(plain)
        r.plain = plain
        off, inner, bins = 0, [], []
        while True:
            if off + 5 > len(plain):
                raise FormatError('truncated inner header')
            t, n = struct.unpack('<BI', plain[off:off + 5])
            d = plain[off + 5:off + 5 + n]
            if len(d) != n:
                raise FormatError('truncated inner header')
            off += 5 + n
            inner.append((t, d))
            if t == 3:
                if not d:
                    raise FormatError('binary without flag byte')
                bins.append(d)
            if t == 0:
                break
        r.inner = inner
        di = {t: d for t, d in inner if t != 3}
        r.stream = {b: a for a, b in STREAMS.items()}.get(struct.unpack('<I', di[1])[0])
        r.stream_key = di[2]
        xml = plain[off:]
    else:
        plain = decrypt(r.cipher, r.key, r.iv, data[off:])
        if plain[:32] != f[9]:
            raise BadCredentials('start bytes')
        if r.cipher != 'chacha20':
            plain = _unpad(plain)
        if len(f[9]) != 32:
            raise FormatError('start bytes length')
        off, i, blocks = 32, 0, []
        r.block_sizes = []
        while True:
            if off + 40 > len(plain):
                raise FormatError('truncated payload')
            ix, h, n = struct.unpack('<I32sI', plain[off:off + 40])
            blk = plain[off + 40:off + 40 + n]
            if len(blk) != n:
                raise FormatError('truncated payload')
            if ix != i:
                raise FormatError('block index %d, expected %d' % (ix, i))
            off += 40 + n
            i += 1
            if n == 0:
                if h != bytes(32):
                    raise FormatError('final block checksum')
                break
            if h != sha256(blk):
                raise FormatError('block %d checksum' % ix)
            blocks.append(blk)
            r.block_sizes.append(n)
        if off != len(plain):
            raise FormatError('%d bytes after the last block' % (len(plain) - off))
        xml = b''.join(blocks)
        if r.comp:
            xml = gunzip(xml)
        r.plain = xml
        r.inner, bins = [], []
        r.stream = {b: a for a, b in STREAMS.items()}.get(struct.unpack('<I', f[10])[0])
        r.stream_key = f[8]
    if r.stream is None:
        raise FormatError('inner stream id')
    r.xml = xml
    root = parse_xml(xml)
    if r.major == 3:
        hh = root.findtext('Meta/HeaderHash')
        r.header_hash = hh
        if hh and base64.b64decode(hh) != sha256(r.header):
            raise FormatError('HeaderHash')
    stream = inner_stream(r.stream, r.stream_key)
    r.protected = []
    for el in root.iter():
        if el.get('Protected') == 'True' and el.text:
            try:
                raw = base64.b64decode(el.text, validate=True)
                el.text = stream.decrypt(raw).decode('utf-8')
            except Exception as e:
                raise FormatError('protected value: %s' % e)
            r.protected.append((raw, el.text))
    r.root = root
    r.doc = doc_of(root, r.major, bins)
    return r


# ---------------------------------------------------------------- writer
def _esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    if attr:
        s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')
    return s


def render(el, indent, level=0):
    pad = '\n' + '\t' * level if indent else ''
    a = ''.join(' %s="%s"' % (k, _esc(v, True)) for k, v in el.attrib.items())
    if el.tag in ('!comment', '!pi'):
        return pad + ('<!--%s-->' if el.tag == '!comment' else '<?%s?>') % el.text
    if len(el):
        return '%s<%s%s>%s%s%s</%s>' % (pad, el.tag, a, _esc(el.text or ''), ''.join(render(c, indent, level + 1) for c in el),
                                        pad, el.tag)
    if el.text:
        return '%s<%s%s>%s</%s>' % (pad, el.tag, a, _esc(el.text), el.tag)
    return '%s<%s%s />' % (pad, el.tag, a)


def variant(items):
    out = b'\x00\x01'
    for t, k, v in items:
        v = {0x04: lambda: struct.pack('<I', v), 0x05: lambda: struct.pack('<Q', v), 0x08: lambda: struct.pack('<?', v),
             0x0c: lambda: struct.pack('<i', v), 0x0d: lambda: struct.pack('<q', v)}.get(t, lambda: v)()
        out += bytes([t]) + struct.pack('<I', len(k.encode())) + k.encode() + struct.pack('<I', len(v)) + v
    return out + b'\x00'


def _blocks(d, size):
    return [d[i:i + size] for i in range(0, len(d), size)]


def write(root, cfg, pw, kf, rng, binaries=()):
    """root: ElementTree element of KeePassFile with clear texts (Protected="True" marks what to encrypt);
    binaries: [(data, flag byte)] for KDBX4.  cfg: see gen.config()."""
    rb = rng.randbytes
    major = cfg['major']
    kdf = dict(name=cfg['kdf'], S=rb(32))
    if cfg['kdf'] == 'aeskdf':
        kdf['R'] = cfg['R']
    else:
        kdf.update(I=cfg['I'], M=cfg['M'], P=cfg['P'], V=cfg.get('V', 0x13))
    seed, iv, skey = rb(32), rb(12 if cfg['cipher'] == 'chacha20' else 16), rb(64 if major == 4 else 32)
    sid = struct.pack('<I', STREAMS[cfg['stream']])
    fields = [(2, CIPHERS[cfg['cipher']]), (3, struct.pack('<I', cfg['comp'])), (4, seed), (7, iv)]
    if major == 4:
        if cfg['kdf'] == 'aeskdf':
            vd = [(0x42, '$UUID', KDFS['aeskdf']), (0x05, 'R', kdf['R']), (0x42, 'S', kdf['S'])]
        else:
            vd = [(0x42, '$UUID', KDFS[cfg['kdf']]), (0x05, 'I', kdf['I']), (0x05, 'M', kdf['M']), (0x04, 'P', kdf['P']),
                  (0x42, 'S', kdf['S']), (0x04, 'V', kdf['V'])]
        if cfg.get('kdfextra'):     # parameters this library knows nothing about
            vd += [(0x18, 'note', b'tuned'), (0x0c, 'z', -3), (0x42, 'raw', rb(5)), (0x05, 'big', 2**63 + 1), (0x08, 'f', False)]
            rng.shuffle(vd)
        fields.append((11, variant(vd)))
        if cfg.get('pcd'):
            fields.append((12, variant([(0x18, 'plugin.key', b'some value'), (0x08, 'flag', True), (0x0d, 'n', -5),
                                        (0x42, 'blob', rb(cfg.get('pcdlen', 9)))])))
    else:
        start = rb(32)
        fields += [(5, kdf['S']), (6, struct.pack('<Q', kdf['R'])), (8, skey), (9, start), (10, sid)]
    if cfg.get('comment'):
        fields.append((1, b'written elsewhere' + rb(cfg.get('commentlen', 0))))
    if cfg.get('shuffle'):
        rng.shuffle(fields)
    fields.append((0, b'\r\n\r\n'))
    header = SIG + struct.pack('<HH', cfg['minor'], major)
    for i, d in fields:
        header += struct.pack('<BH' if major == 3 else '<BI', i, len(d)) + d
    tk = transform(composite(pw, kf), kdf)
    key = sha256(seed + tk)
    import copy
    root = copy.deepcopy(root)
    if major == 3:
        hh = root.find('Meta/HeaderHash')
        if hh is not None:
            hh.text = base64.b64encode(sha256(header)).decode()
    stream = inner_stream(cfg['stream'], skey)
    for el in root.iter():
        if el.get('Protected') == 'True' and el.text:
            el.text = base64.b64encode(stream.encrypt(el.text.encode('utf-8'))).decode()
    xml = ('<?xml version="1.0" encoding="utf-8" standalone="yes"?>' + render(root, cfg.get('indent'))).encode('utf-8')
    size = cfg['block']
    if major == 4:
        plain = struct.pack('<BI', 1, 4) + sid + struct.pack('<BI', 2, len(skey)) + skey
        for d, fl in binaries:
            plain += struct.pack('<BI', 3, len(d) + 1) + bytes([fl]) + d
        plain += struct.pack('<BI', 0, 0) + xml
        if cfg['comp']:
            plain = gzip(plain)
        body = encrypt(cfg['cipher'], key, iv, plain)
        base = sha512(seed + tk + b'\x01')
        out = header + sha256(header) + hmac.new(sha512(b'\xff' * 8 + base), header, hashlib.sha256).digest()
        for i, b in enumerate(_blocks(body, size) + [b'']):
            ix = struct.pack('<Q', i)
            n = struct.pack('<I', len(b))
            out += hmac.new(sha512(ix + base), ix + n + b, hashlib.sha256).digest() + n + b
        return out
    if cfg['comp']:
        xml = gzip(xml)
    plain = start
    for i, b in enumerate(_blocks(xml, size) + [b'']):
        plain += struct.pack('<I', i) + (sha256(b) if b else bytes(32)) + struct.pack('<I', len(b)) + b
    return header + encrypt(cfg['cipher'], key, iv, plain)
