"""Twofish with a 256 bit key, written from the published specification, for the reference reader and writer."""

_Q = [
    ([0x8, 0x1, 0x7, 0xD, 0x6, 0xF, 0x3, 0x2, 0x0, 0xB, 0x5, 0x9, 0xE, 0xC, 0xA, 0x4],
     [0xE, 0xC, 0xB, 0x8, 0x1, 0x2, 0x3, 0x5, 0xF, 0x4, 0xA, 0x6, 0x7, 0x0, 0x9, 0xD],
     [0xB, 0xA, 0x5, 0xE, 0x6, 0xD, 0x9, 0x0, 0xC, 0x8, 0xF, 0x3, 0x2, 0x4, 0x7, 0x1],
     [0xD, 0x7, 0xF, 0x4, 0x1, 0x2, 0x6, 0xE, 0x9, 0xB, 0x3, 0x0, 0x8, 0x5, 0xC, 0xA]),
    ([0x2, 0x8, 0xB, 0xD, 0xF, 0x7, 0x6, 0xE, 0x3, 0x1, 0x9, 0x4, 0x0, 0xA, 0xC, 0x5],
     [0x1, 0xE, 0x2, 0xB, 0x4, 0xC, 0x3, 0x7, 0x6, 0xD, 0xA, 0x5, 0xF, 0x9, 0x0, 0x8],
     [0x4, 0xC, 0x7, 0x5, 0x1, 0x6, 0x9, 0xA, 0x0, 0xE, 0xD, 0x8, 0x2, 0xB, 0x3, 0xF],
     [0xB, 0x9, 0x5, 0x1, 0xC, 0x3, 0xD, 0xE, 0x6, 0x4, 0x7, 0xF, 0x2, 0x0, 0x8, 0xA]),
]


def _q(i, x):
    t = _Q[i]
    a, b = x >> 4, x & 15
    for k in (0, 2):
        a1 = a ^ b
        b1 = (a ^ ((b >> 1) | ((b & 1) << 3)) ^ (8 * a)) & 15
        a, b = t[k][a1], t[k + 1][b1]
    return 16 * b + a


Q0 = [_q(0, x) for x in range(256)]
Q1 = [_q(1, x) for x in range(256)]


def _gmul(a, b, poly):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= poly
        b >>= 1
    return r


_MDS = [[0x01, 0xEF, 0x5B, 0x5B], [0x5B, 0xEF, 0xEF, 0x01], [0xEF, 0x5B, 0x01, 0xEF], [0xEF, 0x01, 0xEF, 0x5B]]
_RS = [[0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E], [0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5],
       [0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19], [0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03]]
# column j of the MDS matrix times x, as a little endian word
_M = [[sum(_gmul(_MDS[i][j], x, 0x169) << (8 * i) for i in range(4)) for x in range(256)] for j in range(4)]
_M32 = 0xFFFFFFFF


def _sbox_bytes(j, x, L):
    """key-dependent byte function j applied to x, L = the four key words as byte lists"""
    q = ((Q1, Q1, Q0, Q0, Q1), (Q0, Q1, Q1, Q0, Q0), (Q0, Q0, Q0, Q1, Q1), (Q1, Q0, Q1, Q1, Q0))[j]
    y = q[0][x] ^ L[3][j]
    y = q[1][y] ^ L[2][j]
    y = q[2][y] ^ L[1][j]
    y = q[3][y] ^ L[0][j]
    return q[4][y]


def _rol(x, n):
    return ((x << n) | (x >> (32 - n))) & _M32


class Twofish:
    def __init__(self, key):
        assert len(key) == 32
        w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
        me, mo = w[0::2], w[1::2]
        S = []
        for i in range(4):
            m = key[8 * i:8 * i + 8]
            row = []
            for r in range(4):
                v = 0
                for c in range(8):
                    v ^= _gmul(m[c], _RS[r][c], 0x14D)
                row.append(v)
            S.append(row)
        S.reverse()
        h = lambda x, L: (_M[0][_sbox_bytes(0, x, L)] ^ _M[1][_sbox_bytes(1, x, L)] ^
                          _M[2][_sbox_bytes(2, x, L)] ^ _M[3][_sbox_bytes(3, x, L)])
        self.K = []
        for i in range(20):
            a = h(2 * i, me)
            b = _rol(h(2 * i + 1, mo), 8)
            self.K.append((a + b) & _M32)
            self.K.append(_rol((a + 2 * b) & _M32, 9))
        self.T = [[_M[j][_sbox_bytes(j, x, S)] for x in range(256)] for j in range(4)]

    def _rounds(self, block, enc):
        K, (T0, T1, T2, T3) = self.K, self.T
        x = [int.from_bytes(block[4 * i:4 * i + 4], 'little') for i in range(4)]
        if enc:
            a, b, c, d = x[0] ^ K[0], x[1] ^ K[1], x[2] ^ K[2], x[3] ^ K[3]
            for r in range(16):
                t0 = T0[a & 255] ^ T1[a >> 8 & 255] ^ T2[a >> 16 & 255] ^ T3[a >> 24]
                t1 = T1[b & 255] ^ T2[b >> 8 & 255] ^ T3[b >> 16 & 255] ^ T0[b >> 24]
                c ^= (t0 + t1 + K[2 * r + 8]) & _M32
                c = (c >> 1) | ((c & 1) << 31)
                d = _rol(d, 1) ^ ((t0 + 2 * t1 + K[2 * r + 9]) & _M32)
                a, b, c, d = c, d, a, b
            out = [c ^ K[4], d ^ K[5], a ^ K[6], b ^ K[7]]
        else:
            c, d, a, b = x[0] ^ K[4], x[1] ^ K[5], x[2] ^ K[6], x[3] ^ K[7]
            for r in range(15, -1, -1):
                a, b, c, d = c, d, a, b
                t0 = T0[a & 255] ^ T1[a >> 8 & 255] ^ T2[a >> 16 & 255] ^ T3[a >> 24]
                t1 = T1[b & 255] ^ T2[b >> 8 & 255] ^ T3[b >> 16 & 255] ^ T0[b >> 24]
                c = _rol(c, 1) ^ ((t0 + t1 + K[2 * r + 8]) & _M32)
                d ^= (t0 + 2 * t1 + K[2 * r + 9]) & _M32
                d = (d >> 1) | ((d & 1) << 31)
            out = [a ^ K[0], b ^ K[1], c ^ K[2], d ^ K[3]]
        return b''.join(v.to_bytes(4, 'little') for v in out)

    def encrypt_block(self, b):
        return self._rounds(b, True)

    def decrypt_block(self, b):
        return self._rounds(b, False)


def cbc_encrypt(key, iv, data):
    t = Twofish(key)
    out, prev = [], iv
    for i in range(0, len(data), 16):
        prev = t.encrypt_block((int.from_bytes(data[i:i + 16], 'big') ^ int.from_bytes(prev, 'big')).to_bytes(16, 'big'))
        out.append(prev)
    return b''.join(out)


def cbc_decrypt(key, iv, data):
    t = Twofish(key)
    out, prev = [], iv
    for i in range(0, len(data), 16):
        blk = data[i:i + 16]
        out.append((int.from_bytes(t.decrypt_block(blk), 'big') ^ int.from_bytes(prev, 'big')).to_bytes(16, 'big'))
        prev = blk
    return b''.join(out)
