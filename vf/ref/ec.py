"""ECDSA over secp256k1 (SEC 2, SEC 1), just enough to sign and verify."""
import functools
import hashlib

P = 2 ** 256 - 2 ** 32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
     0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)


def _add(a, b):
    """Jacobian a + b; None is infinity"""
    if a is None:
        return b
    if b is None:
        return a
    x1, y1, z1 = a
    x2, y2, z2 = b
    z1z1, z2z2 = z1 * z1 % P, z2 * z2 % P
    u1, u2 = x1 * z2z2 % P, x2 * z1z1 % P
    s1, s2 = y1 * z2 * z2z2 % P, y2 * z1 * z1z1 % P
    h, r = (u2 - u1) % P, (s2 - s1) % P
    if h == 0:
        if r:
            return None
        m = 3 * x1 * x1 % P
        s = 4 * x1 * y1 * y1 % P
        x = (m * m - 2 * s) % P
        return x, (m * (s - x) - 8 * y1 ** 4) % P, 2 * y1 * z1 % P
    h2 = h * h % P
    h3 = h * h2 % P
    v = u1 * h2 % P
    x = (r * r - h3 - 2 * v) % P
    return x, (r * (v - x) - s1 * h3) % P, h * z1 * z2 % P


@functools.lru_cache(maxsize=64)
def _table(point):
    """multiples 1..15 of 16^j times the point"""
    rows, base = [], point + (1,)
    for _ in range(64):
        row, acc = [None], None
        for _ in range(15):
            acc = _add(acc, base)
            row.append(acc)
        rows.append(row)
        base = _add(acc, base)
    return rows


def _mul(point, k):
    acc = None
    for row in _table(point):
        acc = _add(acc, row[k & 15])
        k >>= 4
    return acc


def _affine(a):
    x, y, z = a
    i = pow(z, -1, P)
    return x * i * i % P, y * i * i * i % P


@functools.lru_cache(maxsize=64)
def key(seed):
    """(secret, public point) of a numbered test key"""
    d = int.from_bytes(hashlib.sha256(b'key %d' % seed).digest(), 'big')
    d = d % (N - 1) + 1
    return d, _affine(_mul(G, d))


def pubkey(seed, compressed=True):
    x, y = key(seed)[1]
    if compressed:
        return bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def point(data):
    """The point of an encoded public key, or None."""
    if len(data) == 65 and data[0] == 4:
        x, y = (int.from_bytes(data[1:33], 'big'),
                int.from_bytes(data[33:], 'big'))
    elif len(data) == 33 and data[0] in (2, 3):
        x = int.from_bytes(data[1:], 'big')
        y = pow(x ** 3 + 7, (P + 1) // 4, P)
        if y & 1 != data[0] & 1:
            y = P - y
    else:
        return None
    if x >= P or y >= P or (y * y - x ** 3 - 7) % P:
        return None
    return x, y


def _int(v):
    b = v.to_bytes((v.bit_length() + 8) // 8, 'big')
    return b'\x02' + bytes([len(b)]) + b


def sign(seed, digest):
    """A DER signature with a low s."""
    d, _ = key(seed)
    z = int.from_bytes(digest, 'big')
    n = 0
    while True:
        k = int.from_bytes(hashlib.sha256(
            b'nonce' + d.to_bytes(32, 'big') + digest
            + bytes([n])).digest(), 'big') % N
        n += 1
        if not k:
            continue
        r = _affine(_mul(G, k))[0] % N
        s = pow(k, -1, N) * (z + r * d) % N
        if r and s:
            break
    body = _int(r) + _int(min(s, N - s))
    return b'\x30' + bytes([len(body)]) + body


def _read_int(b):
    if len(b) < 3 or b[0] != 2 or not 0 < b[1] <= len(b) - 2:
        return None, b
    v = b[2:2 + b[1]]
    if v[0] & 0x80 or (len(v) > 1 and not v[0] and not v[1] & 0x80):
        return None, b
    return int.from_bytes(v, 'big'), b[2 + b[1]:]


def verify(pub, der, digest):
    """Strict DER, low s."""
    q = point(pub)
    if q is None or len(der) < 8 or der[0] != 0x30 \
            or der[1] != len(der) - 2:
        return False
    r, rest = _read_int(der[2:])
    if r is None:
        return False
    s, rest = _read_int(rest)
    if s is None or rest or not 0 < r < N or not 0 < s <= N // 2:
        return False
    w = pow(s, -1, N)
    z = int.from_bytes(digest, 'big')
    a = _add(_mul(G, z * w % N), _mul(q, r * w % N))
    return a is not None and _affine(a)[0] % N == r
