"""base58check, bech32 (BIP173) and cashaddr, from their specifications."""
from vf.ref import hashes

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
C32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def b58(data):
    zeros = len(data) - len(data.lstrip(b'\x00'))
    n = int.from_bytes(data, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * zeros + s


def unb58(s):
    """bytes, or None"""
    n = 0
    for c in s:
        k = B58.find(c)
        if k < 0 or len(c) != 1:
            return None
        n = n * 58 + k
    zeros = len(s) - len(s.lstrip('1'))
    return b'\x00' * zeros + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def b58check(data, decred=False):
    return b58(data + hashes.hash256(data, decred)[:4])


def unb58check(s, decred=False):
    b = unb58(s)
    if b is None or len(b) < 4:
        return None
    if hashes.hash256(b[:-4], decred)[:4] != b[-4:]:
        return None
    return b[:-4]


def to5(data):
    """8-bit to 5-bit groups, zero-padded"""
    n = len(data) * 8
    pad = -n % 5
    v = int.from_bytes(data, 'big') << pad
    k = (n + pad) // 5
    return [(v >> (5 * (k - 1 - i))) & 31 for i in range(k)]


def from5(groups):
    """bytes, or None when the padding is 5 bits or more, or not zero"""
    v = 0
    for g in groups:
        v = v << 5 | g
    n = len(groups) * 5
    pad = n % 8
    if pad >= 5 or v & ((1 << pad) - 1):
        return None
    return (v >> pad).to_bytes(n // 8, 'big')


def _bech_polymod(values):
    gen = [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3]
    c = 1
    for v in values:
        c0 = c >> 25
        c = ((c & 0x1ffffff) << 5) ^ v
        for i in range(5):
            if c0 >> i & 1:
                c ^= gen[i]
    return c


def _bech_expand(hrp):
    return [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]


def bech32(hrp, groups):
    """any group list, valid checksum"""
    m = _bech_polymod(_bech_expand(hrp) + groups + [0] * 6) ^ 1
    chk = [(m >> 5 * (5 - i)) & 31 for i in range(6)]
    return hrp + '1' + ''.join(C32[g] for g in groups + chk)


def unbech32(s):
    """(hrp, groups) or None"""
    if any(not 33 <= ord(c) <= 126 for c in s):
        return None
    if s.lower() != s and s.upper() != s:
        return None
    s = s.lower()
    if len(s) > 90:
        return None
    i = s.rfind('1')
    if i < 1 or i + 7 > len(s):
        return None
    groups = [C32.find(c) for c in s[i + 1:]]
    if -1 in groups or _bech_polymod(_bech_expand(s[:i]) + groups) != 1:
        return None
    return s[:i], groups[:-6]


def segwit(hrp, ver, prog):
    return bech32(hrp, [ver] + to5(prog))


def unsegwit(hrp, s):
    """(version, program) or None, by BIP173"""
    r = unbech32(s)
    if r is None or r[0] != hrp or not r[1]:
        return None
    ver, prog = r[1][0], from5(r[1][1:])
    if ver > 16 or prog is None or not 2 <= len(prog) <= 40:
        return None
    if ver == 0 and len(prog) not in (20, 32):
        return None
    return ver, prog


def _cash_polymod(values):
    gen = [0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8,
           0x1e4f43e470]
    c = 1
    for v in values:
        c0 = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ v
        for i in range(5):
            if c0 >> i & 1:
                c ^= gen[i]
    return c ^ 1


def cash_groups(prefix, groups):
    pre = [ord(c) & 31 for c in prefix] + [0]
    m = _cash_polymod(pre + groups + [0] * 8)
    chk = [(m >> 5 * (7 - i)) & 31 for i in range(8)]
    return prefix + ':' + ''.join(C32[g] for g in groups + chk)


def cashaddr(prefix, data):
    return cash_groups(prefix, to5(data))


def uncashaddr(prefix, s):
    """payload (version byte and hash) or None; lower case only"""
    head, colon, rest = s.partition(':')
    if head != prefix or not colon or len(rest) < 8:
        return None
    groups = [C32.find(c) for c in rest]
    if -1 in groups:
        return None
    if _cash_polymod([ord(c) & 31 for c in prefix] + [0] + groups) != 0:
        return None
    return from5(groups[:-8])
