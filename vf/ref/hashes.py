"""Hash functions, from their specifications. BLAKE is written out here (from
the SHA-3 submission document); the others are the interpreter's."""
import hashlib


def sha256(b):
    return hashlib.sha256(b).digest()


def sha256d(b):
    return sha256(sha256(b))


def rmd160(b):
    h = hashlib.new('ripemd160')
    h.update(b)
    return h.digest()


def blake2b_256(person, b):
    return hashlib.blake2b(b, digest_size=32, person=person).digest()


# -- BLAKE (SHA-3 final round) -------------------------------------------

SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]


def _primes(n):
    ps = []
    c = 2
    while len(ps) < n:
        if all(c % p for p in ps):
            ps.append(c)
        c += 1
    return ps


def _frac_sqrt(p, bits):
    """the first `bits` bits of the fraction of sqrt(p)"""
    import math
    r = math.isqrt(p << (2 * bits))
    return r & ((1 << bits) - 1)


# IVs: SHA-256, SHA-224, SHA-512 and SHA-384 initial values by definition
_P = _primes(16)
IV512 = [_frac_sqrt(p, 64) for p in _P[:8]]
IV384 = [_frac_sqrt(p, 64) for p in _P[8:16]]
IV256 = [_frac_sqrt(p, 32) for p in _P[:8]]
IV224 = [v & 0xffffffff for v in IV384]


def _pi_words():
    """The first fractional bits of pi, as 64-bit words (Machin's formula)."""
    bits = 64 * 16 + 64
    one = 1 << bits

    def arctan_inv(x):
        total = term = one // x
        n, sign, x2 = 3, -1, x * x
        while term:
            term //= x2
            total += sign * (term // n)
            n += 2
            sign = -sign
        return total
    pi = 4 * (4 * arctan_inv(5) - arctan_inv(239))
    frac = pi & (one - 1)
    return [(frac >> (bits - 64 * (i + 1))) & (2 ** 64 - 1)
            for i in range(16)]


C64 = _pi_words()
C32 = []
for _w in C64[:8]:
    C32 += [_w >> 32, _w & 0xffffffff]


def blake(bits, message, salt=None):
    """BLAKE-`bits` of whole-byte messages, from the specification text."""
    big = bits in (384, 512)
    w = 64 if big else 32
    wb = w // 8
    mask = (1 << w) - 1
    consts = C64 if big else C32
    rounds = 16 if big else 14
    rot = (32, 25, 16, 11) if big else (16, 12, 8, 7)
    h = list({512: IV512, 384: IV384, 256: IV256, 224: IV224}[bits])
    block = 16 * wb
    salt = salt or bytes(4 * wb)
    s = [int.from_bytes(salt[i * wb:(i + 1) * wb], 'big') for i in range(4)]

    def ror(x, n):
        return ((x >> n) | (x << (w - n))) & mask

    # padding: 1, zeros, then 1 (0 for the short digests), then the length
    nbits = len(message) * 8
    lenbytes = 2 * wb
    zeros = -(len(message) + 1 + lenbytes) % block
    pad = bytearray([0x80]) + bytes(zeros)
    if bits in (256, 512):
        pad[-1] |= 1
    padded = message + bytes(pad) + nbits.to_bytes(lenbytes, 'big')
    assert len(padded) % block == 0

    for off in range(0, len(padded), block):
        chunk = padded[off:off + block]
        m = [int.from_bytes(chunk[i * wb:(i + 1) * wb], 'big')
             for i in range(16)]
        # counter: message bits up to and including this block, or zero if
        # the block holds no message bit
        upto = min(nbits, (off + block) * 8)
        t = upto if off * 8 < nbits else 0
        v = h[:] + [s[i] ^ consts[i] for i in range(4)]
        v += [(t & mask) ^ consts[4], (t & mask) ^ consts[5],
              (t >> w) ^ consts[6], (t >> w) ^ consts[7]]

        def g(a, b, c, d, e, r):
            p = SIGMA[r % 10]
            j, k = p[2 * e], p[2 * e + 1]
            v[a] = (v[a] + v[b] + (m[j] ^ consts[k])) & mask
            v[d] = ror(v[d] ^ v[a], rot[0])
            v[c] = (v[c] + v[d]) & mask
            v[b] = ror(v[b] ^ v[c], rot[1])
            v[a] = (v[a] + v[b] + (m[k] ^ consts[j])) & mask
            v[d] = ror(v[d] ^ v[a], rot[2])
            v[c] = (v[c] + v[d]) & mask
            v[b] = ror(v[b] ^ v[c], rot[3])

        for r in range(rounds):
            g(0, 4, 8, 12, 0, r)
            g(1, 5, 9, 13, 1, r)
            g(2, 6, 10, 14, 2, r)
            g(3, 7, 11, 15, 3, r)
            g(0, 5, 10, 15, 4, r)
            g(1, 6, 11, 12, 5, r)
            g(2, 7, 8, 13, 6, r)
            g(3, 4, 9, 14, 7, r)
        h = [h[i] ^ s[i % 4] ^ v[i] ^ v[i + 8] for i in range(8)]
    return b''.join(x.to_bytes(wb, 'big') for x in h)[:bits // 8]


def blake256(b):
    return blake(256, bytes(b))


def hash160(b, decred=False):
    return rmd160(blake256(b) if decred else sha256(b))


def hash256(b, decred=False):
    return blake256(blake256(b)) if decred else sha256d(b)
