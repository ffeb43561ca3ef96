"""Hash functions."""
import hashlib

from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, refuses, sub
from vf.ref import hashes, nets
from riemann import blake256 as b256
from riemann import utils as u

BITS = [224, 256, 384, 512]
BLOCK = {224: 64, 256: 64, 384: 128, 512: 128}


def every_length(tier):
    """every length over two blocks, in one update and byte by byte"""
    for bits in BITS:
        n = BLOCK[bits]
        for k in range(0, 2 * n + 20):
            if tier == 'quick' and not (k % 3 == 0 or -20 < k % n - n < 2
                                        or k % n < 2):
                continue
            yield {'bits': bits, 'm': gen.stretch(k, k), 'cuts': [],
                   'salt': None, 'last': k % 2 == 0, 'arr': False}
            yield {'bits': bits, 'm': gen.stretch(k, k),
                   'cuts': list(range(k)) if k < 70 else [k // 2, k],
                   'salt': gen.stretch(7, n // 4) if k % 2 else None,
                   'last': False, 'arr': True}


@st.composite
def messages(draw):
    bits = draw(st.sampled_from(BITS))
    blk = BLOCK[bits]
    n = draw(st.one_of(
        st.integers(0, 3 * blk),
        st.builds(lambda k, d: max(0, k * blk + d), st.integers(0, 4),
                  st.sampled_from([-18, -17, -16, -10, -9, -8, -2, -1, 0,
                                   1]))))
    cut = st.one_of(st.integers(0, n),
                    st.builds(lambda k, d: min(n, max(0, k * blk + d)),
                              st.integers(0, 3), st.integers(-1, 1)))
    salt = draw(st.one_of(
        st.none(), gen.blob(blk // 4),
        gen.sized(st.integers(0, blk // 4 + 5))))
    return {'bits': bits, 'm': draw(gen.blob(n)),
            'cuts': sorted(draw(st.lists(cut, max_size=6))), 'salt': salt,
            'last': draw(st.booleans()), 'arr': draw(st.booleans())}


def fit(salt, size):
    """the documented padding and truncation of salts"""
    if salt is None:
        return None
    salt = bytes(max(0, size - len(salt))) + salt
    return salt[len(salt) - size:]


@sub('P25', 'blake', messages(), 1500,
     rule='several updates, a salt or more than one block',
     enum=every_length)
def check_blake(c, info):
    """Any message, split in any way, with any salt."""
    bits, m = c['bits'], c['m']
    blk = BLOCK[bits]
    want = hashes.blake(bits, m, fit(c['salt'], blk // 4))
    info.label(str(bits), 'length %d mod block' % (len(m) % blk)
               if len(m) % blk in (0, blk - 9, blk - 17) else 'other length')
    info.nt(c['cuts'] or c['salt'] is not None or len(m) > blk)
    h = b256.BLAKE(bits)
    if c['salt'] is not None:
        h.addsalt(bytearray(c['salt']) if c['arr'] else c['salt'])
    ends = [0] + c['cuts'] + [len(m)]
    parts = [m[a:b] for a, b in zip(ends, ends[1:])]
    if c['arr']:
        parts = [bytearray(p) for p in parts]
    tail = parts.pop() if c['last'] else b''
    for p in parts:
        h.update(p)
    eq(h.digest(tail) if tail else h.digest(), want, 'BLAKE-%d' % bits)
    eq(h.digest(), want, 'the digest read again')
    eq(h.final(), want, 'the digest read by final()')
    eq(h.hexdigest(), want.hex(), 'the digest in hex')
    eq(h.digest(b'more'), want, 'the digest after more data')
    for p in parts:
        if isinstance(p, bytearray):
            p.extend(b'\x00')
    eq(h.digest(), want, 'the digest after the message changed')


@st.composite
def interleaved(draw):
    a, b = draw(messages()), draw(messages())
    a['cuts'], b['cuts'] = a['cuts'][:3], b['cuts'][:3]
    return {'a': a, 'b': b, 'order': draw(st.lists(
        st.booleans(), min_size=8, max_size=8)), 'tail': draw(st.booleans())}


@sub('P25', 'interleaved', interleaved(), 300, rule='both have two updates')
def check_interleaved(c, info):
    """Hashes computed at the same time do not mix."""
    jobs = []
    for k in ('a', 'b'):
        d = c[k]
        h = b256.BLAKE(d['bits'])
        if d['salt'] is not None:
            h.addsalt(d['salt'])
        ends = [0] + d['cuts'] + [len(d['m'])]
        jobs.append([h, [d['m'][i:j] for i, j in zip(ends, ends[1:])], d])
    info.nt(all(len(j[1]) > 1 for j in jobs))
    for which in c['order']:
        h, parts, _ = jobs[which]
        if parts:
            h.update(parts.pop(0))
    for h, parts, d in reversed(jobs) if c['tail'] else jobs:
        for p in parts:
            h.update(p)
        eq(h.digest(), hashes.blake(
            d['bits'], d['m'], fit(d['salt'], BLOCK[d['bits']] // 4)),
           'one of two interleaved BLAKE-%d' % d['bits'])


@sub('P25', 'text', st.fixed_dictionaries({
    'bits': st.sampled_from(BITS), 's': st.text(max_size=80),
    't': st.text(max_size=80)}), 400,
    rule='the text is longer in bytes than in characters')
def check_text(c, info):
    """Text is hashed in UTF-8."""
    try:
        m = (c['s'] + c['t']).encode('utf-8')
    except UnicodeEncodeError:
        return
    info.nt(len(m) > len(c['s'] + c['t']))
    want = hashes.blake(c['bits'], m)
    h = b256.BLAKE(c['bits'])
    h.update(c['s'])
    eq(h.digest(c['t']), want, 'BLAKE of text')
    h = b256.BLAKE(c['bits'])
    h.update(c['s'])
    h.update(c['t'])
    eq(h.hexdigest(), want.hex(), 'BLAKE of text in two updates')
    h = b256.BLAKE(c['bits'])
    eq(h.hexdigest(c['s'] + c['t']), want.hex(), 'BLAKE hexdigest of text')


@sub('P25', 'salts', st.fixed_dictionaries({
    'bits': st.sampled_from(BITS), 'm': gen.sized(st.integers(0, 140)),
    'salt': gen.sized(st.integers(0, 40)),
    'late': gen.sized(st.integers(0, 40)), 'n': st.integers(0, 600)}), 400,
    rule='every case')
def check_salts(c, info):
    """A salt after the first update is refused; so are unknown sizes."""
    info.nt()
    h = b256.BLAKE(c['bits'])
    h.addsalt(c['late'])
    h.addsalt(c['salt'])      # the last one before any data counts
    h.update(c['m'])
    refuses(lambda: h.addsalt(c['late']), 'a salt after an update')
    want = hashes.blake(c['bits'], c['m'],
                        fit(c['salt'], BLOCK[c['bits']] // 4))
    eq(h.digest(), want, 'the digest after a refused salt')
    refuses(lambda: h.addsalt(c['late']), 'a salt after the digest')
    eq(h.digest(), want, 'the digest after another refused salt')
    if c['n'] not in BITS:
        refuses(lambda: b256.BLAKE(c['n']), 'BLAKE-%d' % c['n'])


@st.composite
def helper_cases(draw):
    return {'net': draw(gen.net(nets.NAMES, 'decred_main')),
            'm': draw(gen.sized(st.one_of(
                st.sampled_from([0, 1, 20, 32, 33, 55, 56, 63, 64, 65, 111,
                                 112, 119, 120, 127, 128, 129]),
                st.integers(0, 300)))),
            'arr': draw(st.booleans())}


@sub('P25', 'helpers', helper_cases(), 2000, rule='a message of more than '
     'one block or a network with its own hash',
     enum=lambda tier: [{'net': n, 'm': m, 'arr': False}
                        for n in nets.NAMES for m in (b'', b'abc')])
def check_helpers(c, info):
    lib.select(c['net'])
    net, m = c['net'], c['m']
    arg = bytearray(m) if c['arr'] else m
    info.nt(len(m) > 64 or nets.is_decred(net))
    eq(u.sha256(arg), hashes.sha256(m), 'sha256')
    eq(u.rmd160(arg), hashes.rmd160(m), 'rmd160')
    eq(u.hash160(arg), nets.hash160(net, m), 'hash160')
    eq(u.hash256(arg), nets.hash256(net, m), 'hash256')
    eq(u.blake256(arg), hashes.blake256(m), 'blake256')
    eq(b256.blake_hash(arg), hashes.blake256(m), 'blake_hash')
    eq(u.blake2b(arg), hashlib.blake2b(m).digest(), 'blake2b')
    eq(u.blake2s(data=arg), hashlib.blake2s(m).digest(), 'blake2s')
    eq(u.hash160(msg_bytes=arg), nets.hash160(net, m), 'hash160 by name')
    eq(u.hash256(msg_bytes=arg), nets.hash256(net, m), 'hash256 by name')
    eq(arg, m, 'the message after hashing')


@st.composite
def blake2(draw):
    big = draw(st.booleans())
    n = 64 if big else 32
    p = 16 if big else 8
    return {'net': draw(st.sampled_from(nets.NAMES)), 'big': big,
            'm': draw(gen.sized(st.integers(0, 200))),
            'size': draw(st.one_of(st.none(), st.integers(1, n))),
            'key': draw(st.one_of(st.none(), gen.sized(
                st.integers(0, n)))),
            'salt': draw(st.one_of(st.none(), gen.sized(
                st.integers(0, p)))),
            'person': draw(st.one_of(st.none(), st.sampled_from(
                [b'ZcashSigHash\x19\x1b\xa8\x5b', b'ZcashPrevoutHash',
                 b'ZcashComputehSig']) if big else gen.blob(8),
                gen.sized(st.integers(0, p))))}


@sub('P25', 'blake2', blake2(), 1500, rule='personalised')
def check_blake2(c, info):
    lib.select(c['net'])
    info.nt(c['person'])
    kw = {}
    if c['size'] is not None:
        kw['digest_size'] = c['size']
    for k in ('key', 'salt', 'person'):
        if c[k] is not None:
            kw[k] = c[k]
    f, g = (u.blake2b, hashlib.blake2b) if c['big'] \
        else (u.blake2s, hashlib.blake2s)
    want = g(c['m'], **kw).digest()
    eq(f(c['m'], **kw), want, 'blake2 with %s' % sorted(kw))
    eq(f(data=c['m'], **kw), want, 'blake2 by name')
    if not c['m']:
        eq(f(**kw), want, 'blake2 of nothing')
    over = dict(kw, person=b'\x01' * 17)
    refuses(lambda: f(c['m'], **over), 'blake2 with a long personalisation')
