"""CompactSize integers."""
import itertools

from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, ok, refuses, sub
from vf.ref import nets, wire

EDGES = sorted({0, 1, 0x7f, 0x80, 0xff, 2 ** 64 - 1} | {
    (1 << b) + d for b in (8, 16, 24, 32, 40, 48, 56) for d in (-1, 0, 1)} | {
    k + d for k in (0xfd, 0xffff, 0x10000, 0xffffffff, 0x100000000)
    for d in (-2, -1, 0, 1, 2)})
NUMBER = st.one_of(
    st.sampled_from(EDGES),
    st.integers(0, 64).flatmap(lambda b: st.integers(0, max(0, 2 ** b - 1))))
NET = gen.net(nets.NAMES)
STRICT = nets.OVERWINTER + nets.SAPLING


@sub('P13', 'encode', st.fixed_dictionaries({'net': NET, 'n': NUMBER}), 3000,
     rule='the number needs more than one byte',
     enum=lambda tier: [{'net': 'bitcoin_main', 'n': n} for n in EDGES]
     + [{'net': 'bitcoin_main', 'n': n} for n in
        range(0, 66000)])
def check_encode(c, info):
    lib.select(c['net'])
    n = c['n']
    want = wire.cs(n)
    info.label('%d bytes' % len(want))
    info.nt(len(want) > 1)
    v = lib.shared.VarInt(n)
    eq(v, want, 'VarInt bytes')
    eq(v.hex(), want.hex(), 'VarInt hex')
    eq(v.number, n, 'VarInt number')
    eq(v.copy(), want, 'VarInt copy')
    w = lib.shared.VarInt.from_bytes(want)
    eq(w.number, n, 'decoded number')
    eq(w, want, 'decoded bytes')
    w = lib.shared.VarInt.from_hex(want.hex())
    eq((w.number, lib.b(w)), (n, want), 'decoded from hex')


@st.composite
def encodings(draw):
    kind = draw(st.sampled_from(['form', 'form', 'form', 'raw']))
    if kind == 'raw':
        b = draw(st.binary(max_size=12))
        if b and draw(st.booleans()):
            b = bytes([draw(st.sampled_from([0xfc, 0xfd, 0xfe, 0xff]))]) \
                + b[1:]
    else:
        n, size = draw(NUMBER), draw(st.sampled_from([1, 3, 5, 9]))
        b = wire.cs(n)
        if size > len(b):
            b = bytes([{3: 0xfd, 5: 0xfe, 9: 0xff}[size]]) \
                + wire.le(n, size - 1)
        b += draw(st.one_of(st.just(b''), st.binary(max_size=9)))
    cut = draw(st.integers(0, 9))
    if cut == 0 and b:
        b = b[:draw(st.integers(0, len(b) - 1))]
    return {'net': draw(NET), 'b': b, 'compact': draw(st.booleans()),
            'arr': draw(st.booleans())}


def forms(tier):
    """encodings all of whose bytes are special, with bytes after them"""
    edge = [0, 1, 0xfc, 0xfd, 0xfe, 0xff]
    for p, n in ((0xfd, 2), (0xfe, 4), (0xff, 8)):
        every = [0, 1, 0xfd, 0xff] if n == 8 and tier != 'quick' else \
            [0, 0xfd, 0xff][:3 if n < 8 else 2] if tier == 'quick' else edge
        for body in itertools.product(every, repeat=n):
            yield {'net': 'bitcoin_main', 'b': bytes((p,) + body) + b'\xfd\xff',
                   'compact': False, 'arr': False}
            yield {'net': 'zcash_sapling_main', 'arr': True,
                   'b': bytes((p,) + body), 'compact': False}


@sub('P13', 'decode', encodings(), 6000,
     rule='a prefix of more than one byte', enum=forms)
def check_decode(c, info):
    lib.select(c['net'])
    b = c['b']
    info.nt(len(b) > 1 and b[0] >= 0xfd)
    want = wire.read_cs(b)
    arg = bytearray(b) if c['arr'] else b
    kw = {'compact': True} if c['compact'] else {}

    def f():
        return lib.shared.VarInt.from_bytes(arg, **kw)
    if want is None:
        info.label('truncated')
        refuses(f, 'truncated VarInt')
        return
    n, used = want
    longer = len(wire.cs(n)) != used
    if longer and (c['compact'] or c['net'] in STRICT):
        info.label('refused longer form')
        refuses(f, 'VarInt longer than needed')
        return
    info.label('longer form' if longer else 'shortest',
               '%d bytes' % used)
    v = f()
    eq(v.number, n, 'decoded number')
    eq(v, b[:used], 'decoded bytes')
    eq(len(v), used, 'bytes used')
    eq(v.copy(), b[:used], 'copy of a decoded VarInt')
    eq(v.copy().number, n, 'number of the copy')


BAD = st.one_of(st.integers(-2 ** 70, -1), st.integers(2 ** 64, 2 ** 72),
                st.sampled_from([-1, 2 ** 64, 2 ** 64 + 1, -2 ** 64,
                                 2 ** 128]))


@sub('P13', 'range', BAD.map(lambda n: {'n': n}), 300,
     rule='every number out of range', enum=lambda tier: [
         {'n': n} for n in (-1, -253, 2 ** 64, 2 ** 64 + 1, 2 ** 65)])
def check_range(c, info):
    lib.select('bitcoin_main')
    info.nt()
    refuses(lambda: lib.shared.VarInt(c['n']), 'VarInt out of range')


@sub('P13', 'stream', st.fixed_dictionaries(
    {'net': NET, 'ns': st.lists(NUMBER, min_size=1, max_size=8)}), 500,
    rule='at least two numbers of different size')
def check_stream(c, info):
    """Numbers written one after another are read back one by one."""
    lib.select(c['net'])
    info.nt(len({len(wire.cs(n)) for n in c['ns']}) > 1)
    b = b''.join(lib.b(lib.shared.VarInt(n)) for n in c['ns'])
    got = []
    while b:
        v = lib.shared.VarInt.from_bytes(b)
        ok(len(v) > 0, 'a VarInt used no bytes')
        got.append(v.number)
        b = b[len(v):]
    eq(got, c['ns'], 'numbers read from a stream')
