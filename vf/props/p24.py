"""Integer and byte-order conversions."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, ok, refuses, sub
from vf.ref import nets
from riemann import utils as u

INT = st.one_of(
    st.integers(0, 70000), gen.U32, gen.U64, st.integers(0, 2 ** 300),
    st.builds(lambda k, d: max(0, (1 << k) + d), st.integers(0, 600),
              st.integers(-2, 2)))


def magnitude(n):
    """big-endian digits of n, by repeated division"""
    out = []
    while n:
        out.append(n % 256)
        n //= 256
    return bytes(reversed(out)) or b'\x00'


@sub('P24', 'unsigned', st.fixed_dictionaries({
    'n': INT, 'pad': st.integers(0, 40)}), 4000, rule='more than one byte',
    enum=lambda tier: [{'n': n, 'pad': n % 5} for n in range(
        70000 if tier == 'thorough' else 2000)])
def check_unsigned(c, info):
    """The shortest forms and back, and with any zero padding."""
    n = c['n']
    want = magnitude(n)
    info.nt(len(want) > 1)
    eq(u.i2be(n), want, 'i2be(%d)' % n)
    eq(u.i2le(n), want[::-1], 'i2le(%d)' % n)
    eq(u.be2i(want), n, 'be2i of the shortest form')
    eq(u.le2i(want[::-1]), n, 'le2i of the shortest form')
    z = bytes(c['pad'])
    eq(u.be2i(z + want), n, 'be2i of a padded form')
    eq(u.le2i(want[::-1] + z), n, 'le2i of a padded form')
    eq(u.le2i(bytearray(want[::-1])), n, 'le2i of a bytearray')


@st.composite
def padded(draw):
    n = draw(INT)
    need = len(magnitude(n)) if n else 0
    return {'n': n, 'w': draw(st.one_of(
        st.sampled_from([0, 1, 2, 4, 8, 20, 32]),
        st.integers(max(0, need - 2), need + 2)))}


@sub('P24', 'padded', padded(), 3000, rule='the width is within one byte of '
     'what the number needs')
def check_padded(c, info):
    n, w = c['n'], c['w']
    d = magnitude(n) if n else b''
    info.nt(abs(len(d) - w) <= 1)
    if len(d) > w:
        info.label('too narrow')
        refuses(lambda: u.i2le_padded(n, w), 'i2le_padded(%d, %d)' % (n, w))
        refuses(lambda: u.i2be_padded(n, w), 'i2be_padded(%d, %d)' % (n, w))
        return
    want = bytes(w - len(d)) + d
    eq(u.i2be_padded(n, w), want, 'i2be_padded(%d, %d)' % (n, w))
    eq(u.i2le_padded(n, w), want[::-1], 'i2le_padded(%d, %d)' % (n, w))
    eq(u.i2be_padded(number=n, length=w), want, 'i2be_padded by name')
    eq(u.i2le_padded(number=n, length=w), want[::-1], 'i2le_padded by name')
    eq(u.be2i(want), n, 'be2i of i2be_padded')
    eq(u.le2i(want[::-1]), n, 'le2i of i2le_padded')


@sub('P24', 'negative', st.fixed_dictionaries({
    'n': st.integers(-2 ** 70, -1), 'w': st.integers(0, 12)}), 300,
    rule='every case', enum=lambda tier: [
        {'n': -n, 'w': w} for n in (1, 127, 128, 129, 255, 256, 2 ** 63)
        for w in (1, 4, 8)])
def check_negative(c, info):
    """Only the script form has negative numbers."""
    info.nt()
    n = c['n']
    refuses(lambda: u.i2le(n), 'i2le(%d)' % n)
    refuses(lambda: u.i2be(n), 'i2be(%d)' % n)
    refuses(lambda: u.i2le_padded(n, c['w']), 'i2le_padded(%d)' % n)
    refuses(lambda: u.i2be_padded(n, c['w']), 'i2be_padded(%d)' % n)


BYTES = gen.sized(st.one_of(st.integers(0, 12), st.integers(0, 80)))


def signed_value(b):
    """two's complement of big-endian bytes"""
    n = 0
    for x in b:
        n = n * 256 + x
    if b and b[0] >= 128:
        n -= 256 ** len(b)
    return n


@sub('P24', 'decode', st.fixed_dictionaries({'b': BYTES}), 3000,
     rule='the number is negative when signed',
     enum=lambda tier: [{'b': bytes([i])} for i in range(256)] + [
         {'b': bytes([i, j])} for i in (0, 1, 127, 128, 255)
         for j in (0, 1, 127, 128, 255)])
def check_decode(c, info):
    """Bytes to numbers, signed and unsigned, and byte reversal."""
    b = c['b']
    r = bytes(b[len(b) - 1 - i] for i in range(len(b)))
    n = 0
    for x in b:
        n = n * 256 + x
    s = signed_value(b)
    info.nt(s < 0)
    eq(u.be2i(b), n, 'be2i')
    eq(u.be2i(b, False), n, 'be2i unsigned')
    eq(u.be2i(b, signed=True), s, 'be2i signed')
    eq(u.le2i(r), n, 'le2i')
    eq(u.le2i(r, signed=False), n, 'le2i unsigned')
    eq(u.le2i(r, True), s, 'le2i signed')
    eq(u.change_endianness(b), r, 'change_endianness')
    eq(u.change_endianness(u.change_endianness(b)), b,
       'change_endianness twice')
    eq(u.change_endianness(bytearray(b)), r,
       'change_endianness of a bytearray')
    if b and b[0]:
        eq(u.i2be(n), b, 'i2be of be2i')
        eq(u.i2le(n), r, 'i2le of le2i')
    eq(u.i2be_padded(n, len(b)), b, 'i2be_padded of be2i')
    eq(u.i2le_padded(n, len(b)), r, 'i2le_padded of le2i')


SINT = st.one_of(
    st.integers(-70000, 70000), gen.I64, st.integers(-2 ** 300, 2 ** 300),
    st.builds(lambda k, d, s: s * ((1 << k) + d), st.integers(0, 600),
              st.integers(-2, 2), st.sampled_from([1, -1])),
    st.builds(lambda k, d, s: s * ((1 << k) + d), st.integers(4100, 4159),
              st.integers(-2, 2), st.sampled_from([1, -1])))


def fits(n, w):
    half = 256 ** w // 2
    return -half <= n < half if w else n == 0


@sub('P24', 'script', SINT.map(lambda n: {'n': n}), 3000,
     rule='the number needs more than one byte', enum=lambda tier: [
         {'n': n} for n in range(-40000, 40000)] if tier == 'thorough' else [
             {'n': n} for n in range(-1000, 1000)])
def check_script(c, info):
    """The shortest little-endian two's complement, in hex."""
    n = c['n']
    if not fits(n, 520):
        info.label('too large')
        refuses(lambda: u.i2le_script(n), 'i2le_script of 521 bytes')
        return
    got = u.i2le_script(n)
    ok(isinstance(got, str), 'i2le_script gave %r' % (got,))
    b = bytes.fromhex(got)
    eq(got, b.hex(), 'the hex of i2le_script')
    eq(signed_value(b[::-1]), n, 'i2le_script(%d) read back' % n)
    eq(u.le2i(b, signed=True), n, 'le2i of i2le_script(%d)' % n)
    info.nt(len(b) > 1)
    ok(b, 'i2le_script(%d) is empty' % n)
    if n:
        ok(not fits(n, len(b) - 1), 'i2le_script(%d) = %s is not the '
           'shortest' % (n, got))
    else:
        eq(got, '00', 'i2le_script(0)')


@sub('P24', 'networks', st.fixed_dictionaries({
    'n': gen.U64, 'net': st.sampled_from(nets.NAMES)}), 200,
    rule='every case')
def check_networks(c, info):
    """Conversions do not depend on the network."""
    info.nt()
    lib.select(c['net'])
    n = c['n']
    want = magnitude(n)
    eq(u.i2be(n), want, 'i2be')
    eq(u.i2le(n), want[::-1], 'i2le')
    eq(u.le2i(want[::-1]), n, 'le2i')
    eq(u.be2i(want), n, 'be2i')
    eq(u.change_endianness(want), want[::-1], 'change_endianness')
