"""base58, bech32 and cashaddr."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import Violation, eq, ok, refuses, short, sub
from vf.ref import addr, nets
from riemann.encoding import base58, bech32, cashaddr

PAYLOAD = st.one_of(
    gen.sized(st.integers(0, 40)), gen.sized(st.integers(0, 90)),
    st.tuples(st.integers(0, 12), gen.sized(st.integers(0, 30))).map(
        lambda t: bytes(t[0]) + t[1]))
NET = gen.net(nets.NAMES)


@sub('P18', 'base58', st.fixed_dictionaries(
    {'net': NET, 'data': PAYLOAD, 'check': st.booleans()}), 2500,
    rule='the payload is at least two bytes')
def check_base58(c, info):
    lib.select(c['net'])
    data = c['data']
    info.nt(len(data) > 1)
    info.label('%d leading zeros' % min(
        3, len(data) - len(data.lstrip(b'\x00'))))
    dec = nets.is_decred(c['net'])
    if c['check']:
        want = addr.b58check(data, dec)
        eq(base58.encode(data), want, 'base58 encode')
        eq(base58.encode_with_checksum(data), want, 'encode_with_checksum')
        eq(base58.decode(want), data, 'base58 decode')
        eq(base58.decode_with_checksum(want), data, 'decode_with_checksum')
        ok(base58.has_checksum(want) is True, 'has_checksum of ' + want)
    else:
        want = addr.b58(data)
        eq(base58.encode(data, checksum=False), want, 'base58 raw encode')
        eq(base58.decode(want, checksum=False), data, 'base58 raw decode')


@st.composite
def b58_strings(draw):
    how = draw(st.sampled_from(['b58', 'near', 'near', 'text']))
    net = draw(NET)
    if how == 'b58':
        s = draw(st.text(alphabet=addr.B58, max_size=40))
    elif how == 'text':
        s = draw(st.text(max_size=20))
    else:
        s = addr.b58check(draw(PAYLOAD), nets.is_decred(net))
        i = draw(st.integers(0, max(0, len(s) - 1)))
        s = s[:i] + draw(st.sampled_from(
            list(addr.B58) + ['0', 'O', 'I', 'l', ' ', '', 'é', '\n'])) \
            + s[i + draw(st.sampled_from([1, 1, 1, 0, 2])):]
    return {'net': net, 's': s}


@sub('P18', 'base58_strings', b58_strings(), 3000,
     rule='all characters are of the alphabet')
def check_b58_strings(c, info):
    lib.select(c['net'])
    s = c['s']
    raw = addr.unb58(s)
    info.nt(raw is not None and len(s) > 1)
    if raw is None:
        info.label('foreign character')
        refuses(lambda: base58.decode(s, checksum=False),
                'base58 decode of %r' % s, 'base58 raw decode of bad string')
    else:
        eq(base58.decode(s, checksum=False), raw, 'base58 raw decode')
        eq(base58.encode(raw, checksum=False), s, 'base58 raw encode')
    want = addr.unb58check(s, nets.is_decred(c['net']))
    if want is None:
        info.label('refused')
        refuses(lambda: base58.decode(s), 'base58check decode of %r' % s,
                'base58check decode of bad string')
        ok(base58.has_checksum(s) is False, 'has_checksum of %r' % s)
    else:
        eq(base58.decode(s), want, 'base58check decode')
        ok(base58.has_checksum(s) is True, 'has_checksum of %r' % s)


SNET = st.one_of(st.just('bitcoin_main'), st.sampled_from(
    [n for n in nets.NAMES if nets.TABLE[n]['BECH32_HRP']]))
PROG = gen.sized(st.one_of(st.sampled_from([20, 32]), st.integers(2, 40)))


@st.composite
def programs(draw):
    ver = draw(st.sampled_from([0, 0, 1, 2, 15, 16]))
    prog = draw(gen.sized(st.sampled_from([20, 32]))) if ver == 0 \
        else draw(PROG)
    return {'net': draw(SNET), 'ver': ver, 'prog': prog}


@sub('P18', 'bech32', programs(), 2000, rule='every case')
def check_bech32(c, info):
    lib.select(c['net'])
    ver, prog = c['ver'], c['prog']
    hrp = nets.TABLE[c['net']]['BECH32_HRP']
    info.nt()
    info.label('version %d' % ver)
    want = addr.segwit(hrp, ver, prog)
    data = bytes([ver, len(prog)]) + prog
    eq(bech32.encode(data), want, 'bech32 encode')
    eq(bech32.segwit_encode(hrp, ver, prog), want, 'segwit_encode')
    eq(bech32.decode(want), data, 'bech32 decode')
    eq(bech32.decode(want.upper()), data, 'bech32 decode of upper case')
    v, p = bech32.segwit_decode(hrp, want)
    eq((v, bytes(p)), (ver, prog), 'segwit_decode')
    groups = [ver] + addr.to5(prog)
    eq(bech32.bech32_encode(hrp, groups), want, 'bech32_encode')
    h, d = bech32.bech32_decode(want)
    eq((h, list(d)), (hrp, groups), 'bech32_decode')
    eq(list(bech32.convertbits(prog, 8, 5)), addr.to5(prog), 'convertbits')
    back = bech32.convertbits(addr.to5(prog), 5, 8, False)
    eq(bytes(back), prog, 'convertbits back')


HRP = st.one_of(
    st.sampled_from(['bc', 'tb', '1', 'a1b', 'split', 'x' * 20]),
    st.text(alphabet=[chr(k) for k in range(33, 127)
                      if not 65 <= k <= 90], min_size=1, max_size=15))


@sub('P18', 'bech32_raw', st.fixed_dictionaries(
    {'hrp': HRP, 'groups': st.lists(st.integers(0, 31), max_size=60)}), 1500,
    rule='at least two groups')
def check_bech32_raw(c, info):
    hrp, groups = c['hrp'], c['groups']
    info.nt(len(groups) > 1)
    want = addr.bech32(hrp, groups)
    eq(bech32.bech32_encode(hrp, groups), want, 'bech32_encode')
    if len(want) <= 90:
        h, d = bech32.bech32_decode(want)
        eq((h, list(d)), (hrp, groups), 'bech32_decode')
    else:
        info.label('over 90 characters')
        eq(tuple(bech32.bech32_decode(want)), (None, None),
           'bech32_decode of over 90 characters')


@st.composite
def bech_strings(draw):
    net = draw(SNET)
    hrp = nets.TABLE[net]['BECH32_HRP']
    how = draw(st.sampled_from(['corrupt', 'corrupt', 'edit', 'groups',
                                'text', 'case']))
    ver = draw(st.sampled_from([0, 0, 0, 1, 16, 17, 31]))
    prog = draw(st.one_of(gen.HASH20, gen.HASH32, PROG,
                          gen.sized(st.sampled_from([0, 1, 41, 42]))))
    s = addr.segwit(hrp, ver, prog)
    k = 0
    if how == 'corrupt':
        k = draw(st.integers(1, 4))
        at = draw(st.lists(st.integers(len(hrp) + 1, len(s) - 1),
                           min_size=k, max_size=k, unique=True))
        for i in at:
            ch = draw(st.sampled_from(addr.C32).filter(
                lambda x, i=i: x != s[i]))
            s = s[:i] + ch + s[i + 1:]
    elif how == 'edit':
        i = draw(st.integers(0, len(s)))
        s = draw(st.sampled_from([
            s[:i] + s[i + 1:], s[:i] + 'q' + s[i:], s[:i] + 'b' + s[i + 1:],
            s[:i], s + ' ', s[:-1] + 'q' + s[-1:], s[:i] + '1' + s[i:],
            s[len(hrp):], 'x' + s, s.replace('1', '', 1),
            s[:i] + 'é' + s[i:], s[:i] + '\x7f' + s[i + 1:]]))
    elif how == 'groups':
        s = addr.bech32(draw(st.sampled_from([hrp, hrp, 'bc', hrp + 'q'])),
                        draw(st.lists(st.integers(0, 31), max_size=60)))
    elif how == 'case':
        i = draw(st.integers(0, len(s) - 1))
        s = draw(st.sampled_from([s.upper(), s[:i].upper() + s[i:],
                                  s.swapcase(), s.capitalize()]))
    else:
        s = draw(st.text(alphabet=addr.C32 + '1', max_size=70))
    return {'net': net, 's': s, 'how': how}


@sub('P18', 'bech32_strings', bech_strings(), 4000,
     rule='not a random text')
def check_bech_strings(c, info):
    lib.select(c['net'])
    s = c['s']
    hrp = nets.TABLE[c['net']]['BECH32_HRP']
    info.nt(c['how'] != 'text')
    want = addr.unsegwit(hrp, s)
    if c['how'] == 'corrupt' and want is not None:
        raise AssertionError('reference accepts a corrupted string')
    if want is None:
        info.label('refused ' + c['how'])
        try:
            r = bech32.decode(s)
        except Exception:
            pass
        else:
            raise Violation('bech32 decode of %r gave %s'
                            % (short(s, 120), short(r)),
                            'bech32 decode of a bad string')
    else:
        info.label('accepted ' + c['how'])
        eq(bech32.decode(s), bytes([want[0], len(want[1])]) + want[1],
           'bech32 decode')
        ok(bech32.encode(bech32.decode(s)) == s.lower(),
           'bech32 %s does not encode back' % s)


CNET = st.sampled_from(nets.CASH)


def outside(enc, nsum, groups, at, v, bad):
    """A string with the character `bad`, outside the charset, whose checksum
    fits if that character had the value v.  `enc` gives the residue of
    groups and checksum, 0 for a good string; at counts from the front of the
    groups and may lie in the checksum.  None if there is no such string."""
    n = len(groups)
    for k in range(300):
        if at < n:
            g = groups[:at] + [v] + groups[at + 1:]
            j = 0
        else:
            j = at - n + 1
            if not groups:
                return None
            g = list(groups)
            g[-1] = (g[-1] + k) % 32
            g += [(k // 32 + 7 * i) % 32 for i in range(j - 1)] + [v]
        rest = nsum - j
        m = enc(g + [0] * rest)
        if 0 <= m < 32 ** rest:
            g += [m >> 5 * (rest - 1 - i) & 31 for i in range(rest)]
            assert enc(g) == 0
            return ''.join(bad if i == at else addr.C32[x]
                           for i, x in enumerate(g))
    return None


@st.composite
def outsiders(draw):
    cash = draw(st.booleans())
    net = draw(CNET) if cash else draw(st.sampled_from(nets.BECH))
    n = draw(st.sampled_from([1, 8, 34, 34, 33]))
    return {'net': net, 'cash': cash,
            'groups': draw(st.lists(st.integers(0, 31), min_size=n,
                                    max_size=n)),
            'at': draw(st.one_of(st.integers(0, n + 7),
                                 st.integers(n, n + 7))),
            'v': draw(st.sampled_from([-1, -1, -1, 0, 31, 1])),
            'bad': draw(st.sampled_from('b1io-_. é\x00B'))}


@sub('P18', 'outside', outsiders(), 1500, rule='there is such a string')
def check_outside(c, info):
    """A character outside the charset has no value."""
    lib.select(c['net'])
    t = nets.TABLE[c['net']]
    if c['cash']:
        pre = [ord(x) & 31 for x in t['CASHADDR_PREFIX']] + [0]
        s = outside(lambda g: addr._cash_polymod(pre + g), 8, c['groups'],
                    c['at'], c['v'], c['bad'])
        head, f = t['CASHADDR_PREFIX'] + ':', cashaddr
    else:
        if c['bad'] == '1':
            return       # moves the separator
        pre = addr._bech_expand(t['BECH32_HRP'])
        groups = [0] + c['groups'][1:]
        s = outside(lambda g: addr._bech_polymod(pre + g) ^ 1, 6, groups,
                    min(c['at'], len(groups) + 5), c['v'], c['bad'])
        head, f = t['BECH32_HRP'] + '1', bech32
    if s is None:
        return
    info.nt()
    info.label('checksum' if c['at'] >= len(c['groups']) else 'data')
    refuses(lambda: f.decode(head + s), 'decode of %r' % (head + s),
            'a character outside the charset')


@sub('P18', 'cashaddr', st.fixed_dictionaries(
    {'net': CNET, 'data': st.one_of(gen.blob(21), PAYLOAD)}), 1500,
    rule='the payload is at least two bytes')
def check_cash(c, info):
    lib.select(c['net'])
    data = c['data']
    info.nt(len(data) > 1)
    info.label('%d mod 5 bytes' % (len(data) % 5))
    want = addr.cashaddr(nets.TABLE[c['net']]['CASHADDR_PREFIX'], data)
    eq(cashaddr.encode(data), want, 'cashaddr encode')
    eq(cashaddr.encode(bytearray(data)), want, 'cashaddr encode')
    eq(cashaddr.decode(want), data, 'cashaddr decode')


@st.composite
def cash_strings(draw):
    net = draw(CNET)
    p = nets.TABLE[net]['CASHADDR_PREFIX']
    how = draw(st.sampled_from(['corrupt', 'corrupt', 'edit', 'groups',
                                'text', 'prefix']))
    s = addr.cashaddr(p, draw(st.one_of(gen.blob(21), PAYLOAD)))
    if how == 'corrupt':
        k = draw(st.integers(1, 5))
        at = draw(st.lists(st.integers(len(p) + 1, len(s) - 1),
                           min_size=k, max_size=k, unique=True))
        for i in at:
            ch = draw(st.sampled_from(addr.C32).filter(
                lambda x, i=i: x != s[i]))
            s = s[:i] + ch + s[i + 1:]
    elif how == 'edit':
        i = draw(st.integers(0, len(s)))
        s = draw(st.sampled_from([
            s[:i] + s[i + 1:], s[:i] + 'q' + s[i:], s[:i] + 'b' + s[i + 1:],
            s[:i], s + ' ', s[:i] + ':' + s[i:], s[len(p):], 'x' + s,
            s[:i] + 'é' + s[i + 1:], s[:i] + '1' + s[i + 1:],
            s[:i] + 'i' + s[i + 1:], s[:i] + 'o' + s[i + 1:]]))
    elif how == 'groups':
        s = addr.cash_groups(p, draw(st.lists(st.integers(0, 31),
                                              max_size=40)))
    elif how == 'prefix':
        q = draw(st.sampled_from(['bitcoincash', 'bchtest', 'bchreg', 'bc']))
        s = addr.cashaddr(q, draw(gen.blob(21)))
        s = draw(st.sampled_from([s, p + ':' + s.split(':')[1]]))
    else:
        s = p + ':' + draw(st.text(alphabet=addr.C32 + 'b1', max_size=60))
    return {'net': net, 's': s, 'how': how}


@sub('P18', 'cashaddr_strings', cash_strings(), 3000,
     rule='not a random text')
def check_cash_strings(c, info):
    lib.select(c['net'])
    s = c['s']
    info.nt(c['how'] != 'text')
    p = nets.TABLE[c['net']]['CASHADDR_PREFIX']
    if addr.uncashaddr(p, p + ':' + s) is not None:
        info.label('not judged: without its prefix')
        return
    want = addr.uncashaddr(p, s)
    if c['how'] == 'corrupt' and want is not None and len(s) < 100:
        raise AssertionError('reference accepts a corrupted string')
    if want is None:
        info.label('refused ' + c['how'])
        refuses(lambda: cashaddr.decode(s),
                'cashaddr decode of %r' % short(s, 120),
                'cashaddr decode of a bad string')
    else:
        info.label('accepted ' + c['how'])
        eq(cashaddr.decode(s), want, 'cashaddr decode')
        eq(cashaddr.encode(cashaddr.decode(s)), s, 'cashaddr encodes back')


@sub('P18', 'unsupported', st.fixed_dictionaries(
    {'net': st.sampled_from(nets.NAMES), 'h': gen.HASH20}), 300,
    rule='the network lacks one of the encodings',
    enum=lambda tier: [{'net': n, 'h': bytes(20)} for n in nets.NAMES])
def check_unsupported(c, info):
    """Networks without bech32 or cash addresses have no such codec."""
    lib.select(c['net'])
    t = nets.TABLE[c['net']]
    info.nt()
    if t['BECH32_HRP'] is None:
        refuses(lambda: bech32.encode(b'\x00\x14' + c['h']),
                'bech32 encode without a prefix')
        refuses(lambda: bech32.decode(addr.segwit('bc', 0, c['h'])),
                'bech32 decode without a prefix')
    if t['CASHADDR_PREFIX'] is None:
        refuses(lambda: cashaddr.encode(b'\x00' + c['h']),
                'cashaddr encode without a prefix')
        refuses(lambda: cashaddr.decode(
            addr.cashaddr('bitcoincash', b'\x00' + c['h'])),
            'cashaddr decode without a prefix')
