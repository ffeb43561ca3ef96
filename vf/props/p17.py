"""Invalid, corrupted and foreign addresses."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, refuses, short, sub
from vf.ref import addr, nets
from riemann.encoding import addresses as ad

NET = gen.net(nets.NAMES)
SPECIAL = st.sampled_from(
    nets.CASH + nets.B58WIT[:4] + ['bitcoin_main', 'bitcoin_test',
                                   'bitcoin_reg', 'decred_main',
                                   'bitcoin_private_main',
                                   'zcash_sapling_main', 'litecoin_main'])
ANY = st.one_of(SPECIAL, st.sampled_from(nets.NAMES))
CHARS = ''.join(chr(k) for k in range(32, 127))


@st.composite
def address(draw, net):
    kind, cash = draw(st.sampled_from(nets.KINDS[net]))
    return nets.address(net, kind, draw(gen.blob(nets.SIZE[kind])), cash)


@st.composite
def mutated(draw, net):
    s = draw(address(net))
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3, 4]))):
        i = draw(st.integers(0, max(0, len(s) - 1)))
        how = draw(st.sampled_from(['sub', 'sub', 'sub', 'del', 'ins', 'swap',
                                    'case', 'cut', 'junk', 'dup']))
        alpha = draw(st.sampled_from([addr.B58, addr.C32, CHARS]))
        ch = draw(st.sampled_from(alpha))
        if how == 'sub':
            s = s[:i] + ch + s[i + 1:]
        elif how == 'del':
            s = s[:i] + s[i + 1:]
        elif how == 'ins':
            i = draw(st.integers(0, len(s)))
            s = s[:i] + ch + s[i:]
        elif how == 'swap' and i + 1 < len(s):
            s = s[:i] + s[i + 1] + s[i] + s[i + 2:]
        elif how == 'case':
            s = draw(st.sampled_from([s.upper(), s.lower(), s.swapcase(),
                                      s[:i] + s[i:i + 1].swapcase()
                                      + s[i + 1:]]))
        elif how == 'cut':
            s = draw(st.sampled_from([s[:i], s[i:]]))
        elif how == 'dup':
            s = s[:i] + s[i:i + 1] * 2 + s[i + 1:]
        elif how == 'junk':
            s = draw(st.sampled_from([' ' + s, s + ' ', s + '\n', '\t' + s,
                                      s + s, s + '\x00', s + 'é',
                                      'bitcoincash:' + s, 'bc1' + s, '1' + s,
                                      s[:i] + 'ａ' + s[i:], ':' + s]))
    return s


@st.composite
def wrong(draw, net):
    """A right checksum over something that is no address."""
    t = nets.TABLE[net]
    how = draw(st.sampled_from(['len', 'len', 'prefix', 'bech', 'bech',
                                'cash', 'padding', 'foreign checksum']))
    decred = nets.is_decred(net)
    pre = draw(st.sampled_from([t['P2PKH_PREFIX'], t['P2SH_PREFIX'],
                                t['P2WPKH_PREFIX'], t['P2WSH_PREFIX']]))
    n = draw(st.sampled_from([0, 1, 18, 19, 20, 21, 22, 31, 32, 33, 34, 40]))
    h = draw(gen.blob(n))
    if how == 'len':
        return addr.b58check(pre + h, decred)
    if how == 'prefix':
        p = draw(st.binary(min_size=0, max_size=2))
        return addr.b58check(p + draw(gen.HASH20), decred)
    if how == 'foreign checksum':
        return addr.b58check(pre + draw(gen.HASH20), not decred)
    if how == 'bech':
        hrp = draw(st.sampled_from([
            t['BECH32_HRP'] or 'bc', 'bc', 'tb', 'bcrt', 'BC',
            (t['BECH32_HRP'] or 'bc') + 'x']))
        ver = draw(st.sampled_from([0, 0, 0, 1, 2, 16, 17, 31]))
        return addr.bech32(hrp, [ver] + addr.to5(h))
    if how == 'cash':
        p = t['CASHADDR_PREFIX'] or 'bitcoincash'
        p = draw(st.sampled_from([p, p, p, 'bchtest', 'bitcoincas', '']))
        v = draw(st.sampled_from([0, 8, 0, 8, 1, 9, 16, 0x80, 3]))
        return addr.cashaddr(p, bytes([v]) + h)
    groups = addr.to5(draw(gen.HASH20))
    groups[-1] |= draw(st.integers(1, 15))
    groups += [0] * draw(st.integers(0, 1))
    if t['CASHADDR_PREFIX']:
        return addr.cash_groups(t['CASHADDR_PREFIX'], groups)
    return addr.bech32(t['BECH32_HRP'] or 'bc', [0] + groups)


@st.composite
def strings(draw):
    net = draw(ANY)
    how = draw(st.sampled_from(['mutated', 'mutated', 'mutated', 'foreign',
                                'wrong', 'wrong', 'text', 'valid']))
    if how == 'mutated':
        s = draw(mutated(net))
    elif how == 'foreign':
        s = draw(address(draw(ANY)))
    elif how == 'wrong':
        s = draw(wrong(draw(st.one_of(st.just(net), ANY))))
    elif how == 'valid':
        s = draw(address(net))
    else:
        s = draw(st.one_of(st.text(max_size=50),
                           st.text(alphabet=addr.B58, max_size=50),
                           st.text(alphabet=addr.C32 + '1:', max_size=70)))
    return {'net': net, 's': s, 'how': how}


def unjudged(net, s):
    """forms that the cashaddr specification allows and this library need
    not know"""
    if net not in nets.CASH:
        return False
    p = nets.TABLE[net]['CASHADDR_PREFIX']
    return (s == s.upper() and nets.classify(net, s.lower()) is not None) \
        or nets.classify(net, p + ':' + s) is not None \
        or nets.classify(net, p + ':' + s.lower()) is not None


def decodable(net, s):
    """the payload of a string with a right checksum in an encoding of the
    network, or None"""
    t = nets.TABLE[net]
    b = addr.unb58check(s, nets.is_decred(net))
    if b is not None:
        return b
    if t['BECH32_HRP']:
        r = addr.unsegwit(t['BECH32_HRP'], s)
        if r is not None:
            return bytes([r[0], len(r[1])]) + r[1]
    if t['CASHADDR_PREFIX']:
        return addr.uncashaddr(t['CASHADDR_PREFIX'], s)
    return None


def crossed(tier):
    h = gen.stretch(7, 32)
    for a in nets.NAMES:
        for kind, cash in nets.KINDS[a]:
            s = nets.address(a, kind, h[:nets.SIZE[kind]], cash)
            for b in nets.NAMES:
                yield {'net': b, 's': s, 'how': 'foreign'}


@sub('P17', 'strings', strings(), 8000, rule='the string is refused and is '
     'not plain text', enum=lambda tier: list(crossed(tier)))
def check_strings(c, info):
    lib.select(c['net'])
    net, s = c['net'], c['s']
    if unjudged(net, s):
        info.label('not judged')
        return
    want = nets.classify(net, s)
    if want is None:
        info.label('refused ' + c['how'])
        info.nt(c['how'] != 'text')
        refuses(lambda: ad.to_output_script(s),
                'to_output_script(%r) on %s' % (short(s, 120), net),
                'to_output_script of no address')
        refuses(lambda: ad.parse_hash(s),
                'parse_hash(%r) on %s' % (short(s, 120), net),
                'parse_hash of no address')
    else:
        info.label('accepted ' + c['how'])
        eq(ad.to_output_script(s), nets.script(want[0], want[1]),
           'to_output_script(%s)' % s)
        eq(ad.parse_hash(s), want[1], 'parse_hash(%s)' % s)
    data = decodable(net, s)
    if data is None:
        refuses(lambda: ad.parse(s), 'parse(%r) on %s' % (short(s, 120), net),
                'parse of no address')
    elif want is not None:
        eq(ad.parse(s), data, 'parse(%s)' % s)


@st.composite
def bad_scripts(draw):
    net = draw(ANY)
    kind = draw(st.sampled_from(['p2pkh', 'p2sh', 'p2wpkh', 'p2wsh']))
    b = nets.script(kind, draw(gen.blob(nets.SIZE[kind])))
    how = draw(st.sampled_from(['flip', 'flip', 'cut', 'more', 'template',
                                'raw', 'version', 'length']))
    if how == 'flip':
        ends = [i for i in (0, 1, 2, len(b) - 1, len(b) - 2)]
        i = draw(st.sampled_from(ends))
        b = b[:i] + bytes([draw(st.integers(0, 255))]) + b[i + 1:]
    elif how == 'cut':
        i = draw(st.integers(0, len(b) - 1))
        b = draw(st.sampled_from([b[:i], b[i:], b[:i] + b[i + 1:]]))
    elif how == 'more':
        x = draw(st.binary(min_size=1, max_size=2))
        b = draw(st.sampled_from([b + x, x + b]))
    elif how == 'version':
        b = bytes([draw(st.integers(0x4f, 0x60))]) + b[1:]
    elif how == 'length':
        n = draw(st.sampled_from([19, 21, 31, 33, 2, 40]))
        h = draw(gen.blob(n))
        b = draw(st.sampled_from([
            b'\x00' + bytes([n]) + h, b'\xa9' + bytes([n]) + h + b'\x87',
            b'\x76\xa9' + bytes([n]) + h + b'\x88\xac']))
    elif how == 'template':
        b = draw(gen.TEMPLATE)
    else:
        b = draw(gen.sized(st.integers(0, 40)))
    return {'net': net, 'b': b, 'how': how, 'cash': draw(st.booleans())}


def script_kind(net, b):
    for kind in ('p2pkh', 'p2sh', 'p2wpkh', 'p2wsh'):
        n = nets.SIZE[kind]
        for i in (0, 2, 3):
            if len(b) >= n + i and nets.script(kind, b[i:i + n]) == b:
                if kind[2] == 'w' and net not in nets.WITNESS:
                    return None
                return kind, b[i:i + n]
    return None


@sub('P17', 'scripts', bad_scripts(), 3000, rule='a refused script that is '
     'one change away from a supported one')
def check_scripts(c, info):
    lib.select(c['net'])
    net, b = c['net'], c['b']
    want = script_kind(net, b)
    if want is None:
        info.label('refused ' + c['how'])
        info.nt(c['how'] not in ('raw', 'template'))
        refuses(lambda: ad.from_output_script(b, cashaddr=c['cash']),
                'from_output_script(%s) on %s' % (b.hex(), net),
                'from_output_script of no supported form')
    else:
        info.label('supported')
        cash = c['cash'] and net in nets.CASH and want[0] in ('p2pkh', 'p2sh')
        eq(ad.from_output_script(b, cashaddr=c['cash']),
           nets.address(net, want[0], want[1], cash), 'from_output_script')

