"""The hash inside an address."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, sub
from vf.ref import nets
from vf.props.p16 import every_kind
from riemann.encoding import addresses as ad


@st.composite
def cases(draw):
    net = draw(st.sampled_from(nets.NAMES))
    kind, cash = draw(st.sampled_from(nets.KINDS[net]))
    n = nets.SIZE[kind]
    t = nets.TABLE[net]
    pre = draw(st.sampled_from(
        [b'', b'', b'', t['P2PKH_PREFIX'], t['P2SH_PREFIX'], b'\x00\x14',
         b'\x00\x20', b'\x00', b'\x00\x00', b'\x08']))
    return {'net': net, 'kind': kind, 'cash': cash, 'arr': False,
            'h': (pre + draw(gen.blob(n)))[:n]}


@sub('P19', 'hash', cases(), 4000, rule='every case',
     enum=lambda tier: list(every_kind(tier)))
def check(c, info):
    lib.select(c['net'])
    info.nt()
    info.label(c['kind'] + (' cash' if c['cash'] else ''))
    a = nets.address(c['net'], c['kind'], c['h'], c['cash'])
    eq(ad.parse_hash(a), c['h'], 'parse_hash(%s)' % a)
    if c['net'] in nets.BECH and c['kind'][2] == 'w':
        eq(ad.parse_hash(a.upper()), c['h'], 'parse_hash(%s)' % a.upper())


@sub('P19', 'made', st.fixed_dictionaries(
    {'net': st.sampled_from(nets.NAMES), 'key': gen.PUBKEY}), 1000,
    rule='every case')
def check_made(c, info):
    """Of addresses the library made itself."""
    lib.select(c['net'])
    info.nt()
    h = nets.hash160(c['net'], c['key'])
    made = [ad.make_p2pkh_address, ad.make_legacy_p2pkh_address]
    if c['net'] in nets.WITNESS:
        made.append(ad.make_p2wpkh_address)
    for f in made:
        eq(ad.parse_hash(f(c['key'])), h, f.__name__)
