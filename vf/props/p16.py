"""Addresses and output scripts."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, ok, refuses, sub
from vf.ref import hashes, nets, script as rs
from riemann.encoding import addresses as ad

NET = st.sampled_from(nets.NAMES)


def every_kind(tier):
    for net in nets.NAMES:
        for kind, cash in nets.KINDS[net]:
            n = nets.SIZE[kind]
            for h in (bytes(n), b'\xff' * n, b'\x00' * (n - 1) + b'\x01',
                      gen.stretch(n, n)):
                yield {'net': net, 'kind': kind, 'cash': cash, 'h': h,
                       'arr': False}


@st.composite
def kinds(draw):
    net = draw(NET)
    kind, cash = draw(st.sampled_from(nets.KINDS[net]))
    return {'net': net, 'kind': kind, 'cash': cash,
            'h': draw(gen.blob(nets.SIZE[kind])),
            'arr': draw(st.booleans())}


@sub('P16', 'scripts', kinds(), 3000, rule='every case',
     enum=lambda tier: list(every_kind(tier)))
def check_scripts(c, info):
    """Address to script and back."""
    lib.select(c['net'])
    info.nt()
    info.label(c['kind'] + (' cash' if c['cash'] else ''))
    spk = nets.script(c['kind'], c['h'])
    a = nets.address(c['net'], c['kind'], c['h'], c['cash'])
    got = ad.to_output_script(a)
    eq(got, spk, 'to_output_script(%s)' % a)
    arg = bytearray(spk) if c['arr'] else spk
    if c['cash'] or c['net'] not in nets.CASH:
        eq(ad.from_output_script(arg), a, 'from_output_script')
        eq(ad.from_output_script(arg, cashaddr=True), a,
           'from_output_script, cashaddr')
    if not c['cash']:
        eq(ad.from_output_script(arg, cashaddr=False), a,
           'from_output_script, no cashaddr')


@st.composite
def keys(draw):
    return {'net': draw(NET), 'key': draw(gen.PUBKEY)}


def no_witness(net, f, what):
    if net not in nets.WITNESS:
        refuses(f, what + ' on a network without witness addresses')
        return True
    return False


@sub('P16', 'keys', keys(), 1500, rule='the network has witness or cash '
     'addresses', enum=lambda tier: [
         {'net': n, 'key': b'\x02' + bytes(32)} for n in nets.NAMES])
def check_keys(c, info):
    lib.select(c['net'])
    net, key = c['net'], c['key']
    h = nets.hash160(net, key)
    cash = net in nets.CASH
    info.nt(cash or net in nets.WITNESS)
    legacy = nets.address(net, 'p2pkh', h)
    best = nets.address(net, 'p2pkh', h, cash)
    eq(ad.make_pkh_address(key), best, 'make_pkh_address')
    eq(ad.make_pkh_address(key, witness=False, cashaddr=True), best,
       'make_pkh_address cashaddr')
    eq(ad.make_pkh_address(key, cashaddr=False), legacy,
       'make_pkh_address legacy')
    eq(ad.make_p2pkh_address(key), best, 'make_p2pkh_address')
    eq(ad.make_legacy_p2pkh_address(key), legacy, 'make_legacy_p2pkh_address')
    eq(ad.make_pkh_address(pubkey=key), best, 'make_pkh_address(pubkey=)')
    if not no_witness(net, lambda: ad.make_p2wpkh_address(key),
                      'make_p2wpkh_address'):
        w = nets.address(net, 'p2wpkh', h)
        eq(ad.make_p2wpkh_address(key), w, 'make_p2wpkh_address')
        eq(ad.make_pkh_address(key, witness=True), w,
           'make_pkh_address witness')
        ok(len({w, legacy}) == 2, 'two kinds share an address')


@st.composite
def script_cases(draw):
    net = draw(NET)
    return {'net': net, 'toks': draw(gen.tokens(nets.is_decred(net), 6))}


@sub('P16', 'sh', script_cases(), 1500, rule='the network has witness or '
     'cash addresses')
def check_sh(c, info):
    lib.select(c['net'])
    net = c['net']
    text = gen.text(c['toks'])
    b = rs.assemble(c['toks'], nets.is_decred(net))
    h = nets.hash160(net, b)
    cash = net in nets.CASH
    info.nt(cash or net in nets.WITNESS)
    legacy = nets.address(net, 'p2sh', h)
    best = nets.address(net, 'p2sh', h, cash)
    eq(ad.make_sh_address(text), best, 'make_sh_address')
    eq(ad.make_sh_address(text, witness=False, cashaddr=True), best,
       'make_sh_address cashaddr')
    eq(ad.make_sh_address(text, cashaddr=False), legacy,
       'make_sh_address legacy')
    eq(ad.make_p2sh_address(text), best, 'make_p2sh_address')
    eq(ad.make_legacy_p2sh_address(text), legacy,
       'make_legacy_p2sh_address')
    if not no_witness(net, lambda: ad.make_p2wsh_address(text),
                      'make_p2wsh_address'):
        w = nets.address(net, 'p2wsh', hashes.sha256(b))
        eq(ad.make_p2wsh_address(text), w, 'make_p2wsh_address')
        eq(ad.make_sh_address(text, witness=True), w,
           'make_sh_address witness')


@st.composite
def pairs(draw):
    net = draw(NET)
    h = draw(gen.HASH32)
    flips = draw(st.lists(st.integers(0, 159), min_size=1, max_size=3))
    g = bytearray(h)
    for i in flips:
        g[i // 8] ^= 1 << (i % 8)
    return {'net': net, 'h': h, 'g': bytes(g)}


@sub('P16', 'distinct', pairs(), 400, rule='the hashes differ')
def check_distinct(c, info):
    """No two of the addresses of two near hashes are the same, and each
    goes back to its own script."""
    lib.select(c['net'])
    info.nt(c['h'] != c['g'])
    seen = {}
    for h in {c['h'], c['g']}:
        for kind, cash in nets.KINDS[c['net']]:
            spk = nets.script(kind, h[:nets.SIZE[kind]])
            a = ad.from_output_script(spk, cashaddr=cash) if (
                c['net'] in nets.CASH) else ad.from_output_script(spk)
            eq(ad.to_output_script(a), spk, 'script of ' + a)
            ok(seen.setdefault(a, (spk, cash)) == (spk, cash),
               'two scripts share ' + a)


@sub('P16', 'nowitness', st.fixed_dictionaries({
    'net': st.sampled_from([n for n in nets.NAMES if n not in nets.WITNESS]),
    'kind': st.sampled_from(['p2wpkh', 'p2wsh']), 'h': gen.HASH32,
    'cash': st.booleans()}), 300, rule='every case',
    enum=lambda tier: [
        {'net': n, 'kind': k, 'h': bytes(32), 'cash': x}
        for n in nets.NAMES if n not in nets.WITNESS
        for k in ('p2wpkh', 'p2wsh') for x in (True, False)])
def check_nowitness(c, info):
    lib.select(c['net'])
    info.nt()
    spk = nets.script(c['kind'], c['h'][:nets.SIZE[c['kind']]])
    refuses(lambda: ad.from_output_script(spk, cashaddr=c['cash']),
            'witness program on a network without witness addresses')
