"""Selection of networks."""
import hashlib

import riemann
from hypothesis import strategies as st
from riemann import networks as rnets
from riemann import simple, utils
from riemann.encoding import addresses, base58, bech32, cashaddr
from riemann.script import serialization
from riemann.tx import tx_builder

from vf import gen, lib
from vf.core import Violation, eq, ok, refuses, sub
from vf.ref import hashes, nets, sighash, wire
from vf.ref.wire import le

ENCODERS = {'base58': base58, 'bech32': bech32, 'cashaddr': cashaddr}


def shown(v):
    """a parameter as the table has it"""
    for name, m in ENCODERS.items():
        if v is m:
            return name
    if isinstance(v, dict):
        return {str(k): x for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [shown(x) for x in v]
    if isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    return v


def parameters(n, net):
    want = nets.TABLE[net]
    for k, v in want.items():
        if not hasattr(n, k):
            raise Violation('%s has no %s' % (net, k), 'parameter ' + k)
        eq(shown(getattr(n, k)), v, '%s of %s' % (k, net),
           'parameter ' + k)


@sub('P21', 'table', None, 0, rule='always',
     enum=lambda tier: [{'net': n} for n in nets.NAMES])
def check_table(c, info):
    """Every network has its published parameters, by whatever road."""
    net = c['net']
    info.nt()
    parameters(rnets.get_network(net), net)
    parameters(rnets.SUPPORTED[net], net)
    riemann.select_network(net)
    parameters(riemann.get_current_network(), net)
    parameters(riemann.network, net)
    eq(riemann.get_current_network_name(), net, 'the current name')
    ok(riemann.network is rnets.get_network(net), 'another object')


@sub('P21', 'supported', None, 0, rule='always', enum=lambda tier: [{}])
def check_supported(c, info):
    info.nt()
    eq(sorted(n for n in nets.NAMES if n not in rnets.SUPPORTED), [],
       'networks that are missing')


# ---------------------------------------------------------------- histories

@st.composite
def badname(draw):
    n = draw(st.sampled_from(nets.NAMES))
    how = draw(st.sampled_from(['upper', 'title', 'cut', 'more', 'space',
                                'prefix', 'under', 'none', 'empty', 'int',
                                'text', 'bytes', 'sub', 'swap', 'dash']))
    a, _, b = n.rpartition('_')
    bad = {'upper': n.upper(), 'title': n.title(), 'cut': n[:-1],
           'more': n + draw(st.sampled_from(['t', '_', '\n', '_main', '\0'])),
           'space': draw(st.sampled_from([' ' + n, n + ' '])),
           'prefix': a, 'under': n.replace('_', ''), 'none': None,
           'empty': '', 'int': draw(st.integers(0, 70)),
           'text': draw(st.text(max_size=12)), 'bytes': n.encode(), 'sub': b,
           'swap': b + '_' + a, 'dash': n.replace('_', '-')}[how]
    if isinstance(bad, str) and bad in nets.TABLE:
        bad = 'unknown'
    return bad


NET = st.one_of(
    st.sampled_from(nets.NAMES),
    st.sampled_from(['bitcoin_main', 'bitcoin_cash_main', 'decred_main',
                     'zcash_sprout_main', 'zcash_overwinter_main',
                     'zcash_sapling_main', 'bitcoin_gold_main',
                     'bitcoin_private_main', 'litecoin_main', 'verge_main']))
OPS = ['name', 'parameters', 'address', 'cash', 'witness address', 'classify',
       'foreign address', 'hash160', 'hash256', 'varint', 'digest', 'opcode',
       'class', 'output', 'unsigned', 'segwit flag', 'decred classes']
STEP = st.one_of(
    st.fixed_dictionaries({'op': st.just('select'), 'net': NET}),
    st.fixed_dictionaries({'op': st.just('bad'), 'name': badname()}),
    st.fixed_dictionaries({'op': st.sampled_from(OPS),
                           'seed': st.integers(0, 2 ** 32)}),
    st.fixed_dictionaries({'op': st.sampled_from(OPS),
                           'seed': st.integers(0, 2 ** 32)}))


I0 = {'txid': bytes(31) + b'\x07', 'idx': 1, 'stack': b'', 'redeem': b'',
      'seq': 0xfffffffe}
O0 = {'val': 5000, 'spk': b'\x51'}


def operate(op, net, seed):
    r = gen.stretch(seed, 40)
    h = r[:20]
    t = nets.TABLE[net]
    dec = nets.is_decred(net)
    if op == 'name':
        eq(riemann.get_current_network_name(), net, 'the current name')
    elif op == 'parameters':
        parameters(riemann.get_current_network(), net)
        parameters(riemann.network, net)
    elif op == 'address':
        kind, cash = nets.KINDS[net][0 if r[20] & 1 else 1]
        f = (tx_builder.make_pkh_output_script if kind == 'p2pkh'
             else None)
        if f is not None:
            eq(f(r), nets.script(kind, nets.hash160(net, r)), 'a script')
            eq(addresses.make_legacy_p2pkh_address(r),
               nets.address(net, kind, nets.hash160(net, r)),
               'a legacy address on ' + net)
        a = nets.address(net, kind, h, net in nets.CASH)
        eq(addresses.from_output_script(nets.script(kind, h)), a,
           'the address of a %s script on %s' % (kind, net))
        eq(addresses.to_output_script(a), nets.script(kind, h),
           'the script of an address')
    elif op == 'cash':
        a = nets.address(net, 'p2pkh', h, True) if net in nets.CASH else \
            nets.address('bitcoin_cash_main', 'p2pkh', h, True)
        if net in nets.CASH:
            eq(addresses.parse(a), nets.TABLE[net]['CASHADDR_P2PKH'] + h,
               'a cash address')
        else:
            refuses(lambda: addresses.to_output_script(a),
                    'a cash address on ' + net)
    elif op == 'witness address':
        s = nets.script('p2wpkh', h)
        if net in nets.WITNESS:
            a = nets.address(net, 'p2wpkh', h)
            eq(addresses.from_output_script(s), a, 'a witness address')
            eq(addresses.to_output_script(a), s, 'its script')
        else:
            refuses(lambda: addresses.from_output_script(s),
                    'a witness address on ' + net)
    elif op == 'classify':
        for kind, cash in nets.KINDS[net]:
            g = gen.stretch(seed, nets.SIZE[kind])
            a = nets.address(net, kind, g, cash)
            eq(addresses.parse_hash(a), g, 'the hash of %s' % a)
            eq(addresses.to_output_script(a), nets.script(kind, g),
               'the script of %s' % a)
    elif op == 'foreign address':
        other = nets.NAMES[seed % len(nets.NAMES)]
        for kind, cash in nets.KINDS[other]:
            g = gen.stretch(seed, nets.SIZE[kind])
            a = nets.address(other, kind, g, cash)
            here = nets.classify(net, a)
            if here is None:
                refuses(lambda: addresses.to_output_script(a),
                        '%s of %s on %s' % (a, other, net))
            else:
                eq(addresses.to_output_script(a),
                   nets.script(here[0], here[1]), 'the script of ' + a)
    elif op == 'hash160':
        # hash160 follows the network through the address functions
        eq(utils.hash160(r), nets.hash160(net, r), 'hash160 on ' + net)
    elif op == 'hash256':
        eq(utils.hash256(r), nets.hash256(net, r), 'hash256 on ' + net)
    elif op == 'varint':
        n = r[0]
        b = b'\xfd' + le(n % 253, 2)
        strict = net in nets.OVERWINTER + nets.SAPLING
        if strict:
            refuses(lambda: lib.shared.VarInt.from_bytes(b),
                    'a long form on ' + net)
        else:
            x = lib.shared.VarInt.from_bytes(b)
            eq((x.number, len(x)), (n % 253, 3), 'a long form on ' + net)
    elif op == 'digest':
        if net not in nets.BITCOIN:
            return False
        d = {'ver': 1, 'flag': False, 'ins': [dict(I0, txid=r[:32])],
             'outs': [O0], 'wits': None, 'lock': 0}
        x = lib.tx(d)
        code = b'\x01\xac'
        forkid = t['FORKID']
        if forkid is None:
            want = sighash.legacy(d, 0, b'\xac', 1, False)
        else:
            want = sighash.bip143(d, 0, b'\xac', 77, 1, False, forkid)
        eq(x.sighash_all(index=0, script=code, prevout_value=le(77, 8)),
           want, 'a digest on ' + net)
    elif op == 'opcode':
        eq(serialization.deserialize(b'\xa8'),
           'OP_BLAKE256' if dec else 'OP_SHA256', 'opcode a8 on ' + net)
        eq(serialization.serialize('OP_SHA256'),
           b'\xc0' if dec else b'\xa8', 'OP_SHA256 on ' + net)
        eq(serialization.deserialize(serialization.serialize('OP_SHA256')),
           'OP_SHA256', 'OP_SHA256 and back on ' + net)
        if dec:
            eq(serialization.serialize('OP_BLAKE256'), b'\xa8',
               'OP_BLAKE256')
        else:
            refuses(lambda: serialization.serialize('OP_BLAKE256'),
                    'OP_BLAKE256 on ' + net)
            refuses(lambda: serialization.deserialize(b'\xc0'),
                    'opcode c0 on ' + net)
    elif op == 'class':
        want = (lib.spr.SproutTx if net in nets.SPROUT else
                lib.ow.OverwinterTx if net in nets.OVERWINTER else
                lib.sap.SaplingTx if net in nets.SAPLING else
                lib.dcr.DecredTx if dec else lib.btc.Tx)
        if dec:
            return False
        d = dict(I0)
        x = simple.unsigned_legacy_tx(
            tx_ins=[lib.txin(d)], tx_outs=[lib.txout(O0)])
        ok(type(x) is want, 'a transaction of %s is a %s'
           % (net, type(x).__name__), 'class')
    elif op == 'output':
        a = nets.address(net, 'p2pkh', h)
        x = simple.output(9, a)
        want = nets.script('p2pkh', h)
        if dec:
            eq(x.to_bytes(), le(9, 8) + b'\x00\x00' + wire.pref(want),
               'an output on ' + net)
        else:
            eq(x.to_bytes(), le(9, 8) + wire.pref(want),
               'an output on ' + net)
    elif op == 'unsigned':
        x = tx_builder.make_outpoint(r[:32], 5, 1) if dec else \
            tx_builder.make_outpoint(r[:32], 5)
        eq(x.to_bytes(), r[:32] + le(5, 4) + (b'\x01' if dec else b''),
           'an outpoint on ' + net)
    elif op == 'segwit flag':
        if net not in nets.BITCOIN:
            return False
        d = {'ver': 1, 'flag': True, 'ins': [dict(I0, txid=r[:32])],
             'outs': [O0], 'wits': [[r[:5]]], 'lock': 0}
        x = lib.btc.Tx.from_bytes(wire.tx(d))
        eq(x.tx_id_le, hashes.sha256d(wire.tx_base(d)), 'an id on ' + net)
    elif op == 'decred classes':
        f = lambda: lib.dcr_outpoint(dict(I0, tree=0))
        g = lambda: lib.zs.SproutZkproof(**{n: bytes(k) for n, k in
                                            wire.ZK_SPROUT})
        if dec:
            f()
        else:
            refuses(f, 'a Decred outpoint on ' + net)
        if net in nets.ZCASH:
            g()
        else:
            refuses(g, 'a Zcash proof on ' + net)
    return True


@sub('P21', 'histories', st.fixed_dictionaries({
    'steps': st.lists(STEP, min_size=3, max_size=14)}), 9000,
    rule='two selections and an operation under a later one')
def check_histories(c, info):
    """After any history, operations follow the last valid selection."""
    riemann.select_network('bitcoin_main')
    net = 'bitcoin_main'
    picked = 0
    for s in c['steps']:
        if s['op'] == 'select':
            riemann.select_network(s['net'])
            net = s['net']
            picked += 1
        elif s['op'] == 'bad':
            before = riemann.get_current_network()
            for f in (riemann.select_network, rnets.get_network):
                refuses(lambda: f(s['name']), 'network %r' % (s['name'],))
                ok(riemann.get_current_network() is before,
                   'a refused selection changed the network')
            info.label('bad')
        else:
            info.label(s['op'])
            if operate(s['op'], net, s['seed']) and picked > 1:
                info.nt()
        eq(riemann.get_current_network_name(), net, 'the selected network')
        ok(riemann.network is riemann.get_current_network(),
           'two current networks')


@sub('P21', 'pairs', None, 0, rule='always', enum=lambda tier: [
    {'a': a, 'b': b, 'op': op} for i, a in enumerate(nets.NAMES)
    for j, b in enumerate(nets.NAMES)
    for k, op in enumerate(OPS)
    if tier != 'quick' or (i * 7 + j * 3 + k) % 5 == 0])
def check_pairs(c, info):
    """Operation, other network, the same operation, and back."""
    info.nt()
    info.label(c['op'])
    seed = int.from_bytes(hashlib.sha256(
        ('%(a)s/%(b)s/%(op)s' % c).encode()).digest()[:4], 'big')
    for net in (c['a'], c['b'], c['a']):
        riemann.select_network(net)
        operate(c['op'], net, seed)
