"""Parsing never invents, drops or alters bytes."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import Violation, eq, short, sub
from vf.ref import nets, wire


def bare(i):
    return {'txid': i['txid'], 'idx': i['idx'], 'stack': i['script'],
            'redeem': b'', 'seq': i['seq']}


def enc_tx(x):
    d = lib.un_tx(x)
    d['ins'] = [bare(i) for i in d['ins']]
    return wire.tx(d)


def enc_zcash(kind):
    def f(x):
        d = lib.un_zcash(kind, x)
        d['ins'] = [bare(i) for i in d['ins']]
        return wire.zcash(kind, d)
    return f


def enc_struct(layout):
    return lambda x: wire.struct(layout, lib.un_struct(layout, x))


def enc_txin(x):
    return wire.txin(bare(lib.un_txin(x)))


def enc_dcr_in(x):
    o = x.outpoint
    return wire.dcr_txin({'txid': lib.b(o.tx_id), 'idx': lib.n(o.index),
                          'tree': lib.n(o.tree), 'seq': lib.n(x.sequence)})


def enc_dcr_out(x):
    return wire.dcr_txout({'val': lib.n(x.value), 'ver': lib.n(x.version),
                           'spk': lib.b(x.output_script)})


def enc_dcr_op(o):
    return wire.dcr_outpoint({'txid': lib.b(o.tx_id), 'idx': lib.n(o.index),
                              'tree': lib.n(o.tree)})


B = nets.BITCOIN
Z = nets.ZCASH
# parser: (class, networks, encoder of the parsed fields, valid encodings)
P = {
    'Outpoint': (lib.btc.Outpoint, nets.NAMES,
                 lambda x: lib.b(x.tx_id) + lib.b(x.index),
                 gen.txin(True).map(lambda i: lambda: wire.outpoint(i))),
    'TxIn': (lib.btc.TxIn, nets.NAMES, enc_txin,
             gen.txin().map(lambda i: lambda: wire.txin(i))),
    'TxOut': (lib.btc.TxOut, nets.NAMES,
              lambda x: wire.txout(lib.un_txout(x)),
              gen.txout(True).map(lambda o: lambda: wire.txout(o))),
    'WitnessStackItem': (lib.btc.WitnessStackItem, nets.NAMES,
                         lambda x: wire.pref(lib.b(x.item)),
                         gen.WITNESS_ITEM.map(
                             lambda x: lambda: wire.pref(x))),
    'InputWitness': (lib.btc.InputWitness, nets.NAMES,
                     lambda x: wire.stack([lib.b(s.item) for s in x.stack]),
                     gen.WITNESS_STACK.map(lambda x: lambda: wire.stack(x))),
    'Tx': (lib.btc.Tx, nets.NAMES, enc_tx,
           gen.tx(max_in=3, max_out=3).map(lambda t: lambda: wire.tx(t))),
    'SproutZkproof': (lib.zs.SproutZkproof, Z, enc_struct(wire.ZK_SPROUT),
                      gen.fast_struct(wire.ZK_SPROUT).map(
                          lambda d: lambda: wire.struct(wire.ZK_SPROUT, d))),
    'SproutJoinsplit': (lib.zs.SproutJoinsplit, Z,
                        enc_struct(wire.JS_SPROUT),
                        gen.fast_joinsplit(wire.JS_SPROUT).map(
                            lambda d: lambda: wire.struct(
                                wire.JS_SPROUT, d))),
    'SaplingZkproof': (lib.sap.SaplingZkproof, Z,
                       enc_struct(wire.ZK_SAPLING),
                       gen.fast_struct(wire.ZK_SAPLING).map(
                           lambda d: lambda: wire.struct(
                               wire.ZK_SAPLING, d))),
    'SaplingJoinsplit': (lib.sap.SaplingJoinsplit, Z,
                         enc_struct(wire.JS_SAPLING),
                         gen.fast_joinsplit(wire.JS_SAPLING).map(
                             lambda d: lambda: wire.struct(
                                 wire.JS_SAPLING, d))),
    'SaplingShieldedSpend': (lib.sap.SaplingShieldedSpend, Z,
                             enc_struct(wire.SPEND),
                             gen.fast_struct(wire.SPEND).map(
                                 lambda d: lambda: wire.struct(
                                     wire.SPEND, d))),
    'SaplingShieldedOutput': (lib.sap.SaplingShieldedOutput, Z,
                              enc_struct(wire.OUTPUT),
                              gen.fast_struct(wire.OUTPUT).map(
                                  lambda d: lambda: wire.struct(
                                      wire.OUTPUT, d))),
    'DecredOutpoint': (lib.dcr.DecredOutpoint, nets.DECRED, enc_dcr_op,
                       gen.decred(1, 1).map(lambda t: lambda:
                                            wire.dcr_outpoint(t['ins'][0]))),
    'DecredTxIn': (lib.dcr.DecredTxIn, nets.DECRED, enc_dcr_in,
                   gen.decred(1, 1).map(
                       lambda t: lambda: wire.dcr_txin(t['ins'][0]))),
    'DecredTxOut': (lib.dcr.DecredTxOut, nets.DECRED, enc_dcr_out,
                    gen.decred(1, 1).map(
                        lambda t: lambda: wire.dcr_txout(t['outs'][0]))),
    'SproutTx': (lib.spr.SproutTx, nets.SPROUT, enc_zcash('sprout'),
                 gen.zcash('sprout', 2).map(
                     lambda t: lambda: wire.sprout(t))),
    'OverwinterTx': (lib.ow.OverwinterTx, nets.OVERWINTER,
                     enc_zcash('overwinter'),
                     gen.zcash('overwinter', 2).map(
                         lambda t: lambda: wire.overwinter(t))),
    'SaplingTx': (lib.sap.SaplingTx, nets.SAPLING, enc_zcash('sapling'),
                  gen.zcash('sapling', 2).map(
                      lambda t: lambda: wire.sapling(t))),
}
WEIGHTED = list(P) + ['Tx'] * 6 + ['TxIn', 'TxOut', 'InputWitness'] * 2 + [
    'SproutTx', 'OverwinterTx', 'SaplingTx'] * 2

AT = st.one_of(st.integers(0, 12), st.integers(0, 400),
               st.integers(0, 1 << 20), st.integers(-140, -1))
OP = st.one_of(
    st.tuples(st.just('cut'), st.one_of(st.integers(1, 6), AT)),
    st.tuples(st.just('cut'), st.one_of(st.integers(1, 6), AT)),
    st.tuples(st.just('keep'), AT),
    st.tuples(st.just('flip'), AT, st.integers(0, 7)),
    st.tuples(st.just('set'), AT, st.sampled_from(
        [0, 1, 2, 0x4c, 0x4d, 0xfb, 0xfc, 0xfd, 0xfe, 0xff])),
    st.tuples(st.just('ins'), AT, gen.sized(st.integers(1, 9))),
    st.tuples(st.just('del'), AT, st.integers(1, 9)),
    st.tuples(st.just('tail'), gen.sized(st.sampled_from([1, 3, 4, 60]))))


def mutate(b, op):
    k = op[0]
    if k == 'tail':
        return b + op[1]
    if k == 'cut':
        return b[:max(0, len(b) - 1 - (op[1] - 1) % max(1, len(b)))]
    n = op[1] % (len(b) + 1)
    if k == 'keep':
        return b[:n]
    if k == 'flip':
        return b[:n] + bytes([b[n] ^ 1 << op[2]]) + b[n + 1:] \
            if n < len(b) else b
    if k == 'set':
        return b[:n] + bytes([op[2]]) + b[n + 1:]
    if k == 'ins':
        return b[:n] + op[2] + b[n:]
    return b[:n] + b[n + op[2]:]


@st.composite
def cases(draw):
    name = draw(st.sampled_from(WEIGHTED))
    _, names, _, valid = P[name]
    f = draw(valid)
    b = f()
    how = []
    if draw(st.integers(0, 3)) == 0:
        size = draw(st.sampled_from([3, 5, 9]))
        _, n = wire.widened(f, 0, 1)
        if n:
            b, _ = wire.widened(f, draw(st.integers(1, n)), size)
            how.append('widened')
    for op in draw(st.lists(OP, max_size=2)):
        b = mutate(b, op)
        how.append(op[0])
    return {'net': draw(gen.net(names)), 'parser': name, 'data': b,
            'how': how}


def try_parse(c, info):
    cls, _, encode, _ = P[c['parser']]
    lib.select(c['net'])
    data = bytes(c['data'])
    info.label(c['parser'], *c['how'])
    results = []
    buf = bytearray(data)
    text = data.hex().upper() if len(data) % 2 else data.hex()
    for parse, arg in ((cls.from_bytes, data), (cls.from_hex, text),
                       (cls.from_bytes, buf)):
        try:
            results.append(parse(arg))
        except Exception as e:
            results.append(None)
            if isinstance(e, (RecursionError, MemoryError)):
                raise Violation('%s exhausts the interpreter' % c['parser'])
    x, y, z = results
    eq(x is None, y is None, 'from_hex and from_bytes disagree')
    eq(x is None, z is None, 'from_bytes and a bytearray disagree')
    if x is None:
        info.label('refused')
        return
    info.label('accepted')
    got = x.to_bytes()
    eq(y.to_bytes(), got, 'from_hex and from_bytes give different bytes')
    for k in range(len(buf)):
        buf[k] ^= 0xff
    eq(z.to_bytes(), got, 'bytes parsed from a bytearray that changed since')
    eq(encode(z), got, 'fields parsed from a bytearray that changed since')
    if not data.startswith(got):
        raise Violation('%s: parsed %s, serialises to %s' % (
            c['parser'], short(data), short(got)),
            c['parser'] + ' alters bytes')
    eq(got, encode(x), c['parser'] + ' bytes against its own fields')
    eq(cls.from_bytes(got).to_bytes(), got, 'parsing twice')


@sub('P02', 'mutated', cases(), 5000,
     rule='a mutated encoding (whether refused or accepted)')
def check(c, info):
    info.nt(bool(c['how']))
    try_parse(c, info)


@st.composite
def random_cases(draw):
    name = draw(st.sampled_from(list(P)))
    data = draw(st.one_of(
        st.binary(max_size=80),
        gen.sized(st.sampled_from([0, 1, 36, 40, 41, 60, 300, 1802]))))
    head = {'Tx': [b'\x01\x00\x00\x00\x01', b'\x02\x00\x00\x00\x00\x01\x01'],
            'OverwinterTx': [bytes.fromhex('030000807082c403')],
            'SaplingTx': [bytes.fromhex('0400008085202f89')],
            'SproutTx': [b'\x02\x00\x00\x00\x00', b'\x01\x00\x00\x00\x01']}
    if name in head:
        data = draw(st.sampled_from(head[name])) + data
    return {'net': draw(gen.net(P[name][1])), 'parser': name, 'data': data,
            'how': ['random']}


@sub('P02', 'random', random_cases(), 1600, rule='forty bytes or more')
def check_random(c, info):
    info.nt(len(c['data']) >= 40)
    try_parse(c, info)


def filled(layout, seed):
    """a struct of bytes that are all different from zero"""
    n = wire.layout_size(layout)
    d = wire.split(layout, bytes(1 + (seed + k * 7) % 255 for k in range(n)))
    if 'vpub_old' in d:
        d['vpub_old'] = bytes(8)
    return d


def rich():
    """(parser, network, encoding) with several of everything"""
    i = {'txid': b'\x11' * 32, 'idx': 1, 'stack': b'\x02\xaa\xbb',
         'redeem': b'\x01\x51', 'seq': 7}
    o = {'val': 5, 'spk': b'\x00\x14' + b'\x22' * 20}
    t = {'ver': 2, 'flag': True, 'ins': [i, dict(i, stack=b'', redeem=b'')],
         'outs': [o, dict(o, spk=b'\x51')],
         'wits': [[b'\x33' * 3, b''], [b'\x44' * 5]], 'lock': 9}
    net = 'bitcoin_main'
    out = [('Tx', net, wire.tx(t)), ('Tx', net, wire.tx(dict(t, flag=False))),
           ('TxIn', net, wire.txin(i)), ('TxOut', net, wire.txout(o)),
           ('InputWitness', net, wire.stack(t['wits'][0])),
           ('WitnessStackItem', net, wire.pref(b'\x55' * 9)),
           ('Outpoint', net, wire.outpoint(i))]
    z = {'ins': t['ins'], 'outs': t['outs'], 'lock': 9, 'ver': 2,
         'expiry': 77, 'pubkey': b'\x66' * 32, 'sig': b'\x77' * 64,
         'balance': -5, 'binding': b'\x88' * 64, 'spends': [], 'souts': []}
    for kind, lay in (('sprout', wire.JS_SPROUT),
                      ('overwinter', wire.JS_SPROUT),
                      ('sapling', wire.JS_SAPLING)):
        net = 'zcash_%s_main' % kind
        name = kind.capitalize() + 'Tx'
        for n in (0, 1):
            out.append((name, net, wire.zcash(kind, dict(
                z, js=[filled(lay, k) for k in range(n)],
                balance=0))))
    for spends, souts in ((1, 1), (2, 0), (0, 2)):
        out.append(('SaplingTx', net, wire.sapling(dict(
            z, js=[], spends=[filled(wire.SPEND, k) for k in range(spends)],
            souts=[filled(wire.OUTPUT, k) for k in range(souts)]))))
    for name, lay in (('SproutZkproof', wire.ZK_SPROUT),
                      ('SproutJoinsplit', wire.JS_SPROUT),
                      ('SaplingZkproof', wire.ZK_SAPLING),
                      ('SaplingJoinsplit', wire.JS_SAPLING),
                      ('SaplingShieldedSpend', wire.SPEND),
                      ('SaplingShieldedOutput', wire.OUTPUT)):
        out.append((name, net, wire.struct(lay, filled(lay, 3))))
    d = {'txid': b'\x11' * 32, 'idx': 1, 'tree': 1, 'seq': 7}
    net = 'decred_main'
    out += [('DecredOutpoint', net, wire.dcr_outpoint(d)),
            ('DecredTxIn', net, wire.dcr_txin(d)),
            ('DecredTxOut', net, wire.dcr_txout(dict(o, ver=3)))]
    return out


def pieces(tier):
    """every truncation of a rich encoding per parser"""
    out = []
    for name, net, b in rich():
        step = 1 if tier != 'quick' or len(b) < 500 else 5
        for k in range(len(b)):
            if k % step == 0 or k < 250 or k > len(b) - 100:
                out.append({'net': net, 'parser': name, 'data': b[:k],
                            'how': ['truncated']})
    return out


@sub('P02', 'truncated', None, 0, rule='every proper prefix', enum=pieces)
def check_truncated(c, info):
    info.nt()
    try_parse(c, info)


def altered(tier):
    """every byte of a rich encoding per parser in turn changed"""
    out = []
    full = tier != 'quick'
    for name, net, b in rich():
        step = 1 if full or len(b) < 500 else 9
        for k in range(len(b)):
            if k % step and 250 < k < len(b) - 100:
                continue
            new = {b[k] ^ 1 << (k % 8), 0xfd, (b[k] + 1) % 256}
            if full:
                new |= {b[k] ^ 1 << j for j in range(8)} | {0, 0xfe, 0xff}
            for v in sorted(new - {b[k]}):
                out.append({'net': net, 'parser': name, 'how': ['altered'],
                            'data': b[:k] + bytes([v]) + b[k + 1:]})
            out.append({'net': net, 'parser': name, 'how': ['deleted'],
                        'data': b[:k] + b[k + 1:]})
            out.append({'net': net, 'parser': name, 'how': ['doubled'],
                        'data': b[:k] + b[k:k + 1] + b[k:]})
    return out


@sub('P02', 'altered', None, 0, rule='every byte in turn changed',
     enum=altered)
def check_altered(c, info):
    info.nt()
    try_parse(c, info)
