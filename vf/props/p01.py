"""Transactions build, serialise and parse by the Bitcoin wire format."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, sub
from vf.ref import nets, wire

def same_fields(x, t, what):
    eq(lib.un_tx(x), lib.want_tx(t), what + ' fields')
    eq(x.hex(), wire.tx(t).hex(), what + ' hex')
    eq(x.to_bytes(), wire.tx(t), what + ' bytes')
    eq(len(x), len(wire.tx(t)), what + ' length')


@sub('P01', 'tx', st.fixed_dictionaries(
    {'net': gen.net(nets.NAMES), 't': gen.tx(long=True)}), 2400,
    rule='two or more inputs or outputs, or a witness')
def check_tx(c, info):
    lib.select(c['net'])
    t = c['t']
    b = wire.tx(t)
    x = lib.tx(t)
    same_fields(x, t, 'built')
    info.label('segwit' if t['flag'] else 'legacy',
               'long' if gen.is_long(t) else 'short')
    info.nt(len(t['ins']) > 1 or len(t['outs']) > 1 or bool(t['wits']))
    eq(x.no_witness(), wire.tx_base(t), 'no_witness')
    eq(x.is_witness(), t['flag'], 'is_witness')
    for how, parse, arg in (('from_bytes', lib.btc.Tx.from_bytes, b),
                            ('from_hex', lib.btc.Tx.from_hex, b.hex())):
        y = lib.parsed(parse, arg, t)
        if y is None:
            continue
        same_fields(y, t, how)
        for got, want in zip(y.tx_ins, t['ins']):
            split_halves(got, want)


def split_halves(got, want):
    """where the split is certain, both halves come back"""
    eq(lib.b(got.stack_script) + lib.b(got.redeem_script),
       want['stack'] + want['redeem'], 'halves of the script sig')
    eq(got.is_p2sh(), lib.b(got.redeem_script) != b'', 'is_p2sh')
    if not want['stack'] and not want['redeem']:
        eq(lib.b(got.redeem_script), b'', 'empty redeem script')


P2SH_IN = st.fixed_dictionaries({
    'txid': gen.HASH32, 'idx': gen.U32, 'stack': gen.STACK,
    'inner': gen.tokens(max_size=6).map(gen.rs.assemble).filter(
        lambda b: 0 < len(b) <= 1000), 'seq': gen.U32})


def small_p2sh(tier):
    """short stacks before short redeem scripts"""
    ones = [b''] + [bytes([k]) for k in range(0x51, 0x61)] + [
        b'\0', b'\x4f', b'\x01\x01', b'\x01\x51', b'\x01\xac', b'\x02\x51\x51',
        b'\x21\x02' + b'\x03' * 32, b'\x47\x30' + b'\x44' * 70,
        b'\x4c\x4c' + b'\x51' * 76, b'\x4c\x4c' + b'\x00' * 76]
    inners = [bytes([k]) for k in sorted(set(
        gen.rs.ops_for(False).values())) if k] + [
        b'\x01\x01', b'\x51\x51', b'\0\0', b'\xa9\x14' + b'\x22' * 20 + b'\x87',
        b'\x51' * 75, b'\x51' * 76, b'\x51' * 255, b'\x51' * 256]
    stacks = ones + [a + b for a in ones[1:] for b in ones[1:]]
    for n, s in enumerate(stacks):
        few = inners if n < len(ones) else inners[n % 7::7]
        for r in few:
            yield {'txid': b'\1' * 32, 'idx': 1, 'stack': s, 'inner': r,
                   'seq': 2 ** 32 - 1}


@sub('P01', 'p2sh', P2SH_IN, 800, rule='a stack before the redeem script',
     enum=small_p2sh)
def check_p2sh(c, info):
    """An input that spends a script hash splits at its last push."""
    lib.select('bitcoin_main')
    i = dict(c, redeem=gen.rs.push(c['inner']))
    if len(i['stack']) + len(i['redeem']) > 1650:
        return
    x = lib.txin(i)
    y = lib.btc.TxIn.from_bytes(wire.txin(i))
    info.nt(bool(i['stack']))
    for z in (x, y):
        eq(z.to_bytes(), wire.txin(i), 'input')
        eq(lib.un_txin(z), {'txid': i['txid'], 'idx': i['idx'],
                            'script': i['stack'] + i['redeem'],
                            'seq': i['seq']}, 'fields')
    if (i['txid'], i['idx']) != (bytes(32), 0xffffffff):
        eq(y.stack_script, i['stack'], 'stack script')
        eq(y.redeem_script, i['redeem'], 'redeem script')


@sub('P01', 'component', st.fixed_dictionaries(
    {'net': gen.net(nets.NAMES), 'in': gen.txin(), 'out': gen.txout(),
     'item': gen.WITNESS_ITEM, 'stack': gen.WITNESS_STACK,
     'tail': gen.sized(st.sampled_from([0, 1, 4, 40]))}), 1600,
    rule='bytes after the component')
def check_component(c, info):
    lib.select(c['net'])
    tail = c['tail']
    info.nt(bool(tail))
    i, o = c['in'], c['out']
    op = lib.outpoint(i)
    eq(op.to_bytes(), wire.outpoint(i), 'outpoint')
    y = lib.btc.Outpoint.from_bytes(wire.outpoint(i) + tail)
    eq((lib.b(y.tx_id), lib.n(y.index), lib.b(y)),
       (i['txid'], i['idx'], wire.outpoint(i)), 'parsed outpoint')
    x = lib.txin(i)
    eq(x.to_bytes(), wire.txin(i), 'input')
    y = lib.btc.TxIn.from_bytes(wire.txin(i) + tail)
    eq(y.to_bytes(), wire.txin(i), 'parsed input')
    eq(lib.un_txin(y), lib.un_txin(x), 'parsed input fields')
    x = lib.txout(o)
    eq(x.to_bytes(), wire.txout(o), 'output')
    y = lib.btc.TxOut.from_bytes(wire.txout(o) + tail)
    eq(y.to_bytes(), wire.txout(o), 'parsed output')
    eq(lib.un_txout(y), o, 'parsed output fields')
    w = lib.btc.WitnessStackItem(c['item'])
    eq(w.to_bytes(), wire.pref(c['item']), 'witness item')
    y = lib.btc.WitnessStackItem.from_bytes(wire.pref(c['item']) + tail)
    eq((lib.b(y.item), lib.b(y)), (c['item'], wire.pref(c['item'])),
       'parsed witness item')
    w = lib.witness(c['stack'])
    eq(w.to_bytes(), wire.stack(c['stack']), 'witness')
    y = lib.btc.InputWitness.from_bytes(wire.stack(c['stack']) + tail)
    eq([lib.b(s.item) for s in y.stack], c['stack'], 'parsed stack')
    eq(y.to_bytes(), wire.stack(c['stack']), 'parsed witness')


@sub('P01', 'wide', gen.WIDE, 320,
     rule='253 or more inputs, outputs or witness items')
def check_wide(c, info):
    lib.select('bitcoin_main')
    t = gen.wide_tx(c)
    info.nt(max(c['n_in'], c['n_out'], c['n_item'] or 0) >= 253)
    same_fields(lib.tx(t), t, 'built')
    y = lib.btc.Tx.from_bytes(wire.tx(t))
    same_fields(y, t, 'parsed')


def huge(tier):
    if tier == 'quick':
        return [{'n_in': 65536, 'n_out': 1}, {'n_in': 1, 'n_out': 65535}]
    return [{'n_in': a, 'n_out': b} for a in (1, 65535, 65536, 65537)
            for b in (1, 65535, 65536, 65537)]


@sub('P01', 'huge', None, 0, rule='65535 or more inputs or outputs',
     enum=huge)
def check_huge(c, info):
    """Counts that need five bytes are written right."""
    lib.select('bitcoin_main')
    info.nt()
    i = {'txid': b'\x07' * 32, 'idx': 1, 'stack': b'', 'redeem': b'',
         'seq': 5}
    o = {'val': 9, 'spk': b'\x51'}
    x = lib.btc.Tx(version=wire.le(1, 4), flag=None,
                   tx_ins=[lib.txin(i)] * c['n_in'],
                   tx_outs=[lib.txout(o)] * c['n_out'],
                   tx_witnesses=None, lock_time=wire.le(0, 4))
    want = (wire.le(1, 4) + wire.cs(c['n_in']) + wire.txin(i) * c['n_in']
            + wire.cs(c['n_out']) + wire.txout(o) * c['n_out']
            + wire.le(0, 4))
    eq(x.to_bytes(), want, 'huge transaction')
    eq((len(x.tx_ins), len(x.tx_outs)), (c['n_in'], c['n_out']), 'counts')
