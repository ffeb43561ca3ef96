"""Fees."""
import random

from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, sub
from vf.ref import nets

VALUE = st.one_of(gen.U64, st.integers(0, 10 ** 10))
VALUES = st.lists(VALUE, max_size=6)
VIA = st.sampled_from(['built', 'built', 'parsed', 'copied'])


def shapes(values, seed):
    """the same values, differently listed"""
    yield list(values)
    yield tuple(values)
    v = list(values)
    random.Random(seed).shuffle(v)
    yield v
    if v:
        yield [sum(v)]
        k = 1 + seed % len(v)
        yield [sum(v[:k]), sum(v[k:])]
    yield list(reversed(values))
    yield [0] + list(values) + [0]


def judge(c, x, want, info):
    before = x.to_bytes()
    for v in shapes(c['values'], c['seed']):
        eq(x.calculate_fee(v), want, 'the fee with %r' % (v,), 'fee')
    eq(x.calculate_fee(input_values=c['values']), want, 'the fee by name')
    eq(x.to_bytes(), before, 'the transaction after its fee')
    info.label('negative fee' if want < 0 else 'fee')


@st.composite
def btc_cases(draw):
    t = draw(gen.tx(simple=True, max_out=6, long=True))
    return {'net': draw(gen.net(nets.BITCOIN)), 't': t,
            'values': draw(VALUES), 'seed': draw(st.integers(0, 999)),
            'via': draw(VIA)}


@sub('P23', 'bitcoin', btc_cases(), 3000, rule='two outputs and two values')
def check_bitcoin(c, info):
    lib.select(c['net'])
    t = c['t']
    x = lib.twice(lib.tx(t), c['via'], lib.btc.Tx.from_bytes)
    info.nt(len(t['outs']) > 1 and len(c['values']) > 1)
    judge(c, x, sum(c['values']) - sum(o['val'] for o in t['outs']), info)
    # a transaction of the parts of two
    if len(t['outs']) > 1:
        a = x.copy(tx_outs=x.tx_outs[:1]).calculate_fee(c['values'])
        b = x.copy(tx_outs=x.tx_outs[1:]).calculate_fee([0])
        eq(a + b, x.calculate_fee(c['values']), 'the fees of two parts')


@st.composite
def zcash_cases(draw):
    kind = draw(st.sampled_from(['sprout', 'overwinter', 'sapling',
                                 'sapling']))
    return {'kind': kind, 'net': draw(st.sampled_from(gen.ZNETS[kind])),
            't': draw(gen.zcash(kind, long=True)), 'values': draw(VALUES),
            'seed': draw(st.integers(0, 999)), 'via': draw(VIA)}


@sub('P23', 'zcash', zcash_cases(), 2500,
     rule='shielded value goes in or out')
def check_zcash(c, info):
    """Shielded value that becomes transparent counts as spent, and the
    other way round."""
    lib.select(c['net'])
    t, kind = c['t'], c['kind']
    x = lib.twice(lib.zcash(kind, t), c['via'],
                  lib.ZCLASS[kind].from_bytes)
    n = lambda b: int.from_bytes(b, 'little')
    out_of = sum(n(j['vpub_new']) for j in t['js'])
    into = sum(n(j['vpub_old']) for j in t['js'])
    balance = t['balance'] if kind == 'sapling' else 0
    info.nt(out_of or into or balance)
    info.label(kind)
    for name, v in (('out of the pool', out_of), ('into the pool', into)):
        if v:
            info.label(name)
    if balance:
        info.label('negative balance' if balance < 0 else 'balance')
    judge(c, x, sum(c['values']) + out_of + balance
          - sum(o['val'] for o in t['outs']) - into, info)


@st.composite
def decred_cases(draw):
    return {'net': draw(st.sampled_from(nets.DECRED)),
            't': draw(gen.decred(max_out=6, long=True)),
            'drop': draw(st.booleans()), 'via': draw(st.sampled_from(
                ['built', 'copied']))}


@sub('P23', 'decred', decred_cases(), 1500,
     rule='two outputs and two witnesses')
def check_decred(c, info):
    """Decred witnesses carry the spent values."""
    lib.select(c['net'])
    t = c['t']
    x = lib.twice(lib.decred(t), c['via'])
    wits = t['wits']
    if c['drop']:
        # no witnesses: no stated value
        x = x.copy(tx_witnesses=[])
        wits = []
    info.nt(len(t['outs']) > 1 and len(wits) > 1)
    want = sum(w['val'] for w in wits) - sum(o['val'] for o in t['outs'])
    before = x.to_bytes()
    eq(x.calculate_fee(), want, 'the fee')
    eq(x.copy(tx_outs=list(reversed(x.tx_outs))).calculate_fee(), want,
       'the fee of reversed outputs')
    eq(x.copy(tx_witnesses=list(reversed(x.tx_witnesses))).calculate_fee(),
       want, 'the fee of reversed witnesses')
    eq(x.to_bytes(), before, 'the transaction after its fee')


@sub('P23', 'wide', st.fixed_dictionaries({
    'w': gen.WIDE, 'seed': st.integers(0, 99)}), 60, rule='over 252 outputs')
def check_wide(c, info):
    lib.select('bitcoin_main')
    t = gen.wide_tx(c['w'])
    r = random.Random(c['seed'])
    values = [r.getrandbits(r.choice([1, 33, 51, 64])) for _ in t['ins']]
    info.nt(len(t['outs']) > 252)
    judge({'values': values, 'seed': c['seed']}, lib.tx(t),
          sum(values) - sum(o['val'] for o in t['outs']), info)
