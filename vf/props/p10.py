"""Decred serialisation, ids and digests."""
import random

from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, refuses, sub
from vf.ref import hashes, nets, sighash as sh, wire


def forms(x, t, what):
    eq(x.to_bytes(), wire.dcr_full(t), what + ' full')
    eq(x.hex(), wire.dcr_full(t).hex(), what + ' hex')
    eq(x.prefix(), wire.dcr_prefix(t), what + ' prefix')
    eq(x.witness(), wire.dcr_witness(t), what + ' witness')
    eq(x.witness_signing(), wire.dcr_witness_signing(t),
       what + ' witness signing')
    eq(x.prefix_hash(), hashes.blake256(wire.dcr_prefix(t)),
       what + ' prefix hash')
    eq(x.witness_hash(), hashes.blake256(wire.dcr_witness(t)),
       what + ' witness hash')
    eq(x.witness_signing_hash(),
       hashes.blake256(wire.dcr_witness_signing(t)),
       what + ' witness signing hash')
    eq(x.tx_id_le, wire.dcr_txid(t), what + ' tx_id_le')
    eq(x.tx_id, wire.dcr_txid(t)[::-1], what + ' tx_id')


@sub('P10', 'forms', st.fixed_dictionaries(
    {'net': st.sampled_from(nets.DECRED), 't': gen.decred(long=True)}), 1400,
    rule='two or more inputs or outputs')
def check_forms(c, info):
    lib.select(c['net'])
    t = c['t']
    info.nt(len(t['ins']) > 1 or len(t['outs']) > 1)
    x = lib.decred(t)
    forms(x, t, 'built')
    forms(x.copy(), t, 'copied')
    forms(x.copy(tx_witnesses=[]), dict(t, wits=[]), 'without witnesses')


@sub('P10', 'component', st.fixed_dictionaries(
    {'net': st.sampled_from(nets.DECRED), 't': gen.decred(),
     'tail': gen.sized(st.sampled_from([0, 1, 9]))}), 700,
    rule='bytes after the component')
def check_component(c, info):
    lib.select(c['net'])
    t, tail = c['t'], c['tail']
    info.nt(bool(tail))
    for i in t['ins']:
        b = wire.dcr_outpoint(i)
        y = lib.dcr.DecredOutpoint.from_bytes(b + tail)
        for x in (lib.dcr_outpoint(i), y, y.copy()):
            eq((lib.b(x), lib.b(x.tx_id), lib.n(x.index), lib.n(x.tree)),
               (b, i['txid'], i['idx'], i['tree']), 'outpoint')
        b = wire.dcr_txin(i)
        y = lib.dcr.DecredTxIn.from_bytes(b + tail)
        for x in (lib.dcr_txin(i), y, y.copy()):
            eq((lib.b(x), lib.b(x.outpoint), lib.n(x.sequence)),
               (b, wire.dcr_outpoint(i), i['seq']), 'input')
    for o in t['outs']:
        b = wire.dcr_txout(o)
        y = lib.dcr.DecredTxOut.from_bytes(b + tail)
        for x in (lib.dcr_txout(o), y, y.copy()):
            eq((lib.b(x), lib.n(x.value), lib.n(x.version),
                lib.b(x.output_script)),
               (b, o['val'], o['ver'], o['spk']), 'output')
    for w in t['wits']:
        x = lib.dcr_wit(w)
        for y in (x, x.copy()):
            eq((lib.b(y), lib.n(y.value), lib.n(y.height), lib.n(y.index),
                lib.b(y.stack_script), lib.b(y.redeem_script),
                lib.b(y.script_sig)),
               (wire.dcr_wit(w), w['val'], w['height'], w['index'],
                w['stack'], w['redeem'], w['stack'] + w['redeem']),
               'witness')


def digest(c, info):
    lib.select(c['net'])
    t = c['t']
    x = lib.decred(t)
    if c['via'] == 'copied':
        x = x.copy()
    info.label('single' if c['single'] else 'all')
    if c['acp']:
        info.label('acp')
    info.nt(len(t['ins']) > 1 and len(t['outs']) > 1)
    f = x.sighash_single if c['single'] else x.sighash_all
    kw = {'index': c['index'], 'script': c['script']}
    if c['acp'] or c['via'] == 'copied':
        kw['anyone_can_pay'] = c['acp']
    ht = sh.SINGLE if c['single'] else sh.ALL
    before = x.to_bytes()
    try:
        want = sh.decred(t, c['index'], c['script'], ht, c['acp'])
    except sh.Refused:
        info.label('undefined')
        refuses(lambda: f(**kw), 'Decred undefined digest')
    else:
        eq(f(**kw), want, 'Decred digest')
        bare = lib.decred(dict(t, wits=[
            dict(w, val=0, height=0, index=0, stack=b'', redeem=b'')
            for w in t['wits']]))
        g = bare.sighash_single if c['single'] else bare.sighash_all
        eq(g(**kw), want, 'Decred digest without witness data')
    eq(x.to_bytes(), before, 'the transaction after a digest')
    eq(x.prefix_hash(), wire.dcr_txid(t), 'the id after a digest')
    refuses(x.sighash_none, 'sighash_none')


@sub('P10', 'digest', gen.sigcase(gen.decred(long=True), nets.DECRED,
                                  main='decred_main', long=True), 1600,
     rule='at least two inputs and two outputs')
def check_digest(c, info):
    digest(c, info)


@st.composite
def wide(draw):
    return {'n_in': draw(gen.COUNT), 'n_out': draw(gen.COUNT),
            'seed': draw(st.integers(0, 2 ** 32)),
            'single': draw(st.booleans()), 'acp': draw(st.booleans()),
            'pick': draw(st.integers(0, 299))}


@sub('P10', 'wide', wide(), 120, rule='at least two inputs and two outputs')
def check_wide(c, info):
    r = random.Random(c['seed'])
    rb = lambda n: r.getrandbits(8 * n + 8).to_bytes(n + 1, 'big')[1:]
    t = {'ver': 1, 'sertype': 0, 'lock': 3, 'expiry': 4,
         'ins': [{'txid': rb(32), 'idx': r.getrandbits(32), 'tree': 0,
                  'seq': r.getrandbits(32)} for _ in range(c['n_in'])],
         'outs': [{'val': r.getrandbits(50), 'ver': r.getrandbits(16),
                   'spk': rb(3)} for _ in range(c['n_out'])],
         'wits': [{'val': r.getrandbits(50), 'height': 1, 'index': 2,
                   'stack': rb(2), 'redeem': b''}
                  for _ in range(c['n_in'])]}
    lib.select('decred_main')
    forms(lib.decred(t), t, 'wide')
    digest({'net': 'decred_main', 't': t, 'index': c['pick'] % c['n_in'],
            'script': b'\x76\xa9', 'single': c['single'], 'acp': c['acp'],
            'via': 'built'}, info)
