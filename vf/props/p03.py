"""Transaction ids hash the right bytes."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, ok, sub
from vf.ref import nets, wire


def ids(x, txid, what):
    eq(x.tx_id_le, txid, what + ' tx_id_le')
    eq(x.tx_id, txid[::-1], what + ' tx_id')


@sub('P03', 'tx', st.fixed_dictionaries(
    {'net': gen.net(nets.BITCOIN), 't': gen.tx(long=True),
     'wits': st.lists(gen.WITNESS_STACK, min_size=4, max_size=4)}), 2000,
    rule='the transaction carries witnesses')
def check_tx(c, info):
    lib.select(c['net'])
    t = c['t']
    x = lib.tx(t)
    info.label('segwit' if t['flag'] else 'legacy')
    info.nt(bool(t['wits']) and any(t['wits']))
    made = [('built', x), ('parsed', lib.parsed(lib.btc.Tx.from_bytes, wire.tx(t), t)),
            ('hex', lib.parsed(lib.btc.Tx.from_hex, wire.tx(t).hex(), t)),
            ('copied', x.copy())]
    for what, y in made:
        if y is not None:
            one(y, t, what)
    if not t['flag']:
        return
    # other witnesses, the same transaction id
    t2 = dict(t, wits=[c['wits'][k % 4] for k in range(len(t['ins']))])
    y = x.copy(tx_witnesses=[lib.witness(w) for w in t2['wits']])
    one(y, t2, 'other witnesses')
    eq(y.tx_id, x.tx_id, 'tx_id with other witnesses')
    if wire.tx(t) != wire.tx(t2):
        ok(y.wtx_id != x.wtx_id, 'wtx_id does not depend on the witnesses')
    # and the same as without the flag
    bare = lib.tx(dict(t, flag=False, wits=None))
    eq(bare.tx_id, x.tx_id, 'tx_id without the flag')


def one(x, t, what):
    ids(x, wire.txid(t), what)
    eq(x.no_witness(), wire.tx_base(t), what + ' no_witness')
    w = wire.wtxid(t)
    if t['flag']:
        eq(x.wtx_id_le, w, what + ' wtx_id_le')
        eq(x.wtx_id, w[::-1], what + ' wtx_id')
    else:
        le = getattr(x, 'wtx_id_le', None)
        be = getattr(x, 'wtx_id', None)
        ok(le is None or bytes(le) == w, what + ' legacy wtx_id_le')
        ok(be is None or bytes(be) == w[::-1], what + ' legacy wtx_id')


@sub('P03', 'wide', gen.WIDE, 160, rule='253 or more parts')
def check_wide(c, info):
    lib.select('bitcoin_main')
    t = gen.wide_tx(c)
    info.nt(max(c['n_in'], c['n_out'], c['n_item'] or 0) >= 253)
    one(lib.tx(t), t, 'built')


@st.composite
def zcases(draw):
    kind = draw(st.sampled_from(['sprout', 'overwinter', 'sapling']))
    return {'kind': kind, 'net': draw(st.sampled_from(gen.ZNETS[kind])),
            't': draw(gen.zcash(kind, long=True))}


@sub('P03', 'zcash', zcases(), 900, rule='joinsplits or shielded parts')
def check_zcash(c, info):
    lib.select(c['net'])
    t, kind = c['t'], c['kind']
    x = lib.zcash(kind, t)
    b = wire.zcash(kind, t)
    info.label(kind)
    info.nt(bool(t['js'] or t.get('spends') or t.get('souts')))
    txid = wire.hashes.sha256d(b)
    ids(x, txid, kind)
    y = lib.parsed(lib.ZCLASS[kind].from_bytes, b, t)
    if y is not None:
        ids(y, txid, kind + ' parsed')
    ids(x.copy(), txid, kind + ' copied')


@sub('P03', 'decred', st.fixed_dictionaries(
    {'net': st.sampled_from(nets.DECRED), 't': gen.decred(long=True),
     'wits': gen.decred().map(lambda t: t['wits'])}), 500,
    rule='two or more inputs or outputs')
def check_decred(c, info):
    lib.select(c['net'])
    t = c['t']
    info.nt(len(t['ins']) > 1 or len(t['outs']) > 1)
    x = lib.decred(t)
    ids(x, wire.dcr_txid(t), 'decred')
    y = x.copy(tx_witnesses=[lib.dcr_wit(w) for w in c['wits']])
    ids(y, wire.dcr_txid(t), 'decred with other witnesses')
