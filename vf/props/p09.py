"""Sprout: version 1 and 2 transactions, and their digests."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, refuses, sub
from vf.ref import nets, sighash as sh, wire


def same(x, t, what):
    eq(lib.un_zcash('sprout', x), lib.want_zcash(t), what + ' fields')
    eq(x.to_bytes(), wire.sprout(t), what + ' bytes')
    eq(x.hex(), wire.sprout(t).hex(), what + ' hex')


@sub('P09', 'roundtrip', st.fixed_dictionaries(
    {'net': st.sampled_from(nets.SPROUT), 't': gen.zcash('sprout', long=True)}), 2000,
    rule='joinsplits, or two inputs and two outputs')
def check_roundtrip(c, info):
    lib.select(c['net'])
    t = c['t']
    info.label('version %d' % t['ver'], '%d joinsplits' % len(t['js']))
    info.nt(bool(t['js']) or len(t['ins']) > 1 and len(t['outs']) > 1)
    x = lib.zcash('sprout', t)
    same(x, t, 'built')
    b = wire.sprout(t)
    for parse, arg in ((lib.spr.SproutTx.from_bytes, b),
                       (lib.spr.SproutTx.from_hex, b.hex())):
        y = lib.parsed(parse, arg, t)
        if y is not None:
            same(y, t, 'parsed')
    same(x.copy(), t, 'copied')
    if t['ver'] == 1:
        # an ordinary Bitcoin transaction
        if t['ins'] and t['outs']:
            u = dict(t, flag=False, wits=None)
            eq(lib.tx(u).to_bytes(), b, 'as a Bitcoin transaction')
        if not t['js']:
            y = lib.spr.SproutTx(
                version=wire.le(1, 4), tx_ins=x.tx_ins, tx_outs=x.tx_outs,
                lock_time=x.lock_time, tx_joinsplits=None,
                joinsplit_pubkey=None, joinsplit_sig=None)
            same(y, t, 'joinsplits left out')


@st.composite
def cases(draw):
    t = draw(gen.zcash('sprout', 3, long=True))
    n = len(t['ins'])
    index = draw(st.integers(0, max(0, n - 1)))
    if draw(st.integers(0, 29)) == 0 and n:
        index = n + draw(st.integers(0, 2))
    script, _, index = gen.related(t, draw(gen.MIX),
                                   draw(gen.SCRIPT_CODE), 0, index)
    return {'net': draw(st.sampled_from(nets.SPROUT)), 't': t,
            'index': index, 'script': script,
            'single': draw(st.booleans()), 'acp': draw(st.booleans()),
            'via': draw(gen.VIA), 'blank': draw(st.booleans())}


@sub('P09', 'digest', cases(), 3000,
     rule='joinsplits, or two inputs and two outputs')
def check_digest(c, info):
    lib.select(c['net'])
    t = c['t']
    info.label('single' if c['single'] else 'all', c['via'],
               'version %d' % t['ver'])
    info.nt(bool(t['js']) or len(t['ins']) > 1 and len(t['outs']) > 1)
    if c['blank'] and t['js']:
        # the joinsplit signature is not committed to, it may be missing
        x = lib.zcash('sprout', dict(t, sig=b''))
        info.label('no joinsplit sig')
    else:
        x = lib.zcash('sprout', t)
        x = lib.twice(x, c['via'], lib.spr.SproutTx.from_bytes)
    f = x.sighash_single if c['single'] else x.sighash_all
    kw = {'index': c['index'], 'script': lib.lp(c['script'])}
    if c['acp'] or c['via'] == 'copied':
        kw['anyone_can_pay'] = c['acp']
    before = x.to_bytes()
    ht = sh.SINGLE if c['single'] else sh.ALL
    try:
        want = sh.sprout(t, c['index'], c['script'], ht, c['acp'])
    except sh.Refused:
        info.label('undefined')
        refuses(lambda: f(**kw), 'Sprout undefined digest')
    else:
        eq(f(**kw), want, 'Sprout digest')
    eq(x.to_bytes(), before, 'the transaction after a digest')


@st.composite
def limits(draw):
    n = draw(st.sampled_from([0, 1, 4, 5, 6, 7]))
    return {'ver': draw(st.sampled_from([0, 1, 2, 2, 2, 3, 4])), 'n': n,
            'seed': draw(st.integers(0, 2 ** 32)),
            'ins': draw(st.integers(0, 1)), 'key': draw(
                st.sampled_from([32, 32, 32, 31, 33, 0])),
            'sig': draw(st.sampled_from([64, 64, 64, 63, 65, 1]))}


@sub('P09', 'limits', limits(), 400, rule='version 2 with joinsplits')
def check_limits(c, info):
    """Versions, joinsplit counts, key and signature sizes."""
    lib.select('zcash_sprout_main')
    js = [dict(wire.split(wire.JS_SPROUT, gen.stretch(c['seed'] + k, 1802)),
               vpub_new=bytes(8)) for k in range(c['n'])]
    i = {'txid': b'\x01' * 32, 'idx': 0, 'stack': b'', 'redeem': b'',
         'seq': 0}
    t = {'ver': c['ver'], 'ins': [i] * c['ins'], 'outs': [], 'lock': 0,
         'js': js, 'pubkey': bytes(c['key']), 'sig': bytes(c['sig'])}
    legal = c['ver'] in (1, 2)
    if c['ver'] == 1:
        legal = c['n'] == 0 and c['ins'] == 1
    elif c['n']:
        legal = legal and c['n'] <= 5 and c['key'] == 32 and c['sig'] == 64
    info.nt(c['ver'] == 2 and c['n'] > 0)
    info.label('legal' if legal else 'illegal')
    if legal:
        eq(lib.zcash('sprout', t).to_bytes(), wire.sprout(t), 'at the limit')
    else:
        refuses(lambda: lib.zcash('sprout', t), 'beyond the limits')
