"""Legacy signature digests."""
from vf import gen, lib
from vf.core import eq, refuses, sub
from vf.ref import nets, sighash as sh, wire


def made(c):
    x = lib.tx(c['t'])
    if c['via'] == 'bytearrays':
        return lib.btc.Tx(
            version=bytearray(x.version), flag=x.flag,
            tx_ins=list(x.tx_ins), tx_outs=list(x.tx_outs),
            tx_witnesses=x.tx_witnesses, lock_time=bytearray(x.lock_time))
    return lib.twice(x, c['via'], lib.btc.Tx.from_bytes)


def labels(c, info):
    t = c['t']
    info.label('single' if c['single'] else 'all', c['via'])
    if c['acp']:
        info.label('acp')
    if c['single'] and c['index'] >= len(t['outs']):
        info.label('beyond outputs')
    if c['index'] >= len(t['ins']):
        info.label('beyond inputs')
    info.nt(len(t['ins']) > 1 and len(t['outs']) > 1)


def check_digest(c, info, want, what, value=None, x=None):
    """`want()` gives the digest, or raises sh.Refused"""
    labels(c, info)
    if x is None:
        x = made(c)
    f = x.sighash_single if c['single'] else x.sighash_all
    script = lib.lp(c['script'])
    if c['via'] == 'bytearrays':
        script = bytearray(script)
    kw = {'index': c['index'], 'script': script}
    if value is not None:
        kw['prevout_value'] = wire.le(value, 8)
    if c['acp'] or c['via'] == 'copied':
        kw['anyone_can_pay'] = c['acp']
    before = x.to_bytes()
    try:
        w = want()
    except sh.Refused:
        refuses(lambda: f(**kw), what + ' undefined digest')
    else:
        eq(f(**kw), w, what)
        eq(f(**kw), w, what + ' asked again')
    eq(x.to_bytes(), before, 'the transaction after a digest')
    refuses(x.sighash_none, 'sighash_none')


@sub('P04', 'digest', gen.sigcase(gen.tx(segwit=False, long=True),
                                  nets.PLAIN), 3000,
     rule='at least two inputs and two outputs')
def check(c, info):
    lib.select(c['net'])
    ht = sh.SINGLE if c['single'] else sh.ALL
    check_digest(c, info, lambda: sh.legacy(
        c['t'], c['index'], c['script'], ht, c['acp']), 'legacy digest',
        c['value'] if c['value'] % 3 == 0 else None)


def wide(segwit, names):
    from hypothesis import strategies as st
    spec = gen.WIDE.map(lambda s: dict(s, segwit=segwit))

    @st.composite
    def cases(draw):
        s = draw(spec)
        n = s['n_in']
        return {'net': draw(gen.net(names)), 'spec': s,
                'index': draw(st.one_of(st.just(n - 1),
                                        st.integers(0, n - 1))),
                'script': draw(gen.SCRIPT_CODE), 'value': draw(gen.U64),
                'single': draw(st.booleans()), 'acp': draw(st.booleans()),
                'via': 'built'}
    return cases()


@sub('P04', 'wide', wide(False, nets.PLAIN), 240,
     rule='at least two inputs and two outputs')
def check_wide(c, info):
    lib.select(c['net'])
    c = dict(c, t=gen.wide_tx(c['spec']))
    ht = sh.SINGLE if c['single'] else sh.ALL
    check_digest(c, info, lambda: sh.legacy(
        c['t'], c['index'], c['script'], ht, c['acp']), 'legacy digest')
