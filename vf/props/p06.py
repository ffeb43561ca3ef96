"""Replay-protected digests on the networks with a fork id."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, ok, refuses, sub
from vf.props import p04
from vf.ref import nets, sighash as sh, wire


@sub('P06', 'digest', gen.sigcase(gen.tx(long=True), nets.FORKID, long=True,
                                  main='bitcoin_cash_main'), 3000,
     rule='at least two inputs and two outputs')
def check(c, info):
    lib.select(c['net'])
    t = c['t']
    ht = sh.SINGLE if c['single'] else sh.ALL
    fork = nets.TABLE[c['net']]['FORKID']
    x = p04.made(c)
    info.label('segwit' if t['flag'] else 'legacy', 'fork %d' % fork)

    def want():
        return sh.bip143(t, c['index'], c['script'], c['value'], ht,
                         c['acp'], fork)
    p04.check_digest(c, info, want, 'fork id digest', c['value'], x)
    kw = {'index': c['index'], 'script': lib.lp(c['script']),
          'anyone_can_pay': c['acp']}
    f = x.sighash_single if c['single'] else x.sighash_all
    refuses(lambda: f(**kw), 'a digest without the value')
    try:
        w = want()
    except sh.Refused:
        return
    for h in (sh.ALL, sh.SINGLE):
        for acp in (False, True):
            for model in (lambda: sh.bip143(t, c['index'], c['script'],
                                            c['value'], h, acp),
                          lambda: sh.legacy(t, c['index'], c['script'], h,
                                            acp)):
                try:
                    ok(model() != w, 'the digest is valid on Bitcoin')
                except sh.Refused:
                    pass
    got = f(prevout_value=wire.le((c['value'] + 1) % 2 ** 64, 8), **kw)
    ok(bytes(got) != w, 'the digest does not commit to the value')


NETS = st.lists(st.sampled_from(nets.FORKID + nets.FORKID + nets.PLAIN),
                min_size=2, max_size=5)


@sub('P06', 'switch', st.fixed_dictionaries(
    {'nets': NETS, 'c': gen.sigcase(gen.tx(max_in=2, max_out=2),
                                    nets.BITCOIN)}), 800,
    rule='networks with and without a fork id in one history')
def check_switch(case, info):
    """One object, many networks: the digest follows the selection."""
    c = case['c']
    t = c['t']
    if c['index'] >= len(t['ins']) or (
            c['single'] and c['index'] >= len(t['outs'])):
        return
    lib.select(case['nets'][0])
    x = lib.tx(t)
    ht = sh.SINGLE if c['single'] else sh.ALL
    forks = [nets.TABLE[n]['FORKID'] for n in case['nets']]
    info.nt(None in forks and any(f is not None for f in forks))
    for n, fork in zip(case['nets'], forks):
        lib.select(n)
        f = x.sighash_single if c['single'] else x.sighash_all
        got = f(index=c['index'], script=lib.lp(c['script']),
                prevout_value=wire.le(c['value'], 8),
                anyone_can_pay=c['acp'])
        if fork is None and not t['flag']:
            want = sh.legacy(t, c['index'], c['script'], ht, c['acp'])
        else:
            want = sh.bip143(t, c['index'], c['script'], c['value'], ht,
                             c['acp'], fork)
        eq(got, want, 'digest on %s' % n)


@sub('P06', 'wide', p04.wide(False, nets.FORKID), 160,
     rule='at least two inputs and two outputs')
def check_wide(c, info):
    lib.select(c['net'])
    c = dict(c, t=gen.wide_tx(c['spec']))
    ht = sh.SINGLE if c['single'] else sh.ALL
    p04.check_digest(c, info, lambda: sh.bip143(
        c['t'], c['index'], c['script'], c['value'], ht, c['acp'],
        nets.TABLE[c['net']]['FORKID']), 'fork id digest', c['value'])
