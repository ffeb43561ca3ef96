"""Segwit signature digests (BIP143)."""
from vf import gen, lib
from vf.core import eq, ok, sub
from vf.props import p04
from vf.ref import nets, sighash as sh, wire


@sub('P05', 'digest', gen.sigcase(gen.tx(segwit=True, long=True), nets.PLAIN,
                                  long=True), 3000,
     rule='at least two inputs and two outputs')
def check(c, info):
    lib.select(c['net'])
    t = c['t']
    ht = sh.SINGLE if c['single'] else sh.ALL
    x = p04.made(c)

    def want():
        return sh.bip143(t, c['index'], c['script'], c['value'], ht,
                         c['acp'])
    p04.check_digest(c, info, want, 'BIP143 digest', c['value'], x)
    try:
        w = want()
    except sh.Refused:
        return
    f = x.sighash_single if c['single'] else x.sighash_all
    kw = {'index': c['index'], 'script': lib.lp(c['script']),
          'anyone_can_pay': c['acp']}
    eq(x.segwit_sighash(sighash_type=ht,
                        prevout_value=wire.le(c['value'], 8), **kw), w,
       'segwit_sighash')
    if not c['acp']:
        eq(x.segwit_sighash(c['index'], ht, wire.le(c['value'], 8),
                            lib.lp(c['script'])), w,
           'segwit_sighash without ANYONECANPAY')
    try:          # SIGHASH_NONE is refused; never a digest of something else
        d = x.segwit_sighash(sighash_type=sh.NONE, prevout_value=wire.le(
            c['value'], 8), **kw)
    except NotImplementedError:
        pass
    else:
        eq(d, sh.bip143(t, c['index'], c['script'], c['value'], sh.NONE,
                        c['acp']), 'segwit_sighash of SIGHASH_NONE')
    other = (c['value'] + 1) % 2 ** 64
    ok(f(prevout_value=wire.le(other, 8), **kw) != w,
       'the digest does not commit to the value')
    # witnesses and script sigs do not matter
    bare = lib.tx(dict(t, wits=None, ins=[dict(i, stack=b'', redeem=b'')
                                          for i in t['ins']]))
    g = bare.sighash_single if c['single'] else bare.sighash_all
    eq(g(prevout_value=wire.le(c['value'], 8), **kw), w,
       'digest without witnesses')


@sub('P05', 'wide', p04.wide(True, nets.PLAIN), 240,
     rule='at least two inputs and two outputs')
def check_wide(c, info):
    lib.select(c['net'])
    c = dict(c, t=gen.wide_tx(c['spec']))
    ht = sh.SINGLE if c['single'] else sh.ALL
    p04.check_digest(c, info, lambda: sh.bip143(
        c['t'], c['index'], c['script'], c['value'], ht, c['acp']),
        'BIP143 digest', c['value'])
