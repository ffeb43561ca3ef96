"""Overwinter signature digests (ZIP143)."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, refuses, sub
from vf.ref import nets, sighash as sh, wire

MODEL = {'overwinter': sh.zip143, 'sapling': sh.zip243}
KINDS = ['all', 'all', 'single', 'single', 'none']
TYPE = {'all': sh.ALL, 'single': sh.SINGLE, 'none': sh.NONE}


@st.composite
def cases(draw, kind, max_js=5):
    t = draw(gen.zcash(kind, max_js, long=True))
    n = max(len(t['ins']), len(t['outs']))
    index = draw(st.integers(0, max(0, n - 1)))
    if draw(st.integers(0, 19)) == 0:
        index = n + draw(st.integers(0, 2))
    script, value, index = gen.related(
        t, draw(gen.MIX), draw(gen.SCRIPT_CODE_LONG), draw(gen.U64), index)
    return {'kind': kind, 'net': draw(st.sampled_from(gen.ZNETS[kind])),
            't': t, 'index': index, 'script': script, 'value': value,
            'ht': draw(st.sampled_from(KINDS)),
            'acp': draw(st.booleans()),
            'js': draw(st.sampled_from([False, False, True])),
            'direct': draw(st.booleans()), 'via': draw(gen.VIA)}


def run(c, info):
    kind, t = c['kind'], c['t']
    lib.select(c['net'])
    x = lib.twice(lib.zcash(kind, t), c['via'], lib.ZCLASS[kind].from_bytes)
    info.label(c['ht'], c['via'], 'joinsplit' if c['js'] else 'input')
    if c['acp']:
        info.label('acp')
    for k in ('js', 'spends', 'souts'):
        if t.get(k):
            info.label('has ' + k)
    info.nt(bool(t['js'] or t.get('spends') or t.get('souts'))
            or len(t['ins']) > 1 and len(t['outs']) > 1)
    ht = TYPE[c['ht']]
    kw = {'prevout_value': wire.le(c['value'], 8),
          'script_code': lib.lp(c['script']), 'index': c['index']}
    if c['index'] == 0 and c['value'] % 2:     # as by default
        del kw['index']
    if c['js']:
        kw['joinsplit'] = True
    if c['acp'] or c['via'] == 'copied':
        kw['anyone_can_pay'] = c['acp']
    if c['direct'] or c['ht'] == 'none':
        def f():
            return x.sighash(sighash_type=ht, **kw)
    elif c['ht'] == 'single':
        def f():
            return x.sighash_single(**kw)
    else:
        def f():
            return x.sighash_all(**kw)
    before = x.to_bytes()
    try:
        if c['js'] and c['acp']:
            raise sh.Refused()
        want = MODEL[kind](t, c['index'], c['script'], c['value'], ht,
                           c['acp'], c['js'])
    except sh.Refused:
        info.label('undefined')
        refuses(f, kind + ' undefined digest')
    else:
        eq(f(), want, '%s digest' % kind)
        # nothing that is not committed to matters
        bare = lib.zcash(kind, dict(
            t, ins=[dict(i, stack=b'', redeem=b'') for i in t['ins']],
            sig=None if t['sig'] is None else bytes(64),
            **({'binding': None if t['binding'] is None else b'\x01' * 64,
                'spends': [dict(s, spend_auth_sig=b'\x02' * 64)
                           for s in t['spends']]}
               if kind == 'sapling' else {})))
        eq(bare.sighash(sighash_type=ht, **kw), want,
           kind + ' digest without signatures')
    eq(x.to_bytes(), before, 'the transaction after a digest')


@sub('P07', 'digest', cases('overwinter'), 3000,
     rule='joinsplits, or two inputs and two outputs')
def check(c, info):
    run(c, info)


WIDE = st.fixed_dictionaries({
    'n_in': gen.COUNT, 'n_out': gen.COUNT, 'seed': st.integers(0, 2 ** 32),
    'pick': st.integers(0, 299), 'ht': st.sampled_from(KINDS),
    'acp': st.booleans()})


def wide_t(c, kind):
    w = gen.wide_tx(dict(c, n_item=None, segwit=False))
    t = {'ins': w['ins'], 'outs': w['outs'], 'lock': w['lock'],
         'expiry': c['seed'] % 499999999, 'js': [], 'pubkey': None,
         'sig': None}
    if kind == 'sapling':
        t.update(spends=[], souts=[], balance=0, binding=None)
    return t


def run_wide(c, info, kind):
    n = min(c['n_in'], c['n_out'])
    info.nt(n > 1)
    run({'kind': kind, 'net': 'zcash_%s_main' % kind, 't': wide_t(c, kind),
         'index': c['pick'] % n, 'script': b'\x76\xa9', 'value': c['seed'],
         'ht': c['ht'], 'acp': c['acp'], 'js': False, 'direct': False,
         'via': 'built'}, info)


@sub('P07', 'wide', WIDE, 160, rule='two inputs and two outputs')
def check_wide(c, info):
    run_wide(c, info, 'overwinter')


assert nets
