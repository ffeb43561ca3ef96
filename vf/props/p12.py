"""Joinsplit hSig and primary inputs."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, sub
from vf.ref import wire


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['sprout', 'overwinter', 'sapling']))
    layout = wire.JS_SAPLING if kind == 'sapling' else wire.JS_SPROUT
    t = draw(gen.zcash(kind, 0))
    t['js'] = draw(st.lists(st.one_of(gen.fast_joinsplit(layout),
                                      gen.joinsplit(layout)),
                            min_size=draw(st.sampled_from([0, 1, 1, 1])),
                            max_size=5))
    if kind == 'sprout' and t['js']:
        t['ver'] = 2
    if not (t['js'] or t['ins']):
        t['ins'] = [draw(gen.txin())]
    t['pubkey'] = draw(gen.blob(32)) if t['js'] else None
    t['sig'] = draw(gen.blob(64)) if t['js'] else None
    return {'kind': kind, 'net': draw(st.sampled_from(gen.ZNETS[kind])),
            't': t, 'via': draw(gen.VIA), 'key': draw(gen.blob(32))}


def want(t):
    return ([wire.hsig(j, t['pubkey']) for j in t['js']],
            [wire.primary_input(j, t['pubkey']) for j in t['js']])


def got(x):
    return [lib.b(h) for h in x.hsigs], [lib.b(p) for p in x.primary_inputs]


@sub('P12', 'joinsplits', cases(), 2000, rule='at least two joinsplits')
def check(c, info):
    lib.select(c['net'])
    kind, t = c['kind'], c['t']
    info.label(kind, '%d joinsplits' % len(t['js']))
    info.nt(len(t['js']) > 1)
    x = lib.twice(lib.zcash(kind, t), c['via'], lib.ZCLASS[kind].from_bytes)
    eq(got(x), want(t), 'hsigs and primary inputs')
    if t['js']:
        y = x.copy(joinsplit_pubkey=c['key'])
        eq(got(y), want(dict(t, pubkey=c['key'])), 'with another key')
        z = x.copy(tx_joinsplits=list(x.tx_joinsplits)[::-1])
        eq(got(z), want(dict(t, js=t['js'][::-1])), 'in another order')
