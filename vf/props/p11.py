"""Overwinter and Sapling wire formats."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, sub
from vf.ref import nets, wire


def same(kind, x, t, what):
    eq(lib.un_zcash(kind, x), lib.want_zcash(t), what + ' fields')
    eq(x.to_bytes(), wire.zcash(kind, t), what + ' bytes')
    eq(x.hex(), wire.zcash(kind, t).hex(), what + ' hex')
    eq(x.is_witness(), False, 'is_witness')
    eq(lib.b(x.header), wire.zcash(kind, t)[:4], 'header')
    eq(lib.b(x.group_id), wire.zcash(kind, t)[4:8], 'group id')
    # the version number, without the bit that says overwintered
    if kind == 'overwinter':
        eq(lib.n(x.version), 3, 'version')


def both(kind, t, net):
    lib.select(net)
    x = lib.zcash(kind, t)
    same(kind, x, t, 'built')
    b = wire.zcash(kind, t)
    cls = lib.ZCLASS[kind]
    for parse, arg in ((cls.from_bytes, b), (cls.from_hex, b.hex())):
        y = lib.parsed(parse, arg, t)
        if y is not None:
            same(kind, y, t, 'parsed')
    same(kind, x.copy(), t, 'copied')


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['overwinter', 'sapling']))
    return {'kind': kind, 'net': draw(st.sampled_from(gen.ZNETS[kind])),
            't': draw(gen.zcash(kind, long=True))}


@sub('P11', 'tx', cases(), 3200,
     rule='joinsplits or shielded parts, or two inputs and two outputs')
def check_tx(c, info):
    t = c['t']
    info.label(c['kind'], '%d joinsplits' % len(t['js']))
    for k in ('spends', 'souts'):
        if t.get(k):
            info.label('has ' + k)
    info.nt(bool(t['js'] or t.get('spends') or t.get('souts'))
            or len(t['ins']) > 1 and len(t['outs']) > 1)
    both(c['kind'], t, c['net'])


PARTS = {
    'SproutZkproof': (wire.ZK_SPROUT, lib.zs.SproutZkproof,
                      lambda d: lib.zs.SproutZkproof(**d)),
    'SproutJoinsplit': (wire.JS_SPROUT, lib.zs.SproutJoinsplit,
                        lib.sprout_js),
    'SaplingZkproof': (wire.ZK_SAPLING, lib.sap.SaplingZkproof,
                       lambda d: lib.sap.SaplingZkproof(**d)),
    'SaplingJoinsplit': (wire.JS_SAPLING, lib.sap.SaplingJoinsplit,
                         lib.sapling_js),
    'SaplingShieldedSpend': (wire.SPEND, lib.sap.SaplingShieldedSpend,
                             lib.spend),
    'SaplingShieldedOutput': (wire.OUTPUT, lib.sap.SaplingShieldedOutput,
                              lib.sout)}


@st.composite
def part(draw):
    name = draw(st.sampled_from(sorted(PARTS)))
    layout = PARTS[name][0]
    if 'Joinsplit' in name:
        d = draw(st.one_of(gen.joinsplit(layout),
                           gen.fast_joinsplit(layout)))
    else:
        d = draw(st.one_of(gen.struct(layout), gen.fast_struct(layout)))
    return {'part': name, 'd': d, 'net': draw(st.sampled_from(nets.ZCASH)),
            'tail': draw(gen.sized(st.sampled_from([0, 1, 8, 40])))}


@sub('P11', 'component', part(), 1600, rule='bytes after the component')
def check_part(c, info):
    layout, cls, make = PARTS[c['part']]
    lib.select(c['net'])
    info.label(c['part'])
    info.nt(bool(c['tail']))
    b = wire.struct(layout, c['d'])
    for x in (make(c['d']), cls.from_bytes(b + c['tail']),
              cls.from_hex(b.hex())):
        eq(x.to_bytes(), b, c['part'] + ' bytes')
        eq(lib.un_struct(layout, x), c['d'], c['part'] + ' fields')
        for name, size in layout:
            if isinstance(size, list):
                eq(getattr(x, name).to_bytes(),
                   wire.struct(size, c['d'][name]), name + ' bytes')


@st.composite
def wide(draw):
    kind = draw(st.sampled_from(['overwinter', 'sapling']))
    few = st.integers(0, 2)
    c = {'kind': kind, 'seed': draw(st.integers(0, 2 ** 32)),
         'n_in': draw(few), 'n_out': draw(few), 'n_spend': draw(few),
         'n_sout': draw(few), 'n_js': draw(few)}
    # one kind of part is numerous; 260 spends are all that 100 kB hold
    big = draw(st.sampled_from(
        ['n_in', 'n_out'] + ['n_spend', 'n_spend', 'n_sout']
        * (kind == 'sapling')))
    if big == 'n_spend':
        c.update(n_spend=draw(st.sampled_from([252, 253, 254, 255, 256, 257,
                                               258])), n_sout=0, n_js=0)
    elif big == 'n_sout':
        c.update(n_sout=draw(st.integers(60, 110)), n_js=0)
    else:
        c[big] = draw(gen.COUNT)
    if draw(st.integers(0, 9)) == 0:
        c['n_js'] = draw(st.integers(3, 5))
    if kind == 'overwinter':
        c.update(n_spend=0, n_sout=0)
    if not c['n_in'] + c['n_js'] + c['n_spend']:
        c['n_in'] = 1
    return c


@sub('P11', 'wide', wide(), 200, rule='253 or more parts of one kind')
def check_wide(c, info):
    w = gen.wide_tx(dict(c, n_item=None, segwit=False))
    kind = c['kind']
    layout = wire.JS_SPROUT if kind == 'overwinter' else wire.JS_SAPLING
    t = {'ins': w['ins'], 'outs': w['outs'], 'lock': w['lock'],
         'expiry': c['seed'] % 500000000,
         'js': [dict(wire.split(layout, gen.stretch(k, 1802)),
                     vpub_old=bytes(8)) for k in range(c['n_js'])]}
    t['pubkey'] = b'\x09' * 32 if t['js'] else None
    t['sig'] = b'\x08' * 64 if t['js'] else None
    if kind == 'sapling':
        t['spends'] = [wire.split(wire.SPEND, gen.stretch(k, 384))
                       for k in range(c['n_spend'])]
        t['souts'] = [wire.split(wire.OUTPUT, gen.stretch(k, 948))
                      for k in range(c['n_sout'])]
        sh = t['spends'] or t['souts']
        t['balance'] = -5 if sh else 0
        t['binding'] = b'\x07' * 64 if sh else None
    if len(wire.zcash(kind, t)) > 100000:
        # beyond the permitted maximum
        from vf.core import refuses
        lib.select('zcash_%s_main' % kind)
        info.label('too large')
        refuses(lambda: lib.zcash(kind, t), 'over 100000 bytes')
        return
    info.nt(max(c['n_in'], c['n_out'], c['n_spend']) >= 253)
    both(kind, t, 'zcash_%s_main' % kind)
