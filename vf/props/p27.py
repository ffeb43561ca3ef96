"""Standardness policy.

Where the policy of the library is explicitly stricter than that of Bitcoin
Core, the model follows the library: OP_1NEGATE, OP_RESERVED and OP_PUSHDATA4
are no pushes, and a data carrier has no value.  What the model leaves open
(None), because the name of the rule does not settle it: data of the length of
a public key without its header, public keys pushed with a longer push than
needed, and P2WPKH outputs of less than 294."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import Violation, eq, ok, sub
from vf.ref import nets, script as rs, wire
from riemann.networks import standard as sd

NETS = nets.BITCOIN
DUST = 550

# ------------------------------------------------------------------- model


def push_only(b):
    ops = rs.parse(b)
    if ops is None:
        return False
    return not any(op > 0x60 or op in (0x4e, 0x4f, 0x50) for op, _ in ops)


def is_key(op, d):
    """True, False or None"""
    if d is None or len(d) not in (33, 65):
        return False
    if op != len(d) or d[0] not in ((2, 3) if len(d) == 33 else (4,)):
        return None
    return True


def data_carrier(val, spk):
    if spk[:1] != b'\x6a' or len(spk) > 83:
        return False
    return val == 0 and push_only(spk[1:])


def all3(values):
    """conjunction of True, False and None"""
    values = list(values)
    if False in values:
        return False
    return None if None in values else True


def template(net, spk):
    """the address template of a script, or None"""
    for kind in ('p2pkh', 'p2sh') + (
            ('p2wpkh', 'p2wsh') if net in nets.WITNESS else ()):
        n = nets.SIZE[kind]
        s = nets.script(kind, bytes(n))
        k = {'p2pkh': 3, 'p2sh': 2, 'p2wpkh': 2, 'p2wsh': 2}[kind]
        if len(spk) == len(s) and spk[:k] == s[:k] \
                and spk[k + n:] == s[k + n:]:
            return kind
    return None


def standard_type(net, val, spk):
    if template(net, spk):
        return True
    c = data_carrier(val, spk)
    if c is not False:
        return c
    ops = rs.parse(spk)
    if not ops:
        return False
    if len(ops) == 2 and ops[1][0] == 0xac:
        return is_key(*ops[0])
    if ops[-1][0] == 0xae and len(ops) >= 4:
        m, n = ops[0][0] - 0x50, ops[-2][0] - 0x50
        if not (1 <= m <= n <= 3) or len(ops) != n + 3:
            return False
        return all3(is_key(*k) for k in ops[1:-2])
    return False


def dust(net, val, spk):
    """True, False or None"""
    if data_carrier(val, spk):
        return False
    if val >= DUST:
        return False
    if template(net, spk) == 'p2wpkh':
        return False if val >= 294 else None
    if spk[:2] == b'\x00\x14':
        return None          # no standard output anyway
    return True


def standard_outputs(net, outs):
    types = [standard_type(net, o['val'], o['spk']) for o in outs]
    dusts = [dust(net, o['val'], o['spk']) for o in outs]
    rules = types + [None if d is None else not d for d in dusts]
    carriers = [data_carrier(o['val'], o['spk']) for o in outs]
    if carriers.count(True) > 1:
        rules.append(False)
    elif carriers.count(True) + carriers.count(None) > 1:
        rules.append(None)
    return all3(rules)


def weight(t):
    return 3 * len(wire.tx_base(t)) + len(wire.tx(t))


def standard(net, t):
    rules = [t['ver'] in (1, 2), weight(t) <= 400000]
    for i in t['ins']:
        s = i['stack'] + i['redeem']
        rules += [len(s) <= 1650, push_only(s)]
    return all3(rules + [standard_outputs(net, t['outs'])])


# -------------------------------------------------------------- generators

KEY33 = st.tuples(st.sampled_from([b'\x02', b'\x03']), gen.HASH32).map(
    b''.join)
KEY = st.one_of(KEY33, KEY33, gen.PUBKEY)


@st.composite
def multisig(draw):
    n = draw(st.integers(1, 3))
    m = draw(st.integers(1, n))
    keys = [draw(KEY) for _ in range(n)]
    return bytes([0x50 + m]) + b''.join(map(rs.push, keys)) \
        + bytes([0x50 + n, 0xae])


@st.composite
def carrier(draw):
    kind = draw(st.sampled_from(['one', 'one', 'edge', 'many', 'empty']))
    if kind == 'one':
        d = draw(gen.sized(st.integers(1, 80)))
        return b'\x6a' + rs.push(d)
    if kind == 'edge':      # up to the limit of 83 bytes
        return b'\x6a' + rs.push(draw(gen.sized(st.sampled_from(
            [75, 76, 79, 80]))))
    if kind == 'empty':
        return b'\x6a'
    toks = draw(st.lists(st.one_of(
        gen.sized(st.integers(1, 20)), st.sampled_from(
            ['OP_0', 'OP_1', 'OP_16'])), max_size=8))
    return (b'\x6a' + rs.assemble(toks))[:83]


def template_spk(net):
    k = ['p2pkh', 'p2sh'] + (['p2wpkh', 'p2wsh'] if net in nets.WITNESS
                             else [])
    return st.sampled_from(k).flatmap(
        lambda kind: gen.blob(nets.SIZE[kind]).map(
            lambda h: nets.script(kind, h)))


def standard_spk(net):
    return st.one_of(template_spk(net), template_spk(net), multisig(),
                     KEY.map(lambda k: rs.push(k) + b'\xac'))


GOOD_VALUE = st.one_of(st.sampled_from([DUST, DUST + 1, 10 ** 8]),
                       st.integers(DUST, 21 * 10 ** 14))


@st.composite
def standard_tx(draw, net):
    """uses only what is standard"""
    segwit = net in nets.WITNESS and draw(st.booleans())
    t = draw(gen.tx(segwit, max_in=3, max_out=2, simple=True))
    t['ver'] = draw(st.sampled_from([1, 2]))
    for i in t['ins']:
        pushes = draw(st.lists(st.one_of(
            gen.sized(st.integers(1, 75)), gen.sized(st.sampled_from(
                [75, 76, 77, 255, 256, 520])),
            st.sampled_from(['OP_0', 'OP_1', 'OP_16'])), max_size=4))
        i['stack'] = rs.assemble(pushes)[:]
        if len(i['stack']) > 1650:
            i['stack'] = b''
    t['outs'] = [{'val': draw(GOOD_VALUE), 'spk': draw(standard_spk(net))}
                 for _ in range(draw(st.integers(1, 3)))]
    if draw(st.booleans()):
        spk = draw(carrier())
        if push_only(spk[1:]):
            t['outs'].insert(draw(st.integers(0, len(t['outs']))),
                             {'val': 0, 'spk': spk})
    return t


def near_spk(net):
    """scripts near the templates"""
    @st.composite
    def f(draw):
        s = draw(st.one_of(standard_spk(net), carrier()))
        how = draw(st.sampled_from(['cut', 'grow', 'flip', 'front', 'byte',
                                    'insert']))
        if how == 'cut':
            return s[:-1]
        if how == 'grow':
            return s + draw(st.sampled_from([b'\x00', b'\x51', b'\xac',
                                             b'\xae', b'\x87', b'\x61']))
        if how == 'front':
            return draw(st.sampled_from([b'\x00', b'\x51', b'\x61'])) + s
        k = draw(st.integers(0, max(0, len(s) - 1)))
        if draw(st.booleans()):
            # the places that are no hash and no key
            k = draw(st.sampled_from([0, 1, 2, len(s) - 1, len(s) - 2]))
            k = max(0, min(k, len(s) - 1))
        if how == 'insert':
            return s[:k] + bytes([draw(st.integers(0, 255))]) + s[k:]
        x = bytearray(s)
        x[k] = x[k] ^ (1 << draw(st.integers(0, 7))) if how == 'flip' \
            else draw(st.integers(0, 255))
        return bytes(x)
    return f()


@st.composite
def bad_multisig(draw):
    """m-of-n of any m, n and number of keys"""
    m, n = draw(st.integers(0, 17)), draw(st.integers(0, 17))
    if draw(st.booleans()):
        m, n = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    k = draw(st.sampled_from([n, n, n, n - 1, n + 1, m]))
    small = lambda v: bytes([0x50 + v]) if v else b'\x00'
    keys = [draw(st.one_of(KEY, KEY, KEY, gen.blob(32), gen.blob(20)))
            for _ in range(max(0, min(k, 4)))]
    return small(min(m, 16)) + b''.join(map(rs.push, keys)) \
        + small(min(n, 16)) + bytes([draw(st.sampled_from(
            [0xae, 0xae, 0xae, 0xaf, 0xac]))])


@st.composite
def bad_carrier(draw):
    return b'\x6a' + draw(st.one_of(
        gen.sized(st.sampled_from([78, 79, 80, 81, 82, 90])).map(rs.push),
        gen.sized(st.integers(79, 84)).map(rs.push),
        gen.sized(st.integers(0, 30)),
        gen.tokens(max_size=3).map(rs.assemble).filter(
            lambda b: len(b) < 100)))


def any_spk(net):
    return st.one_of(
        standard_spk(net), carrier(), near_spk(net), near_spk(net),
        bad_multisig(), bad_carrier(),
        gen.tokens(max_size=4).map(rs.assemble).filter(
            lambda b: len(b) < 252),
        gen.sized(st.integers(0, 40)), gen.WILD,
        st.lists(st.sampled_from([0, 0x4f, 0x51, 0x52, 0x53, 0x54, 0x60, 0x6a,
                                  0x76, 0x87, 0x88, 0xa9, 0xac, 0xad, 0xae,
                                  0xaf]), max_size=3).map(bytes),
        st.builds(lambda v, d: bytes([v]) + rs.push(d),
                  st.sampled_from([0, 0x51, 0x52, 0x60]),
                  gen.sized(st.sampled_from([19, 20, 21, 31, 32, 33]))),
        gen.sized(st.sampled_from([32, 33, 34, 64, 65, 66])).map(
            lambda d: rs.push(d) + b'\xac'))


VALUE = st.one_of(GOOD_VALUE, st.sampled_from(
    [0, 1, 293, 294, 545, 546, 547, 548, 549, 550, 551]),
    st.integers(0, 600))
NET = gen.net(NETS)

# -------------------------------------------------------------- sub-checks


def verdict(f, what):
    try:
        r = f()
    except Exception as e:
        raise Violation('%s raised %s: %s' % (what, type(e).__name__, e),
                        '%s raised' % what)
    ok(r is True or r is False, '%s gave %r' % (what, r))
    return r


def agree(f, want, what, info):
    got = verdict(f, what)
    info.label('%s: %s' % (what, {True: 'standard', False: 'not',
                                  None: 'open'}[want]))
    if want is not None:
        ok(got is want, '%s gave %r, expected %r' % (what, got, want), what)


def spend(t):
    return lib.tx(t)


@st.composite
def good_cases(draw):
    net = draw(NET)
    return {'net': net, 't': draw(standard_tx(net))}


@sub('P27', 'standard', good_cases(), 1500,
     rule='two outputs and a script signature')
def check_standard(c, info):
    """What uses only standard parts is accepted."""
    lib.select(c['net'])
    t = c['t']
    want = standard(c['net'], t)
    ok(want is True, 'the generator made %r' % want)
    info.nt(len(t['outs']) > 1 and any(i['stack'] for i in t['ins']))
    x = lib.tx(t)
    before = x.to_bytes()
    agree(lambda: sd.check_is_standard_tx(x), True, 'check_is_standard_tx',
          info)
    agree(lambda: sd.check_is_standard(x), True, 'check_is_standard', info)
    for o in x.tx_outs:
        agree(lambda: sd.is_standard_output_type(o), True,
              'is_standard_output_type', info)
    eq(x.to_bytes(), before, 'the transaction after the checks')


BREAKS = ['version', 'scriptsig op', 'scriptsig junk', 'dust', 'carriers',
          'long carrier', 'output', 'multisig', 'scriptsig length']


@st.composite
def bad_cases(draw):
    net = draw(NET)
    t = draw(standard_tx(net))
    how = draw(st.sampled_from(BREAKS))
    i = draw(st.sampled_from(t['ins']))
    at = draw(st.integers(0, len(t['outs'])))
    if how == 'version':
        t['ver'] = draw(st.one_of(
            st.sampled_from([0, 3, 4, 0xff, 0x101, 0x102, 0x10001,
                             0x1000001, 0x2000002, 0x80000001, 0xffffffff,
                             0x20000000]), gen.U32.filter(
                                 lambda v: v not in (1, 2))))
    elif how == 'scriptsig op':
        op = draw(st.integers(0x61, 0xff))
        k = draw(st.sampled_from(['front', 'back', 'alone', 'middle']))
        s = i['stack']
        mid = draw(gen.sized(st.integers(1, 40)))
        i['stack'] = {'front': bytes([op]) + s, 'back': s + bytes([op]),
                      'alone': bytes([op]),
                      'middle': rs.push(mid) + bytes([op]) + b'\x51'}[k]
    elif how == 'scriptsig junk':
        # a push past the end
        n = draw(st.integers(1, 75))
        d = draw(gen.sized(st.integers(0, n - 1)))
        i['stack'] += draw(st.sampled_from([
            bytes([n]) + d, b'\x4c', b'\x4c' + bytes([n]) + d, b'\x4d\x01',
            b'\x4d', b'\x4d\x00\x01' + d, b'\x4e\x01\x00\x00',
            b'\x4e' + bytes([n]) + b'\x00\x00\x00' + d]))
    elif how == 'scriptsig length':
        n = draw(st.sampled_from([1650, 1649, 1648]))
        one = rs.push(draw(gen.blob(520)))
        i['stack'] = (one * 3)[:] + b'\x51' * (n - 3 * len(one))
    elif how == 'dust':
        spk = draw(standard_spk(net).filter(
            lambda s: template(net, s) != 'p2wpkh'))
        t['outs'].insert(at, {'val': draw(st.one_of(
            st.sampled_from([0, 1, 545, 546, 549]), st.integers(0, 549))),
            'spk': spk})
    elif how == 'carriers':
        for _ in range(draw(st.integers(2, 3))):
            spk = draw(carrier().filter(lambda s: push_only(s[1:])))
            t['outs'].insert(draw(st.integers(0, len(t['outs']))),
                             {'val': 0, 'spk': spk})
    elif how == 'long carrier':
        t['outs'].insert(at, {'val': 0, 'spk': draw(bad_carrier())})
    elif how == 'multisig':
        t['outs'].insert(at, {'val': 1000, 'spk': draw(bad_multisig())})
    else:
        t['outs'].insert(at, {'val': draw(VALUE), 'spk': draw(any_spk(net))})
    for k in t['ins']:
        if len(k['stack']) > 1650:
            k['stack'] = b'\xac'
    return {'net': net, 't': t, 'how': how}


@sub('P27', 'broken', bad_cases(), 3500, rule='one rule is broken')
def check_broken(c, info):
    """One rule broken in a standard transaction, against the model."""
    lib.select(c['net'])
    t = c['t']
    want = standard(c['net'], t)
    info.label(c['how'])
    info.nt(want is False)
    x = lib.tx(t)
    agree(lambda: sd.check_is_standard_tx(x), want, 'check_is_standard_tx',
          info)
    agree(lambda: sd.check_is_standard(x),
          standard_outputs(c['net'], t['outs']), 'check_is_standard', info)


@st.composite
def outputs(draw):
    net = draw(NET)
    spk = draw(any_spk(net))
    val = draw(VALUE)
    if spk[:1] == b'\x6a' and draw(st.integers(0, 3)):
        val = 0
    return {'net': net, 'val': val, 'spk': spk, 'arr': draw(st.booleans())}


@sub('P27', 'outputs', outputs(), 4500, rule='the model settles it')
def check_outputs(c, info):
    """Every output script, against the model."""
    lib.select(c['net'])
    net, val, spk = c['net'], c['val'], c['spk']
    o = lib.txout(c)
    want = standard_type(net, val, spk)
    info.nt(want is not None)
    agree(lambda: sd.is_standard_output_type(o), want,
          'is_standard_output_type', info)
    agree(lambda: sd.is_op_return(o), data_carrier(val, spk),
          'is_op_return', info)
    try:
        got = sd.is_push_only(bytearray(spk) if c['arr'] else spk)
    except Exception:
        got = False           # by deserialisation
    p = push_only(spk)
    ok(bool(got) is p, 'is_push_only gave %r, expected %r' % (got, p),
       'is_push_only')


@st.composite
def any_tx(draw):
    net = draw(NET)
    t = draw(gen.tx(net in nets.WITNESS and draw(st.booleans()), long=True))
    return {'net': net, 't': t}


@sub('P27', 'any', any_tx(), 1000, rule='the model settles it')
def check_any(c, info):
    """Any transaction is judged without raising."""
    lib.select(c['net'])
    t = c['t']
    want = standard(c['net'], t)
    x = lib.tx(t)
    info.nt(want is not None)
    agree(lambda: sd.check_is_standard_tx(x), want, 'check_is_standard_tx',
          info)
    agree(lambda: sd.check_is_standard(x),
          standard_outputs(c['net'], t['outs']), 'check_is_standard', info)
    agree(lambda: sd.check_tx_size_small(x),
          len(wire.tx_base(t)) >= 82, 'check_tx_size_small', info)


@st.composite
def small(draw):
    """stripped sizes around 82 bytes"""
    n = draw(st.integers(75, 90))
    flag = draw(st.booleans())
    return {'net': draw(gen.net(nets.WITNESS if flag else NETS)), 't': {
        'ver': draw(st.sampled_from([1, 2])), 'flag': flag,
        'ins': [{'txid': draw(gen.HASH32), 'idx': 0, 'stack': b'',
                 'redeem': b'', 'seq': draw(gen.U32)}],
        'outs': [{'val': draw(gen.U64), 'spk': draw(gen.blob(n - 60))}],
        'wits': [[draw(gen.sized(st.sampled_from([0, 1, 72, 300])))]]
        if flag else None, 'lock': draw(gen.U32)}}


@sub('P27', 'small', small(), 500, rule='within one byte of the limit')
def check_small(c, info):
    lib.select(c['net'])
    n = len(wire.tx_base(c['t']))
    info.nt(abs(n - 82) <= 1)
    x = lib.tx(c['t'])
    agree(lambda: sd.check_tx_size_small(x), n >= 82,
          'check_tx_size_small', info)


@st.composite
def heavy(draw):
    """weights around the limit"""
    flag = draw(st.booleans())
    over = draw(st.integers(-9, 9))
    where = draw(st.sampled_from(['witness', 'outputs'] if flag
                                 else ['outputs']))
    return {'net': 'bitcoin_main', 'flag': flag, 'over': over,
            'where': where, 'seed': draw(st.integers(0, 2 ** 32))}


@sub('P27', 'heavy', heavy(), 8, thorough=400,
     rule='within one unit of the limit', enum=lambda tier: [
         {'net': 'bitcoin_main', 'flag': True, 'over': k,
          'where': 'witness', 'seed': k + 9} for k in range(-4, 5)])
def check_heavy(c, info):
    """The weight limit, exactly."""
    lib.select(c['net'])
    t = {'ver': 2, 'flag': c['flag'], 'lock': 0, 'wits': None,
         'ins': [{'txid': gen.stretch(c['seed'], 32), 'idx': 1,
                  'stack': b'', 'redeem': b'', 'seq': 0xfffffffe}],
         'outs': []}
    h = gen.stretch(c['seed'], 20)
    one = {'val': 1000, 'spk': nets.script('p2pkh', h)}
    goal = 400000 + c['over']
    if c['flag']:
        t['wits'] = [[b'']]
    # outputs of 34 bytes, then a data carrier of any length up to 83 bytes,
    # then the witness for the rest
    count = (goal // 4 - 200) // 34 if c['where'] == 'outputs' else 3
    t['outs'] = [one] * count
    need = goal - weight(t)
    if c['flag']:
        n = max(0, need - 4)
        t['wits'] = [[bytes(n)]]
        while weight(t) > goal and n:
            n -= 1
            t['wits'] = [[bytes(n)]]
    else:
        n = 1
        while n < 76:
            d = b'\x6a' + rs.push(bytes(n))
            u = dict(t, outs=t['outs'] + [{'val': 0, 'spk': d}])
            if weight(u) >= goal - 3:
                break
            n += 1
        t = u
        if weight(t) < goal - 3:       # one more ordinary output
            t['outs'] = t['outs'] + [one]
    w = weight(t)
    info.label('weight %d' % (w - 400000) if abs(w - 400000) < 10
               else 'other weight')
    info.nt(abs(w - 400000) <= 4)
    x = lib.tx(t)
    agree(lambda: sd.check_is_standard_tx(x), w <= 400000,
          'check_is_standard_tx', info)


@st.composite
def finals(draw):
    t = draw(gen.tx(simple=True, max_in=4, max_out=1))
    kind = draw(st.sampled_from(['final', 'one', 'any']))
    if kind != 'any':
        for i in t['ins']:
            i['seq'] = 0xffffffff
    if kind == 'one':
        draw(st.sampled_from(t['ins']))['seq'] = draw(st.sampled_from(
            [0xfffffffe, 0, 0x7fffffff, 0xffff, 0xfeffffff]))
    lock = draw(st.one_of(
        st.sampled_from([0, 1, 499999999, 500000000, 500000001,
                         0xffffffff]), gen.U32))
    t['lock'] = lock
    near = st.integers(-2, 2).map(lambda d: max(0, lock + d))
    return {'t': t, 'height': draw(st.one_of(near, gen.U32, st.just(0))),
            'time': draw(st.one_of(near, gen.U32, st.just(0)))}


@sub('P27', 'final', finals(), 3000, rule='not all sequences are final')
def check_final(c, info):
    """Absolute lock times, as in Bitcoin's IsFinalTx."""
    lib.select('bitcoin_main')
    t = c['t']
    done = all(i['seq'] == 0xffffffff for i in t['ins'])
    info.nt(not done)
    if done:
        want = True
    elif t['lock'] >= 500000000:
        want = t['lock'] < c['time']
    else:
        want = t['lock'] <= c['height']
    info.label('time' if t['lock'] >= 500000000 else 'height', str(want))
    x = lib.tx(t)
    agree(lambda: sd.check_final(x, c['height'], c['time']), want,
          'check_final', info)
    agree(lambda: sd.check_final(x, best_height=c['height'],
                                 best_timestamp=c['time']), want,
          'check_final', info)
