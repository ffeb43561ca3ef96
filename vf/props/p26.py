"""What constructors refuse and accept."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import Violation, eq, ok, sub
from vf.props.p20 import B, D, KINDS, Z, snap
from vf.ref import nets, wire
from vf.ref.wire import le

TXS = ['Tx', 'sprout', 'overwinter', 'sapling', 'DecredTx']
WIRE = {
    'Outpoint': wire.outpoint, 'TxIn': wire.txin, 'TxOut': wire.txout,
    'WitnessStackItem': wire.pref, 'InputWitness': wire.stack, 'Tx': wire.tx,
    'SproutZkproof': lambda d: wire.struct(wire.ZK_SPROUT, d),
    'SproutJoinsplit': lambda d: wire.struct(wire.JS_SPROUT, d),
    'SaplingZkproof': lambda d: wire.struct(wire.ZK_SAPLING, d),
    'SaplingJoinsplit': lambda d: wire.struct(wire.JS_SAPLING, d),
    'SaplingShieldedSpend': lambda d: wire.struct(wire.SPEND, d),
    'SaplingShieldedOutput': lambda d: wire.struct(wire.OUTPUT, d),
    'sprout': wire.sprout, 'overwinter': wire.overwinter,
    'sapling': wire.sapling,
    'DecredOutpoint': wire.dcr_outpoint, 'DecredTxIn': wire.dcr_txin,
    'DecredTxOut': wire.dcr_txout, 'DecredInputWitness': wire.dcr_wit,
    'DecredTx': wire.dcr_full,
}


def flat(layout):
    return {n: k for n, k in layout if not isinstance(k, list)}


# the byte length of every field that has one
LEN = {
    'Outpoint': {'tx_id': 32, 'index': 4},
    'TxIn': {'outpoint': 36, 'sequence': 4},
    'TxOut': {'value': 8},
    'Tx': {'version': 4, 'lock_time': 4},
    'SproutZkproof': flat(wire.ZK_SPROUT),
    'SproutJoinsplit': flat(wire.JS_SPROUT),
    'SaplingZkproof': flat(wire.ZK_SAPLING),
    'SaplingJoinsplit': flat(wire.JS_SAPLING),
    'SaplingShieldedSpend': flat(wire.SPEND),
    'SaplingShieldedOutput': flat(wire.OUTPUT),
    'sprout': {'version': 4, 'lock_time': 4},
    'overwinter': {'lock_time': 4, 'expiry_height': 4},
    'sapling': {'lock_time': 4, 'expiry_height': 4, 'value_balance': 8},
    'DecredOutpoint': {'tx_id': 32, 'index': 4, 'tree': 1},
    'DecredTxIn': {'outpoint': 37, 'sequence': 4},
    'DecredTxOut': {'value': 8, 'version': 2},
    'DecredInputWitness': {'value': 8, 'height': 4, 'index': 4},
    'DecredTx': {'version': 4, 'lock_time': 4, 'expiry': 4},
}
# present only with joinsplits, or with shielded parts
JS_LEN = {'joinsplit_pubkey': 32, 'joinsplit_sig': 64}
FREE = {'TxIn': ['stack_script', 'redeem_script'], 'TxOut': ['output_script'],
        'WitnessStackItem': ['item'], 'DecredTxOut': ['output_script'],
        'DecredInputWitness': ['stack_script', 'redeem_script']}
SEQS = {'Tx': ['tx_ins', 'tx_outs', 'tx_witnesses'],
        'InputWitness': ['stack'],
        'sprout': ['tx_ins', 'tx_outs', 'tx_joinsplits'],
        'overwinter': ['tx_ins', 'tx_outs', 'tx_joinsplits'],
        'sapling': ['tx_ins', 'tx_outs', 'tx_joinsplits',
                    'tx_shielded_spends', 'tx_shielded_outputs'],
        'DecredTx': ['tx_ins', 'tx_outs', 'tx_witnesses']}
PROOF = ['SproutJoinsplit', 'SaplingJoinsplit', 'SaplingShieldedSpend',
         'SaplingShieldedOutput']


def fixed(kind, kw):
    """field -> length for these arguments"""
    out = dict(LEN.get(kind, {}))
    if kw.get('tx_joinsplits'):
        out.update(JS_LEN)
    if kw.get('tx_shielded_spends') or kw.get('tx_shielded_outputs'):
        out['binding_sig'] = 64
    return out


def make(kind, kw):
    return KINDS[kind][2](**kw)


def refuse(kind, kw, what, key):
    """the constructor must refuse, and touch neither its arguments nor the
    selection of the network"""
    before = {k: snap(v) if not isinstance(v, list) else [snap(x) for x in v]
              for k, v in kw.items()}
    net = lib.riemann.get_current_network_name()
    try:
        x = make(kind, kw)
    except Exception:
        pass
    else:
        raise Violation('a %s with %s was made: %s'
                        % (kind, what, x.hex()[:200]), key)
    after = {k: snap(v) if not isinstance(v, list) else [snap(x) for x in v]
             for k, v in kw.items()}
    eq(after, before, 'the arguments of a refused %s' % kind)
    eq(lib.riemann.get_current_network_name(), net, 'the network')


@st.composite
def base(draw, kinds=None):
    kind = draw(st.sampled_from(kinds or list(KINDS)))
    return {'kind': kind,
            'net': draw(gen.net(KINDS[kind][0], 'bitcoin_main')),
            'd': draw(KINDS[kind][1])}


# --------------------------------------------------------------- accepted

@st.composite
def accepted(draw):
    c = draw(base())
    c['form'] = draw(st.sampled_from(['bytes', 'bytearray', 'tuple']))
    return c


@sub('P26', 'accepted', accepted(), 2500,
     rule='the object has at least two fields')
def check_accepted(c, info):
    """Legal fields, in bytes or bytearrays and lists or tuples, are taken
    and serialised exactly."""
    lib.select(c['net'])
    kind = c['kind']
    kw = KINDS[kind][3](c['d'])
    info.label(kind, c['form'])
    info.nt(len(kw) > 1)
    args = {}
    for k, v in kw.items():
        if isinstance(v, bytes) and c['form'] == 'bytearray':
            v = bytearray(v)
        elif isinstance(v, list) and c['form'] == 'tuple':
            v = tuple(v)
        args[k] = v
    x = make(kind, args)
    eq(x.to_bytes(), WIRE[kind](c['d']), 'the bytes of a %s' % kind)
    if kind == 'Tx' or kind == 'DecredTx' or kind not in TXS:
        for k, v in kw.items():
            got = getattr(x, k)
            if isinstance(v, bytes):
                eq(bytes(got), v, '%s of a %s' % (k, kind))
            elif isinstance(v, list):
                eq([y.to_bytes() for y in got], [y.to_bytes() for y in v],
                   '%s of a %s' % (k, kind))
            elif v is None:
                ok(got is None or len(got) == 0, '%s of a %s' % (k, kind))
            else:
                eq(got, v, '%s of a %s' % (k, kind))


# ---------------------------------------------------------------- lengths

FIXED_KINDS = [k for k in KINDS if k in LEN]


@st.composite
def lengths(draw):
    c = draw(base(FIXED_KINDS))
    c.update(pick=draw(st.integers(0, 10 ** 6)),
             delta=draw(st.sampled_from([-1, 1, -1, 1, 'none', 'double',
                                         'half', -2, 2, 'far'])),
             form=draw(st.sampled_from(['bytes', 'bytes', 'bytearray',
                                        'bytedata'])),
             fill=draw(st.integers(0, 255)))
    return c


def other_length(n, delta):
    m = {'none': 0, 'double': 2 * n, 'half': n // 2,
         'far': n + 252}.get(delta)
    return max(0, n + delta) if m is None else m


@sub('P26', 'lengths', lengths(), 3000, rule='the length is off by one')
def check_lengths(c, info):
    """A field of a fixed length has exactly that length."""
    lib.select(c['net'])
    kind = c['kind']
    kw = KINDS[kind][3](c['d'])
    fs = sorted(fixed(kind, kw).items())
    name, n = fs[c['pick'] % len(fs)]
    m = other_length(n, c['delta'])
    assert m != n or n == 0
    v = bytes([c['fill']]) * m
    if kind in ('overwinter', 'sapling') and name == 'expiry_height' or \
            kind == 'sprout' and name == 'version' or \
            name.startswith('vpub') or name == 'value_balance':
        # nothing but the length is wrong
        old = kw[name]
        v = (old + bytes(m))[:m]
    if name == 'joinsplit_sig' and kind == 'sprout' and m == 0:
        return       # the unsigned form
    if c['form'] == 'bytearray':
        v = bytearray(v)
    elif c['form'] == 'bytedata':
        w = lib.shared.ByteData()
        w += v
        v = w
    info.label('%s.%s' % (kind, name))
    info.nt(abs(m - n) == 1)
    kw[name] = v
    refuse(kind, kw, '%d bytes of %s, not %d' % (m, name, n),
           'length of %s.%s' % (kind, name))


# ------------------------------------------------------------------ types

WRONG = ['none', 'int', 'str', 'hex', 'float', 'list', 'tuple', 'dict',
         'bool', 'object']


def wrong(tag, good):
    n = len(good) if good is not None else 4
    return {'none': None, 'int': n, 'str': 'a' * n, 'hex': '00' * n,
            'float': 1.5, 'list': [0] * n, 'tuple': (0,) * n,
            'dict': {i: 0 for i in range(n)}, 'bool': True,
            'object': object()}[tag]


@st.composite
def types(draw):
    c = draw(base())
    c.update(pick=draw(st.integers(0, 10 ** 6)),
             tag=draw(st.sampled_from(WRONG)))
    return c


@sub('P26', 'types', types(), 2500, rule='always')
def check_types(c, info):
    """Byte fields are byte-like."""
    lib.select(c['net'])
    kind = c['kind']
    kw = KINDS[kind][3](c['d'])
    fs = sorted(list(fixed(kind, kw)) + FREE.get(kind, []))
    if not fs:
        return
    name = fs[c['pick'] % len(fs)]
    v = wrong(c['tag'], kw[name])
    if name == 'binding_sig' and v is None and c['kind'] != 'sapling':
        return
    info.label('%s.%s %s' % (kind, name, c['tag']))
    info.nt()
    kw[name] = v
    refuse(kind, kw, '%s of type %s' % (name, c['tag']),
           'type of %s.%s' % (kind, name))


# --------------------------------------------------------------- elements

FOREIGN = ['none', 'int', 'str', 'bytes', 'same bytes', 'list', 'outpoint',
           'txin', 'txout', 'item', 'witness', 'byte data', 'sprout js',
           'sapling js', 'spend', 'shielded output', 'decred txin',
           'decred txout', 'decred witness', 'tx']
_CACHE = {}
OWN = {'txin': 'TxIn', 'txout': 'TxOut', 'item': 'WitnessStackItem',
       'witness': 'InputWitness', 'sprout js': 'SproutJoinsplit',
       'sapling js': 'SaplingJoinsplit', 'spend': 'SaplingShieldedSpend',
       'shielded output': 'SaplingShieldedOutput',
       'decred txin': 'DecredTxIn', 'decred txout': 'DecredTxOut',
       'decred witness': 'DecredInputWitness', 'outpoint': 'Outpoint',
       'tx': 'Tx'}


def zeros(layout):
    return {n: zeros(k) if isinstance(k, list) else bytes(k)
            for n, k in layout}


I0 = {'txid': bytes(32), 'idx': 0, 'stack': b'', 'redeem': b'', 'seq': 0}
O0 = {'val': 0, 'spk': b''}
FOREIGN_D = {
    'Outpoint': I0, 'TxIn': I0, 'TxOut': O0, 'WitnessStackItem': b'',
    'InputWitness': [], 'SproutJoinsplit': zeros(wire.JS_SPROUT),
    'SaplingJoinsplit': zeros(wire.JS_SAPLING),
    'SaplingShieldedSpend': zeros(wire.SPEND),
    'SaplingShieldedOutput': zeros(wire.OUTPUT),
    'DecredTxIn': dict(I0, tree=0), 'DecredTxOut': dict(O0, ver=0),
    'DecredInputWitness': {'val': 0, 'height': 0, 'index': 0, 'stack': b'',
                           'redeem': b''},
    'Tx': {'ver': 1, 'flag': False, 'ins': [I0], 'outs': [O0], 'wits': None,
           'lock': 0},
}


def foreign(tag, good, net):
    if tag == 'same bytes':
        return good.to_bytes()
    if tag == 'byte data':
        w = lib.shared.ByteData()
        w += good.to_bytes()
        return w
    if tag in OWN:
        k = OWN[tag]
        lib.select(KINDS[k][0][0])
        try:
            return KINDS[k][2](**KINDS[k][3](FOREIGN_D[k]))
        finally:
            lib.select(net)
    return {'none': None, 'int': 1, 'str': 'a', 'bytes': b'\x00',
            'list': []}[tag]


@st.composite
def elements(draw):
    c = draw(base(list(SEQS)))
    c.update(pick=draw(st.integers(0, 10 ** 6)),
             at=draw(st.integers(0, 10)),
             tag=draw(st.sampled_from(FOREIGN)),
             how=draw(st.sampled_from(['replace', 'replace', 'insert',
                                       'whole'])))
    return c


@sub('P26', 'elements', elements(), 2500, rule='the other elements are legal')
def check_elements(c, info):
    """Lists hold only their own kind of element."""
    lib.select(c['net'])
    kind = c['kind']
    kw = KINDS[kind][3](c['d'])
    if kind == 'sprout' and kw['version'] == le(1, 4):
        kw.pop('tx_joinsplits')
        kw['tx_joinsplits'] = []
    fs = [f for f in SEQS[kind] if kw[f]]
    if not fs:
        return
    name = fs[c['pick'] % len(fs)]
    good = list(kw[name])
    at = c['at'] % len(good)
    x = foreign(c['tag'], good[at], c['net'])
    if type(x) is type(good[at]):
        return
    if c['how'] == 'whole':
        if c['tag'] == 'list':
            return       # an empty list
        if c['tag'] == 'none' and name == 'tx_witnesses' and kind == 'Tx':
            return
        if isinstance(x, lib.btc.Outpoint):
            pass
        kw[name] = x
    elif c['how'] == 'insert' and name != 'tx_witnesses':
        kw[name] = good[:at] + [x] + good[at:]
    else:
        kw[name] = good[:at] + [x] + good[at + 1:]
    if c['how'] == 'whole' and hasattr(x, '__len__') and len(x) == 0:
        return           # empty, and so nothing of a wrong kind in it
    info.label('%s.%s %s' % (kind, name, c['tag']))
    info.nt(len(good) > 1)
    refuse(kind, kw, 'a %s in %s' % (c['tag'], name),
           'elements of %s.%s' % (kind, name))


@st.composite
def proofs(draw):
    c = draw(base(PROOF))
    c['tag'] = draw(st.sampled_from(['other', 'same bytes', 'byte data',
                                     'none', 'int', 'str', 'joinsplit']))
    return c


@sub('P26', 'proofs', proofs(), 400, rule='the proof is a proof object')
def check_proofs(c, info):
    """A proof is one of the right kind."""
    lib.select(c['net'])
    kind = c['kind']
    kw = KINDS[kind][3](c['d'])
    good = kw['zkproof']
    if c['tag'] == 'other':
        o, layout = ((lib.sap.SaplingZkproof, wire.ZK_SAPLING)
                     if kind == 'SproutJoinsplit'
                     else (lib.zs.SproutZkproof, wire.ZK_SPROUT))
        x = o(**zeros(layout))
        info.nt()
    elif c['tag'] == 'joinsplit':
        x = lib.sprout_js(zeros(wire.JS_SPROUT))
    else:
        x = foreign(c['tag'], good, c['net'])
    info.label(kind, c['tag'])
    kw['zkproof'] = x
    refuse(kind, kw, 'a proof that is %s' % c['tag'], 'proof of ' + kind)


@sub('P26', 'vpub', st.fixed_dictionaries({
    'kind': st.sampled_from(['SproutJoinsplit', 'SaplingJoinsplit']),
    'net': gen.net(Z, 'zcash_sapling_main'),
    'old': gen.U64, 'new': gen.U64, 'pair': st.sampled_from('onb')}), 400,
    rule='both values are non-zero')
def check_vpub(c, info):
    """A joinsplit moves value in one direction."""
    lib.select(c['net'])
    kind = c['kind']
    layout = wire.JS_SPROUT if kind[1] == 'p' else wire.JS_SAPLING
    d = zeros(layout)
    old = 0 if c['pair'] == 'n' else c['old']
    new = 0 if c['pair'] == 'o' else c['new']
    d['vpub_old'], d['vpub_new'] = le(old, 8), le(new, 8)
    kw = KINDS[kind][3](d)
    both = bool(old and new)
    info.label('both' if both else 'one')
    info.nt(both)
    if both:
        refuse(kind, kw, 'vpub_old %d and vpub_new %d' % (old, new),
               'vpub of ' + kind)
    else:
        eq(make(kind, kw).to_bytes(), wire.struct(layout, d), kind)


# ------------------------------------------------------------- script sigs

@sub('P26', 'scriptsig', st.fixed_dictionaries({
    'total': st.one_of(st.sampled_from([0, 1649, 1650, 1651, 1652, 252, 253,
                                        3300]), st.integers(0, 2000)),
    'part': st.integers(0, 10 ** 6), 'seed': st.integers(0, 2 ** 16),
    'edge': st.sampled_from([0, 0, 1, 2])}), 500,
    rule='the total is within 2 of 1650')
def check_scriptsig(c, info):
    """A script sig has up to 1650 bytes in all."""
    lib.select('bitcoin_main')
    total = c['total']
    k = {0: c['part'] % (total + 1), 1: 0, 2: total}[c['edge']]
    s = gen.stretch(c['seed'], total)
    d = dict(I0, stack=s[:k], redeem=s[k:])
    kw = KINDS['TxIn'][3](d)
    info.nt(abs(total - 1650) <= 2)
    if total > 1650:
        info.label('too long')
        refuse('TxIn', kw, 'a script sig of %d and %d bytes' % (k, total - k),
               'script sig length')
    else:
        x = make('TxIn', kw)
        eq(x.to_bytes(), wire.txin(d), 'a TxIn')
        eq((bytes(x.stack_script), bytes(x.redeem_script),
            bytes(x.script_sig)), (s[:k], s[k:], s), 'its parts')


# ----------------------------------------------------------------- counts

@st.composite
def counts(draw):
    c = draw(base(TXS))
    c['rule'] = draw(st.sampled_from(RULES[c['kind']]))
    c['n'] = draw(st.integers(0, 8))
    c['v'] = draw(gen.blob(8))
    return c


RULES = {
    'Tx': ['no ins', 'no outs', 'neither', 'flag', 'witnesses, no flag',
           'witness count', 'no witness list'],
    'sprout': ['version', 'v1 joinsplits', 'v1 no ins', 'joinsplits',
               'pubkey', 'unsigned', 'v2 no ins'],
    'overwinter': ['nothing in', 'joinsplits', 'pubkey', 'sig', 'expiry',
                   'no ins'],
    'sapling': ['nothing in', 'joinsplits', 'pubkey', 'sig', 'expiry',
                'balance', 'binding', 'no ins', 'spends in',
                'outputs only'],
    'DecredTx': ['no ins', 'no outs', 'neither'],
}
LAYOUT = {'sprout': wire.JS_SPROUT, 'overwinter': wire.JS_SPROUT,
          'sapling': wire.JS_SAPLING}


def js(n, kind):
    out = []
    for i in range(n):
        z = zeros(LAYOUT[kind])
        z['vpub_old'] = le(i, 8)
        out.append(z)
    return out


def judged(c):
    """(plain data, keyword arguments or None, legal)"""
    kind, rule, n, d = c['kind'], c['rule'], c['n'], dict(c['d'])
    build = KINDS[kind][3]
    if kind in LAYOUT and rule != 'unsigned':
        d['pubkey'] = d['pubkey'] or bytes(32)
        d['sig'] = d['sig'] or bytes(64)
    if kind == 'sapling':
        d['binding'] = d['binding'] or bytes(64)
    kw = None
    legal = False
    if rule == 'no ins' and kind in ('Tx', 'DecredTx'):
        d['ins'] = []
        d['wits'] = [] if kind == 'DecredTx' or d['wits'] is not None \
            else None
    elif rule == 'no outs':
        d['outs'] = []
    elif rule == 'neither':
        d['ins'], d['outs'] = [], []
        d['wits'] = [] if kind == 'DecredTx' else None
    elif rule == 'flag':
        kw = build(d)
        bad = [b'', b'\x00', b'\x00\x00', b'\x01\x00', b'\x00\x02',
               b'\x00\x01\x00', b'\x01', b'\x00\x01\x01', '\x00\x01']
        kw['flag'] = bad[(n + c['v'][0]) % len(bad)]
    elif rule == 'witnesses, no flag':
        d['wits'] = [[b'']] * len(d['ins'])
        d['flag'] = False
    elif rule == 'witness count':
        k = n % 5
        d['flag'] = True
        d['wits'] = [[b'\x01']] * k
        legal = k in (0, len(d['ins']))
    elif rule == 'no witness list':
        d['flag'] = bool(n % 2)
        d['wits'] = None if n % 3 else []
        legal = True
    elif rule == 'version':
        v = [0, 3, 4, 0x80000003, 0xffffffff, 257, 258, 0x01000000, 65537,
             1 << 31][n]  if n < 9 else 0
        d['ver'], d['js'] = v, []
    elif rule == 'v1 joinsplits':
        d['ver'] = 1
        d['js'] = js(1 + n % 5, kind)
        d['ins'] = d['ins'] or [I0]
    elif rule == 'v1 no ins':
        d['ver'], d['ins'], d['js'] = 1, [], []
    elif rule == 'v2 no ins':
        d['ver'], d['ins'], d['js'] = 2, [], js(1 + n % 5, kind)
        legal = True
    elif rule == 'no ins':
        d['ins'], d['js'] = [], js(1 + n % 5, kind)
        legal = True
    elif rule == 'spends in':
        d['ins'], d['js'] = [], []
        d['spends'] = [zeros(wire.SPEND)] * (1 + n)
        legal = True
    elif rule == 'outputs only':
        # shielded outputs bring nothing in
        d['ins'], d['js'], d['spends'] = [], [], []
        d['souts'] = [zeros(wire.OUTPUT)] * (1 + n)
    elif rule == 'joinsplits':
        d['ver'] = 2
        d['js'] = js(n, kind)
        if not n and not d['ins']:
            d['ins'] = [I0]
        legal = n <= 5
    elif rule == 'pubkey':
        d['ver'] = 2
        d['js'] = js(1 + n % 5, kind)
        d['pubkey'] = None
    elif rule == 'sig':
        d['js'] = js(1 + n % 5, kind)
        d['sig'] = None if n % 2 else b''
    elif rule == 'unsigned':
        d['ver'] = 2
        d['js'] = js(1 + n % 5, kind)
        d['pubkey'] = d['pubkey'] or bytes(32)
        d['sig'] = b''
        legal = True
    elif rule == 'nothing in':
        d['ins'], d['js'] = [], []
        if kind == 'sapling':
            d['spends'], d['souts'] = [], []
            d['balance'] = 0
    elif rule == 'expiry':
        e = [499999998, 499999999, 500000000, 500000001, 0xffffffff,
             0x80000000, 0, 0x1dcd64ff, 0x1dcd6500][n]
        d['expiry'] = e
        legal = e <= 499999999
    elif rule == 'balance':
        d['spends'], d['souts'] = [], []
        d['ins'] = d['ins'] or [I0]
        d['balance'] = int.from_bytes(c['v'], 'little', signed=True)
        legal = d['balance'] == 0
    elif rule == 'binding':
        d['spends'] = [zeros(wire.SPEND)] * (n % 2)
        d['souts'] = [zeros(wire.OUTPUT)] * (1 - n % 2)
        d['ins'] = d['ins'] or [I0]
        d['binding'] = None
    return d, build(d) if kw is None else kw, legal


@sub('P26', 'counts', counts(), 4000, rule='always')
def check_counts(c, info):
    """The rules on the number of parts, versions, flags and expiries."""
    lib.select(c['net'])
    kind = c['kind']
    d, kw, legal = judged(c)
    info.label('%s %s %s' % (kind, c['rule'],
                             'legal' if legal else 'illegal'))
    info.nt()
    if legal:
        eq(make(kind, kw).to_bytes(), WIRE[kind](d), 'a ' + kind)
    else:
        refuse(kind, kw, 'the rule "%s" broken (n=%d)' % (c['rule'], c['n']),
               '%s: %s' % (kind, c['rule']))


# ------------------------------------------------------------------- sizes

@st.composite
def sizes(draw):
    kind = draw(st.sampled_from(TXS))
    return {'kind': kind,
            'net': draw(gen.net(KINDS[kind][0], 'bitcoin_main')),
            'd': draw(KINDS[kind][1]),
            'size': draw(st.one_of(
                st.sampled_from([99999, 100000, 100001, 100002, 100003]),
                st.integers(60000, 140000))),
            'where': draw(st.integers(0, 3))}


@sub('P26', 'sizes', sizes(), 300, rule='within 3 bytes of the limit')
def check_sizes(c, info):
    """Zcash and Decred transactions have up to 100000 bytes; Bitcoin ones
    have no such limit."""
    lib.select(c['net'])
    kind, d = c['kind'], dict(c['d'])
    outs = list(d['outs']) or [dict(O0, ver=0)]
    at = c['where'] % len(outs)

    def with_len(n):
        o = dict(outs[at], spk=b'\x6a' * n)
        return dict(d, outs=outs[:at] + [o] + outs[at + 1:])
    n = 0
    for _ in range(3):
        n = max(0, n + c['size'] - len(WIRE[kind](with_len(n))))
    e = with_len(n)
    size = len(WIRE[kind](e))
    info.nt(abs(size - 100000) <= 3)
    legal = kind == 'Tx' or size <= 100000
    info.label(kind, 'legal' if legal else 'too large')
    if legal:
        eq(make(kind, KINDS[kind][3](e)).to_bytes(), WIRE[kind](e),
           'a large ' + kind)
    else:
        refuse(kind, KINDS[kind][3](e), '%d bytes' % size,
               'size of ' + kind)


# ---------------------------------------------------------------- networks

@st.composite
def elsewhere(draw):
    c = draw(base([k for k in KINDS if KINDS[k][0] is not B]))
    c['other'] = draw(gen.net([n for n in nets.NAMES
                               if n not in KINDS[c['kind']][0]],
                              'bitcoin_main'))
    return c


@sub('P26', 'networks', elsewhere(), 1500,
     rule='the other network is of the same family')
def check_networks(c, info):
    """Zcash and Decred classes exist on their networks only."""
    lib.select(c['net'])
    kind = c['kind']
    kw = KINDS[kind][3](c['d'])
    want = make(kind, kw).to_bytes()
    lib.select(c['other'])
    info.label(kind)
    info.nt((c['other'] in Z) == (c['net'] in Z)
            and (c['other'] in D) == (c['net'] in D))
    refuse(kind, kw, 'the network ' + c['other'], 'network of ' + kind)
    lib.select(c['net'])
    eq(make(kind, kw).to_bytes(), want, 'afterwards')
