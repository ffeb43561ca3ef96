"""Immutability and copies."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import Violation, eq, ok, sub
from vf.ref import nets, wire
from vf.ref.wire import le

B, Z, D = nets.BITCOIN, nets.ZCASH, nets.DECRED


def some(names, main='bitcoin_main'):
    return gen.net(names, main)


# kind: (networks, plain data, class, keyword arguments from plain data)

def kw_outpoint(i):
    return {'tx_id': i['txid'], 'index': le(i['idx'], 4)}


def kw_txin(i):
    return {'outpoint': lib.outpoint(i), 'stack_script': i['stack'],
            'redeem_script': i['redeem'], 'sequence': le(i['seq'], 4)}


def kw_txout(o):
    return {'value': le(o['val'], 8), 'output_script': o['spk']}


def kw_item(d):
    return {'item': d}


def kw_witness(s):
    return {'stack': [lib.btc.WitnessStackItem(x) for x in s]}


def kw_tx(t):
    return {'version': le(t['ver'], 4),
            'flag': b'\x00\x01' if t['flag'] else None,
            'tx_ins': [lib.txin(i) for i in t['ins']],
            'tx_outs': [lib.txout(o) for o in t['outs']],
            'tx_witnesses': None if t['wits'] is None else [
                lib.witness(w) for w in t['wits']],
            'lock_time': le(t['lock'], 4)}


def kw_struct(zk):
    def f(d):
        kw = dict(d)
        if 'zkproof' in kw:
            kw['zkproof'] = zk(**kw['zkproof'])
        return kw
    return f


def kw_zcash(kind):
    def f(t):
        kw = {'tx_ins': [lib.txin(i) for i in t['ins']],
              'tx_outs': [lib.txout(o) for o in t['outs']],
              'lock_time': le(t['lock'], 4),
              'tx_joinsplits': [
                  (lib.sapling_js if kind == 'sapling' else lib.sprout_js)(j)
                  for j in t['js']],
              'joinsplit_pubkey': t['pubkey'], 'joinsplit_sig': t['sig']}
        if kind == 'sprout':
            kw['version'] = le(t['ver'], 4)
        else:
            kw['expiry_height'] = le(t['expiry'], 4)
        if kind == 'sapling':
            kw['value_balance'] = t['balance'].to_bytes(8, 'little',
                                                        signed=True)
            kw['tx_shielded_spends'] = [lib.spend(s) for s in t['spends']]
            kw['tx_shielded_outputs'] = [lib.sout(s) for s in t['souts']]
            kw['binding_sig'] = t['binding']
        return kw
    return f


def kw_dcr_outpoint(i):
    return {'tx_id': i['txid'], 'index': le(i['idx'], 4),
            'tree': le(i['tree'], 1)}


def kw_dcr_txin(i):
    return {'outpoint': lib.dcr_outpoint(i), 'sequence': le(i['seq'], 4)}


def kw_dcr_txout(o):
    return {'value': le(o['val'], 8), 'version': le(o['ver'], 2),
            'output_script': o['spk']}


def kw_dcr_wit(w):
    return {'value': le(w['val'], 8), 'height': le(w['height'], 4),
            'index': le(w['index'], 4), 'stack_script': w['stack'],
            'redeem_script': w['redeem']}


def kw_dcr(t):
    return {'version': le(t['ver'], 2) + le(t['sertype'], 2),
            'tx_ins': [lib.dcr_txin(i) for i in t['ins']],
            'tx_outs': [lib.dcr_txout(o) for o in t['outs']],
            'lock_time': le(t['lock'], 4), 'expiry': le(t['expiry'], 4),
            'tx_witnesses': [lib.dcr_wit(w) for w in t['wits']]}


DT = gen.decred(2, 2)
KINDS = {
    'Outpoint': (B, gen.txin(True), lib.btc.Outpoint, kw_outpoint),
    'TxIn': (B, gen.txin(), lib.btc.TxIn, kw_txin),
    'TxOut': (B, gen.txout(), lib.btc.TxOut, kw_txout),
    'WitnessStackItem': (B, gen.WITNESS_ITEM, lib.btc.WitnessStackItem,
                         kw_item),
    'InputWitness': (B, gen.WITNESS_STACK, lib.btc.InputWitness, kw_witness),
    'Tx': (B, gen.tx(max_in=2, max_out=2), lib.btc.Tx, kw_tx),
    'SproutZkproof': (Z, gen.fast_struct(wire.ZK_SPROUT),
                      lib.zs.SproutZkproof, dict),
    'SproutJoinsplit': (Z, gen.fast_joinsplit(wire.JS_SPROUT),
                        lib.zs.SproutJoinsplit,
                        kw_struct(lib.zs.SproutZkproof)),
    'SaplingZkproof': (Z, gen.fast_struct(wire.ZK_SAPLING),
                       lib.sap.SaplingZkproof, dict),
    'SaplingJoinsplit': (Z, gen.fast_joinsplit(wire.JS_SAPLING),
                         lib.sap.SaplingJoinsplit,
                         kw_struct(lib.sap.SaplingZkproof)),
    'SaplingShieldedSpend': (Z, gen.fast_struct(wire.SPEND),
                             lib.sap.SaplingShieldedSpend,
                             kw_struct(lib.sap.SaplingZkproof)),
    'SaplingShieldedOutput': (Z, gen.fast_struct(wire.OUTPUT),
                              lib.sap.SaplingShieldedOutput,
                              kw_struct(lib.sap.SaplingZkproof)),
    'sprout': (nets.SPROUT, gen.zcash('sprout', 2), lib.spr.SproutTx,
               kw_zcash('sprout')),
    'overwinter': (nets.OVERWINTER, gen.zcash('overwinter', 2),
                   lib.ow.OverwinterTx, kw_zcash('overwinter')),
    'sapling': (nets.SAPLING, gen.zcash('sapling', 2), lib.sap.SaplingTx,
                kw_zcash('sapling')),
    'DecredOutpoint': (D, DT.map(lambda t: t['ins'][0]),
                       lib.dcr.DecredOutpoint, kw_dcr_outpoint),
    'DecredTxIn': (D, DT.map(lambda t: t['ins'][0]), lib.dcr.DecredTxIn,
                   kw_dcr_txin),
    'DecredTxOut': (D, DT.map(lambda t: t['outs'][0]), lib.dcr.DecredTxOut,
                    kw_dcr_txout),
    'DecredInputWitness': (D, DT.map(lambda t: t['wits'][0]),
                           lib.dcr.DecredInputWitness, kw_dcr_wit),
    'DecredTx': (D, DT, lib.dcr.DecredTx, kw_dcr),
}
KIND = st.one_of(st.sampled_from(['Tx', 'sprout', 'overwinter', 'sapling',
                                  'DecredTx']),
                 st.sampled_from(list(KINDS)))
COPYABLE = [k for k in KINDS if hasattr(KINDS[k][2], 'copy')]

# ---------------------------------------------------------------- snapshots


def fields(x):
    out = []
    for k in dir(x):
        if not k.startswith('_'):
            v = getattr(x, k, None)
            if not callable(v):
                out.append(k)
    return out


def snap(x):
    """everything an object shows, as plain values"""
    if isinstance(x, lib.shared.ByteData):
        return (type(x).__name__, x.to_bytes(), x.hex(), len(x),
                tuple((k, snap(getattr(x, k, None))) for k in fields(x)))
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, (list, tuple)):
        return tuple(snap(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((k, snap(v)) for k, v in x.items()))
    return x


def tree(x, path='tx'):
    """every library object reachable from x"""
    if isinstance(x, lib.shared.ByteData):
        yield path, x
        for k in fields(x):
            for y in tree(getattr(x, k, None), path + '.' + k):
                yield y
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            for y in tree(v, '%s[%d]' % (path, i)):
                yield y


def poke(v):
    """tries to change a value in place"""
    try:
        if isinstance(v, bytearray):
            v.extend(b'\x5a')
            v[0] ^= 0xff
        elif isinstance(v, list):
            v.append(None)
            v.reverse()
        elif isinstance(v, dict):
            v.clear()
        elif isinstance(v, lib.shared.ByteData):
            v += b'\x5a'
    except Exception:
        pass


# -------------------------------------------------------------- sub-checks

@st.composite
def one(draw):
    kind = draw(KIND)
    return {'kind': kind, 'net': draw(some(KINDS[kind][0])),
            'd': draw(KINDS[kind][1]),
            'pick': draw(st.integers(0, 2 ** 20)),
            'how': draw(st.sampled_from(['bytes', 'bytearray', 'bytedata']))}


def build(c, d=None):
    _, _, cls, kw = KINDS[c['kind']]
    return cls(**kw(c['d'] if d is None else d))


def attempts(x):
    """(name, function) of every way to write to x"""
    names = fields(x) + ['_bytes', 'new_attribute', '_ByteData__immutable',
                         'to_bytes', 'hex']
    for k in names:
        for v in (b'\x00', None, bytearray(b'\x01'), ()):
            yield 'set %s' % k, lambda k=k, v=v: setattr(x, k, v)
    for k in fields(x) + ['_bytes']:
        yield 'delete %s' % k, lambda k=k: delattr(x, k)


@sub('P20', 'attributes', one(), 1500, rule='the object holds other objects')
def check_attributes(c, info):
    """Attributes cannot be set, replaced or deleted."""
    lib.select(c['net'])
    x = build(c)
    info.label(c['kind'])
    before = snap(x)
    nodes = list(tree(x))
    info.nt(len(nodes) > 1)
    for path, y in {id(y): (p, y) for p, y in nodes}.values():
        for what, f in attempts(y):
            try:
                f()
            except Exception:
                continue
            raise Violation('%s of %s in a %s was allowed'
                            % (what, path, c['kind']),
                            'write to %s was allowed' % type(y).__name__)
    eq(snap(x), before, 'a %s after refused writes' % c['kind'])


@sub('P20', 'inplace', one(), 1500, rule='the object holds other objects')
def check_inplace(c, info):
    """Nothing obtained from an object changes it."""
    lib.select(c['net'])
    x = build(c)
    info.label(c['kind'])
    before = snap(x)
    nodes = list(tree(x))
    info.nt(len(nodes) > 1)
    for path, y in nodes:
        poke(y)
        for k in fields(y):
            poke(getattr(y, k))
        poke(y.to_bytes())
        poke(y[:])
        for f in (lambda: y.__setitem__(0, 1), lambda: y.__delitem__(0),
                  lambda: y.extend(b'1'), lambda: y.clear(),
                  lambda: y._make_immutable(), lambda: y.find(b'\x00'),
                  lambda: list(y), lambda: poke_copy(y)):
            try:
                f()
            except Exception:
                pass
    eq(snap(x), before, 'a %s after changes in place' % c['kind'])


def poke_copy(y):
    z = y.copy()
    if z is not y:      # nothing is overridden, it may be the same object
        poke(vars(z))


def mutable(kw, how):
    """the same arguments in objects that can change"""
    out = {}
    for k, v in kw.items():
        if isinstance(v, bytes) and how != 'bytes':
            w = bytearray(v)
            if how == 'bytedata':
                w = lib.shared.ByteData()
                w += v
            out[k] = w
        else:
            out[k] = list(v) if isinstance(v, (list, tuple)) else v
    return out


@sub('P20', 'arguments', one(), 2500,
     rule='an argument is a list or a bytearray')
def check_arguments(c, info):
    """Arguments can be changed by their owner without any effect."""
    lib.select(c['net'])
    _, _, cls, kw = KINDS[c['kind']]
    info.label(c['kind'], c['how'])
    plain = kw(c['d'])
    want = snap(cls(**plain))
    args = mutable(plain, c['how'])
    if c['how'] == 'bytedata':
        # only some constructors take byte containers
        try:
            x = cls(**args)
        except Exception:
            info.label('refused')
            return
        eq(x.to_bytes(), want[1], 'built from byte containers')
    else:
        x = cls(**args)
        eq(snap(x), want, 'built from mutable arguments')
    before = snap(x)
    info.nt(any(isinstance(v, (list, bytearray)) for v in args.values()))
    for v in args.values():
        poke(v)
        if isinstance(v, list):
            v.clear()
    eq(snap(x), before, 'a %s after its arguments changed' % c['kind'])


@st.composite
def two(draw):
    kind = draw(st.one_of(
        st.sampled_from(['Tx', 'sprout', 'overwinter', 'sapling',
                         'DecredTx']), st.sampled_from(COPYABLE)))
    n = 12
    return {'kind': kind, 'net': draw(some(KINDS[kind][0])),
            'd': draw(KINDS[kind][1]), 'e': draw(KINDS[kind][1]),
            'form': draw(st.sampled_from(['bytes', 'bytes', 'bytearray',
                                          'bytedata', 'tuple'])),
            'empty': draw(st.one_of(
                st.just(0), st.integers(0, n - 1).map(lambda k: 1 << k),
                st.integers(0, 2 ** n - 1))),
            'mask': draw(st.one_of(
                st.just(0), st.integers(0, n - 1).map(lambda k: 1 << k),
                st.integers(0, 2 ** n - 1)))}


@sub('P20', 'copies', two(), 4000, rule='some fields are overridden and the '
     'result is legal')
def check_copies(c, info):
    """copy() with any overrides is the constructor on the merged fields."""
    lib.select(c['net'])
    _, _, cls, kw = KINDS[c['kind']]
    mine, other = kw(c['d']), kw(c['e'])
    x = cls(**mine)
    before = snap(x)
    over = {k: other[k] for i, k in enumerate(sorted(mine))
            if c['mask'] >> i & 1 and other[k] is not None}
    for i, k in enumerate(sorted(mine)):
        if c.get('empty', 0) >> i & 1 and empty(mine[k]) is not None:
            over[k] = empty(mine[k])
    try:
        want = snap(cls(**dict(mine, **over)))
    except Exception:
        want = None
    over = reshape(cls, mine, over, c.get('form', 'bytes'))
    given = snap(over)
    info.label(c['kind'], '%d overrides' % len(over))
    if want is None:
        info.label('illegal')
        try:
            y = x.copy(**over)
        except Exception:
            pass
        else:
            raise Violation('a copy with overrides %s that the constructor '
                            'refuses was made' % sorted(over),
                            'illegal copy')
    else:
        info.nt(bool(over))
        y = x.copy(**over)
        eq(snap(y), want, 'copy with %s' % sorted(over))
        ok(y is not x, 'a copy is the object itself')
        ok(type(y) is type(x), 'a copy is of another type')
        try:
            y.new_attribute = 1
        except Exception:
            pass
        else:
            raise Violation('a copy can be written to')
    eq(snap(x), before, 'a %s after a copy' % c['kind'])
    eq(snap(over), given, 'the overrides')


def reshape(cls, mine, over, form):
    """the overrides in other types, where the constructor takes those"""
    if form == 'bytes':
        return over
    if form == 'tuple':
        new = {k: tuple(v) if isinstance(v, list) else v
               for k, v in over.items()}
    else:
        new = mutable(over, form)
    if form == 'bytedata':
        try:
            cls(**dict(mine, **new))
        except Exception:
            return over
    return new


def empty(v):
    """the empty value of the same type; zeros where a size is fixed"""
    if isinstance(v, (list, tuple)):
        return []
    if isinstance(v, bytes):
        return b'' if len(v) not in (1, 2, 4, 8, 32, 64) else bytes(len(v))
    return None


OPS = ['sighash_all', 'sighash_single', 'acp', 'no_witness', 'fee', 'forms',
       'copy', 'parse', 'repr', 'null', 'p2sh', 'iter', 'find', 'none']


@st.composite
def histories(draw):
    kind = draw(st.sampled_from(['Tx', 'Tx', 'sprout', 'overwinter',
                                 'sapling', 'DecredTx']))
    return {'kind': kind, 'net': draw(some(KINDS[kind][0])),
            'd': draw(KINDS[kind][1]),
            'ops': draw(st.lists(st.sampled_from(OPS), min_size=2,
                                 max_size=8))}


def do(x, op, c):
    n = len(x.tx_ins)
    v = dict(index=n - 1, script=b'\x01\xac')
    zk = c['kind'] in ('overwinter', 'sapling')
    if zk:
        v['prevout_value'] = bytes(8)
    elif c['kind'] == 'Tx':
        v['prevout_value'] = bytes(8)
    if op == 'sighash_all':
        return x.sighash_all(**v)
    if op == 'sighash_single':
        return x.sighash_single(**v)
    if op == 'acp':
        return x.sighash_all(anyone_can_pay=True, **v)
    if op == 'none':
        return x.sighash_none()
    if op == 'no_witness':
        return x.no_witness(), x.is_witness()
    if op == 'fee':
        return x.calculate_fee() if c['kind'] == 'DecredTx' \
            else x.calculate_fee([1] * n)
    if op == 'forms':
        return (x.prefix(), x.witness(), x.witness_signing(),
                x.prefix_hash(), x.witness_hash(), x.witness_signing_hash())
    if op == 'copy':
        return x.copy(lock_time=b'\x01\x02\x03\x04')
    if op == 'parse':
        return type(x).from_bytes(x.to_bytes())
    if op == 'repr':
        return repr(x), format(x, 'x'), len(x)
    if op == 'null':
        return lib.btc.Outpoint.null()
    if op == 'p2sh':
        return [i.is_p2sh() for i in x.tx_ins]
    if op == 'iter':
        return list(x), x[0], x[1:], x == x, x != x.to_bytes()
    return x.find(b'\x00'), x.find(x)


@sub('P20', 'histories', histories(), 2500,
     rule='two operations succeeded')
def check_histories(c, info):
    """Computing anything changes nothing, and gives the same twice."""
    lib.select(c['net'])
    x = build(c)
    before = snap(x)
    done = 0
    seen = {}
    for op in c['ops']:
        try:
            r = do(x, op, c)
        except Exception as e:
            r = 'raised ' + type(e).__name__
        else:
            done += 1
        r = snap(r)
        eq(snap(x), before, 'a %s after %s' % (c['kind'], op))
        if op in seen:
            eq(r, seen[op], '%s a second time' % op)
        seen[op] = r
        poke(r)
    info.label(c['kind'], *c['ops'])
    info.nt(done > 1)


VARINT = st.one_of(gen.U64, st.integers(0, 300))


@sub('P20', 'varint', VARINT.map(lambda n: {'n': n}), 300,
     rule='the number needs a prefix')
def check_varint(c, info):
    lib.select('bitcoin_main')
    info.nt(c['n'] > 252)
    x = lib.shared.VarInt(c['n'])
    before = snap(x)
    for what, f in attempts(x):
        try:
            f()
        except Exception:
            continue
        raise Violation('%s of a VarInt was allowed' % what)
    poke(x)
    poke(x.to_bytes())
    eq(snap(x), before, 'a VarInt after writes')
    eq(snap(x.copy()), before, 'copy of a VarInt')
