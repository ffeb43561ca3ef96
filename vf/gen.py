"""Generators of plain data. No generator touches the library."""
import hashlib
import random

from hypothesis import strategies as st

from vf import words
from vf.ref import nets, script as rs

words.install()

# ------------------------------------------------------------------ numbers

U16 = st.one_of(st.sampled_from([0, 1, 2, 0xff, 0x100, 0x7fff, 0x8000,
                                 0xffff]), st.integers(0, 0xffff))
U16 = words.ints(U16, 0, 0xffff)
U32 = st.one_of(
    st.sampled_from([0, 1, 2, 0x7f, 0x80, 0xfc, 0xfd, 0xff, 0x100, 0xffff,
                     0x10000, 499999999, 500000000, 0x7fffffff, 0x80000000,
                     0xfffffffd, 0xfffffffe, 0xffffffff]),
    st.integers(0, 0xffffffff))
U32 = words.ints(U32, 0, 0xffffffff)
U64 = st.one_of(
    st.sampled_from([0, 1, 549, 550, 0xff, 0x100, 5000000000,
                     21 * 10 ** 14, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1,
                     2 ** 63, 2 ** 64 - 1]),
    st.integers(0, 21 * 10 ** 14), st.integers(0, 2 ** 64 - 1))
U64 = words.ints(U64, 0, 2 ** 64 - 1)
I64 = st.one_of(
    st.sampled_from([0, 1, -1, 127, 128, -128, -129, 2 ** 31, -2 ** 31,
                     2 ** 63 - 1, -2 ** 63]),
    st.integers(-2 ** 63, 2 ** 63 - 1))
I64 = words.ints(I64, -2 ** 63, 2 ** 63 - 1)
EXPIRY = st.one_of(
    st.sampled_from([0, 1, 0xff, 0x100, 0xffff, 499999998, 499999999]),
    st.integers(0, 499999999))
EXPIRY = words.ints(EXPIRY, 0, 499999999)


def stretch(seed, n):
    """n bytes from a seed"""
    return hashlib.shake_128(b'%d' % seed).digest(n)


def blob(n):
    """n bytes; large blobs come from a drawn seed"""
    return words.mark(n, plain_blob(n), stretch) if n else st.just(b'')


def plain_blob(n):
    edge = st.sampled_from([b'\x00' * n, b'\xff' * n, b'\x00' * (n - 1)
                            + b'\x01', b'\x01' + b'\x00' * (n - 1)])
    seeded = st.integers(0, 2 ** 32).map(lambda s: stretch(s, n))
    if n <= 40:
        return st.one_of(seeded, seeded, st.binary(min_size=n, max_size=n),
                         edge)
    return st.one_of(seeded, seeded, seeded, edge)


HASH32 = blob(32)
HASH20 = blob(20)


def sized(sizes):
    return sizes.flatmap(blob)


def lens(base, lo, hi):
    """`base`, and lengths in [lo, hi] that the source of the library names"""
    return words.ints(base, lo, hi)


def few(elem, lo, hi):
    """a list; now and then as long as a number in the source"""
    base = st.lists(elem, min_size=lo, max_size=hi)
    w = [v for v in words.INTS if hi < v <= 24]
    if not w:
        return base
    long = st.sampled_from(w).flatmap(
        lambda k: st.lists(elem, min_size=k, max_size=k))
    return st.integers(1, 8).flatmap(lambda k: long if k == 8 else base)


# ------------------------------------------------------------------ scripts

OPS = {False: sorted(rs.ops_for(False)), True: sorted(rs.ops_for(True))}
PUSH_LEN = st.one_of(
    st.integers(1, 40), st.sampled_from([20, 32, 33, 65, 71, 72]),
    st.sampled_from([1, 74, 75, 76, 77, 127, 128, 254, 255, 256, 257, 519,
                     520, 521, 767, 768, 999, 1000]))
PUSH_LEN = lens(PUSH_LEN, 1, 1000)
PUSH = sized(PUSH_LEN)


def hot_ops(decred):
    """opcodes that the source names more often than it did"""
    ops = rs.ops_for(decred)
    out = {w for s in words.STRS for w in s.split() if w in ops}
    return sorted(out | {n for n, v in ops.items() if v in words.INTS})


@st.composite
def _repeated(draw, toks):
    """one of the tokens, or all of them, again and again"""
    l = draw(toks)
    if not l:
        return l
    k = draw(st.integers(2, 12))
    if draw(st.booleans()):
        out = l * k
    else:
        i = draw(st.integers(0, len(l) - 1))
        out = l[:i] + [l[i]] * k + l[i + 1:]
    if sum(1 if isinstance(x, str) else len(x) + 3 for x in out) > 1600:
        return l
    return out


def tokens(decred=False, max_size=8):
    op = st.one_of(
        st.sampled_from(OPS[decred]),
        st.sampled_from(['OP_0', 'OP_1', 'OP_16', 'OP_DUP', 'OP_HASH160',
                         'OP_CHECKSIG', 'OP_EQUALVERIFY', 'OP_IF',
                         'OP_ENDIF', 'OP_1NEGATE']))
    hot = hot_ops(decred)
    base = few(st.one_of(op, PUSH), 0, max_size)
    rep = _repeated(base)
    kinds = [base] * 7 + [rep]
    if hot:
        warm = st.sampled_from(hot)
        kinds += [few(st.one_of(warm, warm, op, PUSH), 0, max_size)] * 4
        kinds += [st.lists(warm, min_size=1, max_size=max_size)] * 2
    return st.integers(0, len(kinds) - 1).flatmap(lambda k: kinds[k])


def text(toks):
    return ' '.join(t if isinstance(t, str) else t.hex() for t in toks)


PUBKEY = st.one_of(
    st.tuples(st.sampled_from([b'\x02', b'\x03']), HASH32).map(b''.join),
    st.tuples(st.just(b'\x04'), blob(64)).map(b''.join))

TEMPLATE = st.one_of(
    HASH20.map(lambda h: nets.script('p2pkh', h)),
    HASH20.map(lambda h: nets.script('p2sh', h)),
    HASH20.map(lambda h: nets.script('p2wpkh', h)),
    HASH32.map(lambda h: nets.script('p2wsh', h)),
    PUBKEY.map(lambda k: rs.push(k) + b'\xac'),
    sized(st.integers(0, 80)).map(lambda d: b'\x6a' + rs.push(d)),
    tokens(max_size=4).map(rs.assemble))


def _fits(n):
    return lambda b: len(b) <= n



def wide_push(data, size):
    """a push with a prefix of at least `size` more bytes than needed"""
    n = len(data)
    if size == 1 and n < 256:
        return b'\x4c' + bytes([n]) + data
    if size == 4 or n > 65535:
        return b'\x4e' + n.to_bytes(4, 'little') + data
    return b'\x4d' + n.to_bytes(2, 'little') + data


_SMALL = st.one_of(
    st.lists(st.sampled_from([0, 1, 2, 0x4c, 0x4d, 0x4e, 0x4f, 0x51, 0x60,
                              0x61, 0x76, 0x87, 0xac]), max_size=4).map(bytes),
    st.binary(max_size=6), tokens(max_size=3).map(rs.assemble).filter(
        lambda b: len(b) < 200))
_PIECE = st.one_of(
    _SMALL.map(rs.push), st.builds(wide_push, _SMALL,
                                   st.sampled_from([1, 1, 1, 2, 4])),
    st.integers(0, 255).map(lambda v: bytes([v])),
    st.sampled_from([b'\x00', b'\x51', b'\x60', b'\x4f', b'\xac', b'\x4c\x00',
                     b'\x4d\x00\x00']))
# scripts with pushes of every form, minimal or not, some running off the end
WILD = st.lists(_PIECE, min_size=1, max_size=5).map(b''.join)

SPK = st.one_of(TEMPLATE.filter(_fits(251)), TEMPLATE.filter(_fits(251)),
                WILD.filter(_fits(251)),
                sized(st.integers(0, 30)),
                sized(lens(st.sampled_from([0, 1, 75, 76, 250, 251]), 0, 251)))
SPK_LONG = sized(lens(st.sampled_from(
    [252, 253, 254, 255, 256, 520, 10000, 65535, 65536]), 252, 65536))
OUT_SPK = st.one_of(SPK, SPK, SPK, SPK_LONG)
# the same where hashing is slow
OUT_SPK_MID = st.one_of(SPK, SPK, SPK, SPK, SPK, sized(lens(st.sampled_from(
    [252, 253, 254, 255, 256, 257, 520]), 252, 1024)), st.integers(
        0, 9).flatmap(lambda k: SPK_LONG if k == 9 else SPK))


def is_long(t):
    """whether an output script is longer than the library parses"""
    return any(len(o['spk']) > 251 for o in t['outs'])


# a signature-like push list
_sigpush = st.one_of(sized(st.integers(68, 73)), PUBKEY, PUSH.filter(
    _fits(80)), st.just(b''))
STACK = st.lists(_sigpush, max_size=3).map(
    lambda l: b''.join(rs.push(x) if x else b'\x00' for x in l))


def script_sig():
    return _script_sig().filter(lambda p: len(p[0]) + len(p[1]) <= 1650)


@st.composite
def _script_sig(draw):
    """(stack, redeem): what the two halves of a script sig may be"""
    kind = draw(st.sampled_from(['empty', 'stack', 'p2sh', 'junk', 'edge',
                                 'stack', 'p2sh', 'wild', 'wild']))
    if kind == 'wild':
        b = draw(WILD)
        k = draw(st.integers(0, len(b))) if draw(st.booleans()) else len(b)
        return b[:k], b[k:]
    if kind == 'empty':
        return b'', b''
    if kind == 'stack':
        return draw(STACK), b''
    if kind == 'p2sh':
        inner = draw(tokens(max_size=5).map(rs.assemble).filter(
            lambda b: 0 < len(b) <= 900))
        return draw(STACK), rs.push(inner)
    if kind == 'junk':
        return draw(sized(st.integers(0, 60))), draw(sized(st.sampled_from(
            [0, 0, 1, 20])))
    n = draw(lens(st.sampled_from([1, 75, 76, 251, 252, 253, 254, 255, 256,
                                   1649, 1650]), 1, 1650))
    k = draw(st.sampled_from([0, n, n // 2]))
    b = draw(blob(n))
    return b[:k], b[k:]


@st.composite
def txin(draw, simple=False):
    stack, redeem = (b'', b'') if simple else draw(script_sig())
    null = draw(st.integers(0, 19)) == 19
    return {'txid': bytes(32) if null else draw(HASH32),
            'idx': 0xffffffff if null else draw(U32),
            'stack': stack, 'redeem': redeem,
            'seq': draw(U32)}


@st.composite
def txout(draw, long=False):
    spk = draw(OUT_SPK if long else SPK)
    return {'val': draw(U64), 'spk': spk}


WITNESS_ITEM = st.one_of(
    sized(st.integers(0, 73)),
    sized(lens(st.sampled_from([0, 1, 33, 71, 72, 75, 76, 252, 253, 254, 255,
                                256, 520, 3600]), 0, 4000)))
WITNESS_STACK = few(WITNESS_ITEM, 0, 4)
VERSION = st.one_of(st.sampled_from([1, 2]), st.sampled_from([1, 2]), U32)


# ------------------------------------------------------------- coincidences
#
# Fields drawn one by one are hardly ever equal, in order, or related, but
# code that confuses two of them goes wrong only where they are.

N32 = ('idx', 'seq', 'lock', 'expiry', 'height', 'index')


def _slots(t, keys, top=True):
    """(dict, key) of every field with one of the names"""
    out = [(t, k) for k in keys if t.get(k) is not None] if top else []
    for v in t.values():
        if isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    out += _slots(x, keys)
    return out


def _copy_plain(x):
    if isinstance(x, dict):
        return {k: _copy_plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_copy_plain(v) for v in x]
    return x


def _twins(t, r):
    """an element becomes (nearly) equal to another"""
    lists = [k for k in ('ins', 'outs', 'wits', 'js', 'spends', 'souts')
             if t.get(k) and len(t[k]) > 1]
    if not lists:
        return
    l = t[r.choice(lists)]
    i, j = r.sample(range(len(l)), 2)
    old, l[j] = l[j], _copy_plain(l[i])
    if isinstance(old, dict) and r.random() < 0.6:
        free = sorted(k for k in old if not k.startswith('vpub'))
        for k in r.sample(free, r.choice([1, 1, 2]) % (len(free) + 1)):
            for m in ('stack', 'redeem') if k in ('stack', 'redeem') else (k,):
                l[j][m] = old[m]


def _numbers(t, r):
    slots = _slots(t, N32)
    how = r.choice(['copy', 'copy', 'zero', 'full', 'all seq', 'one final'])
    if how == 'all seq':
        for x in t['ins']:
            x['seq'] = t['ins'][0]['seq']
    elif how == 'one final':
        k = r.randrange(max(1, len(t['ins'])))
        for n, x in enumerate(t['ins']):
            x['seq'] = 0xffffffff if n == k else r.choice([0, 0xfffffffe])
    elif slots:
        d, k = r.choice(slots)
        e, m = r.choice(slots)
        v = {'zero': 0, 'full': 0xffffffff}.get(how, e[m])
        if k != 'expiry' or v <= 499999999:
            d[k] = v


def _values(t, r):
    slots = _slots(t, ('val',))
    if not slots:
        return
    how = r.choice(['copy', 'all', 'zero', 'full', 'sort', 'reverse'])
    d, k = r.choice(slots)
    if how in ('sort', 'reverse'):
        t['outs'].sort(key=lambda o: o['val'], reverse=how == 'reverse')
    elif how == 'all':
        for e, m in slots:
            e[m] = d[k]
    else:
        e, m = r.choice(slots)
        d[k] = {'zero': 0, 'full': 2 ** 64 - 1}.get(how, e[m])


def _scripts(t, r):
    to = _slots(t, ('spk', 'stack', 'redeem'))
    if not to:
        return
    d, k = r.choice(to)
    e, m = r.choice(to)
    v = r.choice([e[m], e[m], e[m], b''])
    if k == 'spk' and len(v) > 251:
        return
    if k != 'spk' and len(v) + len(
            d['redeem' if k == 'stack' else 'stack']) > 1650:
        return
    d[k] = v


def _ids(t, r):
    if not t['ins']:
        return
    x, y = r.choice(t['ins']), r.choice(t['ins'])
    how = r.choice(['copy', 'zero', 'full', 'palindrome', 'sort', 'reverse'])
    if how in ('sort', 'reverse'):
        order = sorted(range(len(t['ins'])), key=lambda k: (
            t['ins'][k]['txid'], t['ins'][k]['idx']), reverse=how != 'sort')
        t['ins'] = [t['ins'][k] for k in order]
    else:
        half = x['txid'][:16]
        x['txid'] = {'zero': bytes(32), 'full': b'\xff' * 32,
                     'palindrome': half + half[::-1]}.get(how, y['txid'])


def _notes(t, r):
    """fields of joinsplits, spends and shielded outputs"""
    parts = [x for k in ('js', 'spends', 'souts') for x in t.get(k) or []]
    if not parts:
        return
    x, y = r.choice(parts), r.choice(parts)
    same = sorted(k for k in x if isinstance(x[k], bytes)
                  and not k.startswith('vpub'))
    k = r.choice(same)
    how = r.choice(['other', 'halves', 'zero', 'field', 'pubkey', 'turn'])
    if how == 'other' and k in y:
        x[k] = y[k]
    elif how == 'halves' and len(x[k]) % 2 == 0:
        x[k] = x[k][:len(x[k]) // 2] * 2
    elif how == 'zero':
        x[k] = bytes(len(x[k]))
    elif how == 'field':
        fit = [m for m in same if len(x[m]) == len(x[k])]
        x[k] = x[r.choice(fit)]
    elif how == 'pubkey' and t.get('pubkey'):
        if len(x[k]) == 32 and r.random() < 0.5:
            x[k] = t['pubkey']
        else:
            t['pubkey'] = r.choice([bytes(32), b'\xff' * 32])
    elif how == 'turn':
        x[k] = x[k][::-1]


def coincide(t, seed):
    """`t`, a plain transaction, with some fields equal or in order; as it is
    for seed 0"""
    if not seed:
        return t
    r = random.Random(seed)
    t = _copy_plain(t)
    hows = [_twins, _twins, _numbers, _values, _scripts, _ids]
    if t.get('js') or t.get('spends') or t.get('souts'):
        hows += [_notes] * 3
    for _ in range(r.choice([1, 1, 2, 3])):
        r.choice(hows)(t, r)
    return t


def _weight(x):
    """no less than the serialised size"""
    if isinstance(x, dict):
        return 64 + sum(map(_weight, x.values()))
    if isinstance(x, list):
        return sum(map(_weight, x))
    return len(x) if isinstance(x, bytes) else 0


def small(t, limit=100000):
    """`t` with its longest output scripts cut until it is no larger"""
    while _weight(t) > limit:
        o = max(t['outs'], key=lambda o: len(o['spk']))
        if len(o['spk']) < 300:
            break
        o['spk'] = o['spk'][:len(o['spk']) // 2]
    return t


MIX = st.one_of(st.just(0), st.integers(1, 2 ** 32))


@st.composite
def tx(draw, segwit=None, long=False, max_in=4, max_out=4, simple=False):
    """A Bitcoin transaction. segwit None: either."""
    flag = draw(st.booleans()) if segwit is None else segwit
    ins = draw(few(txin(simple), 1, max_in))
    outs = draw(few(txout(long), 1, max_out))
    wits = None
    if flag and draw(st.integers(0, 3)):
        wits = [draw(WITNESS_STACK) for _ in ins]
    t = {'ver': draw(VERSION), 'flag': flag, 'ins': ins, 'outs': outs,
         'wits': wits, 'lock': draw(U32)}
    return t if simple else coincide(t, draw(MIX))


def net(names, main='bitcoin_main'):
    """half of the cases on the main network of the group"""
    names = list(names)
    if main in names:
        return st.one_of(st.just(main), st.sampled_from(names))
    return st.sampled_from(names)


def wide_tx(spec):
    """Expands {n_in, n_out, n_item, seed, segwit} to a transaction."""
    r = random.Random(spec['seed'])
    rb = lambda n: r.getrandbits(8 * n).to_bytes(n, 'big') if n else b''
    ins = [{'txid': rb(32), 'idx': r.getrandbits(32), 'redeem': b'',
            'stack': rb(r.choice([0, 0, 1, 5])), 'seq': r.getrandbits(32)}
           for _ in range(spec['n_in'])]
    outs = [{'val': r.getrandbits(51), 'spk': rb(r.choice([0, 1, 22, 25]))}
            for _ in range(spec['n_out'])]
    wits = None
    if spec['segwit'] and spec['n_item'] is not None:
        wits = [[rb(r.choice([0, 1, 2])) for _ in range(
            spec['n_item'] if k == 0 else r.choice([0, 1, 2]))]
            for k in range(spec['n_in'])]
    return {'ver': 2, 'flag': spec['segwit'], 'ins': ins, 'outs': outs,
            'wits': wits, 'lock': r.getrandbits(32)}


COUNT = lens(st.sampled_from([1, 2, 251, 252, 253, 254, 255, 256, 257, 300]),
             1, 400)
WIDE = st.fixed_dictionaries({
    'n_in': COUNT, 'n_out': COUNT, 'n_item': st.one_of(st.none(), COUNT),
    'seed': st.integers(0, 2 ** 32), 'segwit': st.booleans()})

# ------------------------------------------------------------------ Zcash


def struct(layout):
    d = {}
    for name, n in layout:
        d[name] = struct(n) if isinstance(n, list) else blob(n)
    return st.fixed_dictionaries(d)


@st.composite
def joinsplit(draw, layout):
    d = draw(struct(layout))
    amount = draw(U64).to_bytes(8, 'little')
    which = draw(st.sampled_from(['vpub_old', 'vpub_new', None]))
    d['vpub_old'] = d['vpub_new'] = bytes(8)
    if which:
        d[which] = amount
    return d


def fast_struct(layout):
    """one seed for the whole structure"""
    from vf.ref import wire
    size = wire.layout_size(layout)
    return st.integers(0, 2 ** 32).map(
        lambda s: wire.split(layout, stretch(s, size)))


@st.composite
def fast_joinsplit(draw, layout):
    d = dict(draw(fast_struct(layout)))
    amount = draw(U64).to_bytes(8, 'little')
    which = draw(st.sampled_from(['vpub_old', 'vpub_new', None]))
    d['vpub_old'] = d['vpub_new'] = bytes(8)
    if which:
        d[which] = amount
    return d


def joinsplits(layout, max_size=5):
    one = st.one_of(fast_joinsplit(layout), fast_joinsplit(layout),
                    joinsplit(layout))
    return st.one_of(st.just([]), st.lists(one, max_size=2),
                     st.lists(one, max_size=max_size))


@st.composite
def zcash(draw, kind, max_js=5, long=False):
    """A Sprout, Overwinter or Sapling transaction, as plain data."""
    from vf.ref import wire
    ins = draw(few(txin(), 0, 3))
    outs = draw(few(txout(long), 0, 3))
    t = {'ins': ins, 'outs': outs, 'lock': draw(U32)}
    if kind == 'sprout':
        t['ver'] = draw(st.sampled_from([1, 2, 2]))
        t['js'] = []
        if t['ver'] == 1:
            if not ins:
                t['ins'] = [draw(txin())]
        else:
            t['js'] = draw(joinsplits(wire.JS_SPROUT, max_js))
    else:
        t['expiry'] = draw(EXPIRY)
        t['js'] = draw(joinsplits(wire.JS_SPROUT if kind == 'overwinter'
                                  else wire.JS_SAPLING, max_js))
    t['pubkey'] = draw(blob(32)) if t['js'] else None
    t['sig'] = draw(blob(64)) if t['js'] else None
    if kind == 'sapling':
        t['spends'] = draw(st.one_of(st.just([]), st.lists(st.one_of(
            fast_struct(wire.SPEND), struct(wire.SPEND)), max_size=3)))
        t['souts'] = draw(st.one_of(st.just([]), st.lists(st.one_of(
            fast_struct(wire.OUTPUT), struct(wire.OUTPUT)), max_size=3)))
        shielded = bool(t['spends'] or t['souts'])
        t['balance'] = draw(I64) if shielded else 0
        t['binding'] = draw(blob(64)) if shielded else None
        if not (t['ins'] or t['js'] or t['spends']):
            t['ins'] = [draw(txin())]
    elif kind == 'overwinter' and not (t['ins'] or t['js']):
        t['ins'] = [draw(txin())]
    return small(coincide(t, draw(MIX)))


ZNETS = {'sprout': nets.SPROUT, 'overwinter': nets.OVERWINTER,
         'sapling': nets.SAPLING}

# ------------------------------------------------------------------ Decred


@st.composite
def decred(draw, max_in=4, max_out=4, long=False):
    ins = draw(few(st.fixed_dictionaries(
        {'txid': HASH32, 'idx': U32, 'tree': lens(st.sampled_from(
            [0, 1, 2, 255]), 0, 255), 'seq': U32}), 1, max_in))
    outs = draw(few(st.fixed_dictionaries(
        {'val': U64, 'ver': U16, 'spk': OUT_SPK_MID if long else SPK}),
        1, max_out))
    wits = []
    for _ in ins:
        stack, redeem = draw(script_sig())
        wits.append({'val': draw(U64), 'height': draw(U32),
                     'index': draw(U32), 'stack': stack, 'redeem': redeem})
    t = {'ver': draw(st.one_of(st.sampled_from([1, 2]), U16)),
         'sertype': draw(st.sampled_from([0, 0, 0, 1, 2, 0xffff])),
         'ins': ins, 'outs': outs, 'lock': draw(U32),
         'expiry': draw(U32), 'wits': wits}
    return small(coincide(t, draw(MIX)))

# ------------------------------------------------------- script codes, others

SCRIPT_CODE = st.one_of(
    TEMPLATE, TEMPLATE, WILD, sized(st.integers(0, 80)),
    sized(lens(st.sampled_from([0, 1, 252, 253, 254, 255, 256, 520, 1649,
                                1650]), 0, 1650))).filter(_fits(1650))
SCRIPT_CODE_LONG = st.one_of(
    SCRIPT_CODE, SCRIPT_CODE, SCRIPT_CODE,
    sized(st.sampled_from([1651, 3600, 9999, 10000, 65535, 65536])))
VIA = st.sampled_from(['built', 'built', 'parsed', 'copied', 'bytearrays'])
COIN = st.booleans()


def related(t, seed, script, value, index):
    """what is signed, with something of the transaction in it"""
    if seed:
        r = random.Random(seed)
        n = len(t['ins'])
        own = [d[k] for d, k in _slots(t, ('spk', 'stack', 'redeem'))
               if len(d[k]) <= 1650]
        if own and r.random() < 0.3:
            script = r.choice(own)
        vals = [d[k] for d, k in _slots(t, ('val',))]
        if r.random() < 0.3:
            value = r.choice(vals + [0, 2 ** 64 - 1])
        if n > 1 and r.random() < 0.3:
            index = r.choice([0, n - 1, n - 1, min(n, len(t['outs'])) - 1])
            index = max(0, index)
    return script, value, index


@st.composite
def sigcase(draw, txs, names, long=False, main='bitcoin_main', inputs='ins'):
    """A transaction, the input to sign, and how."""
    t = draw(txs)
    n = len(t[inputs])
    index = draw(st.integers(0, max(0, n - 1)))
    if draw(st.integers(0, 29)) == 0:
        index = n + draw(st.integers(0, 2))
    script = draw(SCRIPT_CODE_LONG if long else SCRIPT_CODE)
    script, value, index = related(t, draw(MIX), script, draw(U64), index)
    return {'net': draw(net(names, main)), 't': t, 'index': index,
            'script': script, 'value': value, 'single': draw(COIN), 'acp': draw(COIN),
            'via': draw(VIA)}
