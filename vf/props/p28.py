"""Byte containers."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import Violation, eq, ok, refuses, sub

BD = lib.shared.ByteData
B = gen.sized(st.one_of(st.integers(0, 6), st.integers(0, 40)))
HOW = st.sampled_from(['from_bytes', 'from_bytearray', 'from_container',
                       'from_hex', 'from_HEX', 'added', 'frozen'])


def freeze(x):
    """as the constructors of the subclasses do at their end"""
    f = getattr(x, '_make_immutable', None)
    if f is not None:
        f()


def make(b, how):
    if how == 'from_bytes':
        return BD.from_bytes(b)
    if how == 'from_bytearray':
        return BD.from_bytes(bytearray(b))
    if how == 'from_container':
        return BD.from_bytes(BD.from_bytes(b))
    if how == 'from_hex':
        return BD.from_hex(b.hex())
    if how == 'from_HEX':
        return BD.from_hex(b.hex().upper())
    x = BD()
    k = len(b) // 2
    for part in (b[:k], bytearray(b[k:])):
        x += part
    if how == 'frozen':
        freeze(x)
    return x


def as_kind(b, kind):
    if kind == 'bytes':
        return b
    if kind == 'bytearray':
        return bytearray(b)
    return make(b, kind)


OTHER = st.one_of(st.sampled_from(['bytes', 'bytearray']), HOW)
INDEX = st.one_of(st.none(), st.integers(-45, 45))


@st.composite
def views(draw):
    b = draw(B)
    return {'b': b, 'how': draw(HOW), 'i': draw(st.integers(-45, 45)),
            'sl': [draw(INDEX), draw(INDEX),
                   draw(st.one_of(st.none(), st.integers(-4, 4)))]}


def looks_like(x, b, what):
    ok(x.to_bytes() == b and type(x.to_bytes()) is bytes,
       '%s: to_bytes gave %r, expected %r' % (what, x.to_bytes(), b))
    eq(x.hex(), b.hex(), what + ': hex')
    ok(len(x) == len(b), what + ': length')
    ok(list(x) == list(b), what + ': iteration')
    ok(bytes(x) == b, what + ': bytes()')


@sub('P28', 'views', views(), 5000, rule='two or more bytes')
def check_views(c, info):
    """Reading a container is reading its bytes."""
    b = c['b']
    x = make(b, c['how'])
    info.label(c['how'])
    info.nt(len(b) > 1)
    looks_like(x, b, c['how'])
    eq('{:x}'.format(x), b.hex(), 'format x')
    eq('{:X}'.format(x), b.hex().upper(), 'format X')
    eq(format(x, 'x'), b.hex(), 'format() x')
    ok(isinstance(repr(x), str), 'repr')
    i = c['i']
    if -len(b) <= i < len(b):
        ok(x[i] == b[i], 'x[%d]' % i)
    else:
        refuses(lambda: x[i], 'x[%d] of %d bytes' % (i, len(b)))
    s = slice(*c['sl'])
    if s.step == 0:
        refuses(lambda: x[s], 'a slice of step 0')
    else:
        ok(bytes(x[s]) == b[s], 'x[%s]: got %r, expected %r'
           % (s, bytes(x[s]), b[s]))
    for v in set(b[:3]) | {0, 1, 0x7f, 0xff, c['i'] & 0xff}:
        ok((v in x) == (v in b), '%d in x' % v)
    ok(256 not in x and -1 not in x, 'membership of what is no byte')
    ok(bool(x) == bool(b), 'truth')
    ok(list(reversed(x)) == list(reversed(b)), 'reversed iteration')
    it = iter(x)
    ok([v for v, _ in zip(it, range(len(b)))] == list(b), 'one iterator')
    ok(list(zip(x, x)) == list(zip(b, b)), 'two iterators at once')
    looks_like(x, b, c['how'] + ' after reading')


@st.composite
def comparisons(draw):
    a = draw(B)
    how = draw(st.sampled_from(['same', 'same', 'flip', 'longer', 'shorter',
                                'prefix', 'other']))
    b = a
    if how == 'flip' and a:
        k = draw(st.integers(0, len(a) * 8 - 1))
        b = bytearray(a)
        b[k // 8] ^= 1 << k % 8
        b = bytes(b)
    elif how == 'longer':
        b = a + draw(st.sampled_from([b'\x00', b'\xff', a or b'\x01']))
    elif how == 'prefix':
        b = b'\x00' + a
    elif how == 'shorter':
        b = a[:-1]
    elif how == 'other':
        b = draw(B)
    return {'a': a, 'b': b, 'ka': draw(HOW), 'kb': draw(OTHER)}


@sub('P28', 'equality', comparisons(), 5000, rule='the bytes differ in one '
     'place or are equal', enum=lambda tier: [
         {'a': a, 'b': b, 'ka': 'from_bytes', 'kb': k}
         for a in (b'', b'\x00', b'\x00\x00', b'\x01') for b in
         (b'', b'\x00', b'\x00\x00', b'\x01') for k in
         ('bytes', 'bytearray', 'from_bytes', 'frozen')])
def check_equality(c, info):
    a, b = c['a'], c['b']
    same = a == b
    x, y = make(a, c['ka']), as_kind(b, c['kb'])
    info.label(c['ka'], c['kb'], 'equal' if same else 'unequal')
    info.nt(same or len(a) == len(b))
    for p, q, what in ((x, y, 'x, y'), (y, x, 'y, x')):
        r, s = p == q, p != q
        ok(r is same, '== of %s (%r, %r) gave %r' % (what, p, q, r))
        ok(s is (not same), '!= of %s (%r, %r) gave %r' % (what, p, q, s))
    ok(x == x and not x != x, 'a container differs from itself')
    looks_like(x, a, 'after comparing')


@sub('P28', 'types', st.fixed_dictionaries({'b': B, 'how': HOW}), 400,
     rule='every case')
def check_types(c, info):
    """Other types are refused."""
    info.nt()
    x = make(c['b'], c['how'])
    others = ['', c['b'].hex(), 0, len(c['b']), None, list(c['b']),
              tuple(c['b']), {}, 1.5]
    for o in others:
        for f, what in ((lambda: x == o, '=='), (lambda: x != o, '!=')):
            try:
                r = f()
            except TypeError:
                continue
            raise Violation('%s with %r gave %r' % (what, o, r),
                            'comparison with another type')
        y = make(c['b'], 'added')

        def add():
            z = y
            z += o
        try:
            add()
        except TypeError:
            pass
        else:
            raise Violation('+= %r was allowed' % (o,),
                            'concatenation with another type')
        looks_like(y, c['b'], 'after a refused +=')
    for h in ('0', 'zz', 'abc', c['b'].hex() + 'g'):
        refuses(lambda: BD.from_hex(h), 'from_hex(%r)' % h)
    for v in (None, 5, 'ab', [1, 2]):
        refuses(lambda: BD.from_bytes(v), 'from_bytes(%r)' % (v,))
    looks_like(x, c['b'], 'after refusals')


@st.composite
def programs(draw):
    n = draw(st.integers(1, 10))
    ops = []
    for _ in range(n):
        op = draw(st.sampled_from(['add', 'add', 'add', 'self', 'find',
                                   'alias', 'freeze', 'eq', 'pair']))
        d = {'op': op}
        if op in ('add', 'find', 'eq', 'pair'):
            d['b'], d['k'] = draw(B), draw(OTHER)
        ops.append(d)
    return {'b': draw(B), 'how': draw(HOW), 'ops': ops}


@sub('P28', 'programs', programs(), 4000,
     rule='two additions before the container is frozen')
def check_programs(c, info):
    """Any sequence of operations, against a bytearray."""
    x = make(c['b'], c['how'])
    model = bytearray(c['b'])
    frozen = c['how'] == 'frozen'
    adds = 0
    args = []
    for d in c['ops']:
        op = d['op']
        info.label(op)
        if op == 'freeze':
            if not frozen:
                freeze(x)
            frozen = True
        elif op in ('add', 'self'):
            y = x if op == 'self' else as_kind(d['b'], d['k'])
            if op == 'add':
                args.append((y, d['b']))
            if frozen:
                def f():
                    z = x
                    z += y
                refuses(f, '+= on a frozen container')
            else:
                z = x
                x += y
                ok(x is z, '+= made another container')
                model.extend(bytes(model) if op == 'self' else d['b'])
                adds += 1
        elif op == 'alias':
            # what was taken out does not change with the container
            v, h, s = x.to_bytes(), x.hex(), x[:]
            want = bytes(model)
            if not frozen:
                x += b'\x01'
                model.extend(b'\x01')
            ok(v == want and h == want.hex() and bytes(s) == want,
               'a value taken from a container changed')
        elif op == 'find':
            y = as_kind(d['b'], d['k'])
            eq(x.find(y), bytes(model).find(d['b']), 'find')
        elif op == 'eq':
            y = as_kind(d['b'], d['k'])
            ok((x == y) is (bytes(model) == d['b']), '== in a program')
        else:
            y = as_kind(d['b'], d['k'])
            z = BD()
            z += x
            z += y
            looks_like(z, bytes(model) + d['b'], 'the sum of two')
        looks_like(x, bytes(model), 'after ' + op)
    for y, b in args:
        ok(bytes(y) == b, 'an added operand changed')
        if isinstance(y, bytearray):
            y.extend(b'\x00')
    looks_like(x, bytes(model), 'after the operands changed')
    info.nt(adds > 1)


@st.composite
def triples(draw):
    return {'parts': draw(st.lists(B, min_size=3, max_size=3)),
            'kinds': draw(st.lists(OTHER, min_size=3, max_size=3))}


@sub('P28', 'associative', triples(), 1500, rule='no part is empty')
def check_associative(c, info):
    a, b, d = c['parts']
    ka, kb, kd = c['kinds']
    info.nt(a and b and d)
    left = BD()
    left += as_kind(a, ka)
    left += as_kind(b, kb)
    left += as_kind(d, kd)
    right = BD()
    right += as_kind(b, kb)
    right += as_kind(d, kd)
    whole = BD()
    whole += as_kind(a, ka)
    whole += right
    ok(left == whole and not left != whole, 'concatenation by two ways')
    looks_like(left, a + b + d, 'a sum')
    looks_like(whole, a + b + d, 'a sum of a sum')
    looks_like(right, b + d, 'a part of a sum')


@st.composite
def needles(draw):
    alphabet = st.sampled_from([0, 1, 255]) if draw(st.booleans()) \
        else st.integers(0, 255)
    b = bytes(draw(st.lists(alphabet, max_size=30)))
    if draw(st.booleans()) and b:
        i = draw(st.integers(0, len(b)))
        j = draw(st.integers(i, len(b)))
        n = b[i:j]
    else:
        n = bytes(draw(st.lists(alphabet, max_size=4)))
    return {'b': b, 'n': n, 'how': draw(HOW), 'k': draw(OTHER)}


@sub('P28', 'find', needles(), 4000, rule='found past the start')
def check_find(c, info):
    b, n = c['b'], c['n']
    want = -1
    for i in range(len(b) - len(n) + 1):
        if b[i:i + len(n)] == n:
            want = i
            break
    x = make(b, c['how'])
    got = x.find(as_kind(n, c['k']))
    eq(got, want, 'find of %s in %s' % (n.hex(), b.hex()))
    info.nt(want > 0)
    info.label('found' if want >= 0 else 'absent')


@sub('P28', 'objects', st.fixed_dictionaries({
    't': gen.tx(max_in=2, max_out=2), 'p': st.integers(0, 300)}), 600,
    rule='a transaction')
def check_objects(c, info):
    """Transactions are containers of their bytes."""
    lib.select('bitcoin_main')
    info.nt()
    x = lib.tx(c['t'])
    nodes = [x] + list(x.tx_ins) + list(x.tx_outs) + list(
        x.tx_witnesses or []) + [x.tx_ins[0].outpoint]
    for y in nodes:
        b = y.to_bytes()
        looks_like(y, b, type(y).__name__)
        ok(y == b and b == y and not y != b, 'a transaction and its bytes')
        ok(y != b + b'\x00' and not y == b[:-1], 'near bytes')
        p = c['p'] % (len(b) + 1)
        ok(bytes(y[p:]) == b[p:] and bytes(y[:p]) == b[:p], 'slices')
        eq(y.find(b[p:p + 5]), b.find(b[p:p + 5]), 'find')
        z = BD()
        z += y
        z += b
        looks_like(z, b + b, 'a transaction twice')
        eq('{:x}'.format(y), b.hex(), 'format x')
        ok(make(b, 'from_bytes') == y, 'a container of the same bytes')
        w = type(y).from_hex(b.hex()) if not (
            isinstance(y, lib.btc.Tx) or type(y) is lib.btc.InputWitness) \
            else y
        ok(w == y, 'from_hex of the hex')
