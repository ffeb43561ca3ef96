"""Scripts: text to bytes and back."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import Violation, eq, ok, short, sub
from vf.ref import nets, script as rs
from riemann.script import serialization as ser

assert lib
NET = st.one_of(st.sampled_from(['bitcoin_main', 'decred_main']),
                st.sampled_from(nets.NAMES))
SPACE = st.sampled_from([' ', ' ', ' ', '  ', '\n', '\t', ' \r\n '])


@st.composite
def scripts(draw):
    net = draw(NET)
    toks = draw(gen.tokens(nets.is_decred(net), 10))
    return {'net': net, 'toks': toks, 'sep': draw(SPACE),
            'upper': draw(st.booleans()), 'pad': draw(st.booleans())}


def meaning(text, net):
    """[(opcode, data)] of a script text; None for unknown words"""
    ops = dict(rs.ops_for(nets.is_decred(net)))
    out = []
    for w in text.split():
        if w in ops:
            out.append((ops[w], b'' if ops[w] == 0 else None))
        elif w == 'OP_INVALIDOPCODE':
            out.append((0xff, None))
        else:
            try:
                out.append((1, bytes.fromhex(w)))
            except ValueError:
                return None
    return out


def plain(items):
    """pushes without the form of their prefix"""
    return [('push', d) if d is not None else (op, None) for op, d in items]


PAIRED = {n: sorted(rs.ops_for(nets.is_decred(n))) + [
    b'\x00', b'\x01', b'\x51', b'\xff', bytes(4), b'\x02' * 33, b'\x09' * 76]
    for n in ('bitcoin_main', 'decred_main')}


@sub('P14', 'compile', scripts(), 3000,
     rule='at least one push over 75 bytes, or three tokens',
     enum=lambda tier: [
         {'net': n, 'toks': [op], 'sep': ' ', 'upper': False, 'pad': False}
         for n in ('bitcoin_main', 'decred_main', 'zcash_sapling_main')
         for op in sorted(rs.ops_for(nets.is_decred(n)))] + [
         {'net': 'bitcoin_main', 'toks': [gen.stretch(k, k)], 'sep': ' ',
          'upper': False, 'pad': False} for k in range(1, 1001)] + [
         {'net': n, 'toks': [a, b], 'sep': ' ', 'upper': False, 'pad': False}
         for n in ('bitcoin_main', 'decred_main')
         for a in PAIRED[n] for b in PAIRED[n]])
def check_compile(c, info):
    lib.select(c['net'])
    toks = c['toks']
    info.nt(len(toks) > 2 or any(
        len(t) > 75 for t in toks if not isinstance(t, str)))
    words = [t if isinstance(t, str) else
             (t.hex().upper() if c['upper'] else t.hex()) for t in toks]
    text = c['sep'].join(words)
    if c['pad']:
        text = ' ' + text + '\n'
    want = rs.assemble(toks, nets.is_decred(c['net']))
    b = ser.serialize(text)
    eq(b, want, 'compiled %r' % short(text, 100))
    eq(ser.hex_serialize(text), want.hex(), 'compiled to hex')
    back = ser.deserialize(want)
    ok(isinstance(back, str), 'decompiled to %r' % (back,))
    eq(ser.hex_deserialize(want.hex()), back, 'decompiled from hex')
    eq(ser.serialize(back), want, 'recompiled')
    got = meaning(back, c['net'])
    ok(got is not None, 'decompiled to unknown words: ' + short(back))
    eq(plain(got), plain(rs.parse(want)), 'decompiled meaning')
    # the words of the text are what was written, up to synonyms
    eq([w for w in back.split()],
       [{'OP_NOP2': 'OP_CHECKLOCKTIMEVERIFY',
         'OP_NOP3': 'OP_CHECKSEQUENCEVERIFY'}.get(w, w)
        if isinstance(t, str) else t.hex() for t, w in zip(toks, words)],
       'decompiled words')


@st.composite
def raw_scripts(draw):
    net = draw(NET)
    parts = []
    for _ in range(draw(st.integers(0, 6))):
        k = draw(st.sampled_from(['op', 'op', 'push', 'push', 'p1', 'p2',
                                  'p4', 'junk']))
        if k == 'op':
            parts.append(bytes([draw(st.integers(0x4f, 0xb9))]))
        elif k == 'junk':
            parts.append(draw(st.binary(max_size=5)))
        else:
            d = draw(st.one_of(
                st.binary(max_size=4), gen.PUSH, gen.sized(
                    st.sampled_from([0, 1, 75, 76, 255]))))
            if k == 'push':
                parts.append(rs.push(d))
            elif k == 'p1':
                parts.append(b'\x4c' + bytes([len(d) % 256]) + d)
            elif k == 'p2':
                parts.append(b'\x4d' + len(d).to_bytes(2, 'little') + d)
            else:
                parts.append(b'\x4e' + len(d).to_bytes(4, 'little') + d)
    b = b''.join(parts)
    if b and draw(st.integers(0, 4)) == 0:
        b = b[:draw(st.integers(0, len(b) - 1))]
    return {'net': net, 'b': b, 'arr': draw(st.booleans())}


@sub('P14', 'decompile', raw_scripts(), 5000,
     rule='the script was decompiled and has two operations, or a push in a '
     'longer form')
def check_decompile(c, info):
    lib.select(c['net'])
    b = c['b']
    try:
        text = ser.deserialize(bytearray(b) if c['arr'] else b)
    except Exception:
        info.label('refused')
        return
    items = rs.parse(b)
    if items is None:
        raise Violation('truncated script decompiled to ' + short(text))
    long = any(d is not None and rs.push(d)[0] != op for op, d in items)
    info.label('decompiled', *(['longer form'] if long else []))
    info.nt(long or len(items) > 1)
    got = meaning(text, c['net'])
    ok(got is not None, 'decompiled to unknown words: ' + short(text))
    eq(plain(got), plain(items), 'decompiled meaning')
    if all(len(d or b'') <= 1000 for _, d in items) \
            and all(op < 0xff for op, _ in items):
        again = ser.serialize(text)
        eq(plain(rs.parse(bytes(again))), plain(items), 'recompiled meaning')
        if not long:
            eq(again, b, 'recompiled bytes')


def one_push(tier):
    for k in range(0, 76):
        yield {'net': 'bitcoin_main', 'b': bytes([k]) + gen.stretch(k, k),
               'arr': False}
    for k in range(256):
        yield {'net': 'bitcoin_main', 'arr': False,
               'b': b'\x4c' + bytes([k]) + gen.stretch(k, k)}
    for k in list(range(1001)) + [1001, 1023, 1024, 4096, 9999, 10000, 65535]:
        yield {'net': 'bitcoin_main', 'arr': False,
               'b': b'\x4d' + k.to_bytes(2, 'little') + gen.stretch(k, k)}


@sub('P14', 'accepts', None, 0, rule='every case',
     enum=lambda tier: list(one_push(tier)) + [
         {'net': n, 'b': bytes([op]), 'arr': False}
         for n in nets.NAMES for op in sorted(set(
             rs.ops_for(nets.is_decred(n)).values()))])
def check_accepts(c, info):
    """Whole scripts of supported operations are decompiled."""
    lib.select(c['net'])
    info.nt()
    text = ser.deserialize(c['b'])
    got = meaning(text, c['net'])
    ok(got is not None, 'decompiled to unknown words: ' + short(text))
    eq(plain(got), plain(rs.parse(c['b'])), 'decompiled meaning')


TEMPLATES = st.fixed_dictionaries({
    'net': NET, 'a': gen.PUSH,
    'b': gen.PUSH, 'h': gen.HASH20})


@sub('P14', 'templates', TEMPLATES, 200, rule='every case')
def check_templates(c, info):
    """The script templates the package ships."""
    from riemann.script import examples as ex
    lib.select(c['net'])
    info.nt()
    a, b, h = c['a'], c['b'], c['h']
    eq(ser.serialize(ex.msig_two_two.format(pk0=a.hex(), pk1=b.hex())),
       b'\x52' + rs.push(a) + rs.push(b) + b'\x52\xae', 'two of two')
    eq(ser.serialize(ex.msig_two_two_stack_script.format(
        sig0=a.hex(), sig1=b.hex())), b'\x00' + rs.push(a) + rs.push(b),
        'two of two script sig')
    eq(ser.serialize(ex.p2pkh_script_sig.format(sig=a.hex(), pk=b.hex())),
       rs.push(a) + rs.push(b), 'P2PKH script sig')
    eq(ser.serialize(ex.p2pkh_script_pubkey.format(pk=h.hex())),
       nets.script('p2pkh', h), 'P2PKH')
    eq(ser.serialize(ex.p2sh_script_pubkey.format(sh=h.hex())),
       nets.script('p2sh', h), 'P2SH')
    eq(ser.serialize(ex.p2w.format(h.hex())), nets.script('p2wpkh', h),
       'P2WPKH')
    if not nets.is_decred(c['net']):
        eq(ser.serialize(ex.htlc_redeem_script.format(
            secret_hash=a.hex(), pkh0=h.hex(), timeout='40', pkh1=h.hex())),
           b'\x63\xa8' + rs.push(a) + b'\x88\x76\xa9' + rs.push(h)
           + b'\x67\x01\x40\xb1\x75\x76\xa9' + rs.push(h)
           + b'\x68\x88\xac', 'HTLC')
