"""Malformed scripts are refused."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import refuses, sub
from vf.ref import nets, script as rs
from riemann.script import serialization as ser

NET = gen.net(nets.NAMES)
HEX = '0123456789abcdefABCDEF'

UNKNOWN = st.one_of(
    st.sampled_from(['OP_', 'OP_17', 'OP_-1', 'OP_01', 'OP_DUPE', 'OP_DUP2',
                     'DUP', 'HASH160', 'op_dup', 'Op_Dup', 'OP_CHECKSIG,',
                     'OP_PUSHDATA4', 'OP_CODESEPARATOR', 'OP-DUP', 'OP_DUP;',
                     'OP_EVAL', 'xOP_DUP', '"OP_DUP"', 'OP_CHECKSIGADD']),
    st.sampled_from(sorted(rs.OPS)).map(lambda w: w.lower()),
    st.sampled_from(sorted(rs.OPS)).map(lambda w: w[3:]).filter(
        lambda w: not (len(w) % 2 == 0 and all(c in HEX for c in w))),
    st.sampled_from(sorted(rs.OPS)).map(lambda w: w + '_'),
    st.text(alphabet='GHIJKLMNOPQRSTUVWXYZghijklmnopqrstuvwxyz_-+.,/:',
            min_size=1, max_size=8).filter(lambda w: w not in rs.OPS))
ODD = st.one_of(gen.PUSH.map(lambda b: b.hex()[:-1]),
                gen.PUSH.map(lambda b: b.hex() + 'a'))


@st.composite
def nonhex(draw):
    h = draw(gen.sized(st.integers(1, 80))).hex()
    i = draw(st.integers(0, len(h) - 1))
    bad = draw(st.sampled_from(list('gGxXzZ_-+.,;:"\'\\') + [
        'é', '٣', '０', 'ａ', '\x00']))
    return h[:i] + bad + h[i + 1:]


PREFIXED = gen.sized(st.integers(1, 40)).map(lambda b: '0x' + b.hex())
LONG = gen.sized(st.sampled_from([1001, 1002, 1023, 1024, 1255, 1256, 1500,
                                  4096, 65535, 65536, 65537])).map(
                                      lambda b: b.hex())


@st.composite
def bad_text(draw):
    net = draw(NET)
    kind = draw(st.sampled_from(['word', 'odd', 'nonhex', 'prefixed',
                                 'long']))
    bad = draw({'word': UNKNOWN, 'odd': ODD, 'nonhex': nonhex(),
                'prefixed': PREFIXED, 'long': LONG}[kind])
    before = draw(gen.tokens(nets.is_decred(net), 3))
    after = draw(gen.tokens(nets.is_decred(net), 3))
    return {'net': net, 'kind': kind, 'before': gen.text(before),
            'bad': bad, 'after': gen.text(after)}


@sub('P15', 'text', bad_text(), 4000,
     rule='there are good tokens around the bad one')
def check_text(c, info):
    lib.select(c['net'])
    text = ' '.join([c['before'], c['bad'], c['after']])
    info.label(c['kind'])
    info.nt(bool(c['before'] or c['after']))
    refuses(lambda: ser.serialize(text), 'compiling ' + c['kind'])
    refuses(lambda: ser.hex_serialize(text), 'compiling to hex ' + c['kind'])


@sub('P15', 'foreign', st.fixed_dictionaries({
    'net': st.sampled_from([n for n in nets.NAMES if n not in nets.DECRED]),
    'word': st.just('OP_BLAKE256')}), 60, rule='every case')
def check_foreign(c, info):
    """Words of Decred only"""
    info.nt()
    lib.select('decred_main')
    ser.serialize(c['word'])
    lib.select(c['net'])
    refuses(lambda: ser.serialize(c['word']), 'a word of another network')


def good(draw, net):
    toks = draw(gen.tokens(nets.is_decred(net), 3))
    return rs.assemble(toks, nets.is_decred(net))


@st.composite
def bad_bytes(draw):
    net = draw(NET)
    kind = draw(st.sampled_from(['short', 'short1', 'short2', 'opcode',
                                 'codesep', 'p4', 'nolen']))
    before, after = good(draw, net), good(draw, net)
    missing = draw(st.sampled_from([1, 1, 2, 20]))
    if kind == 'short':
        n = draw(st.integers(1, 75))
        bad, after = bytes([n]) + draw(gen.blob(max(0, n - missing))), b''
    elif kind == 'short1':
        n = draw(st.integers(1, 255))
        bad = b'\x4c' + bytes([n]) + draw(gen.blob(max(0, n - missing)))
        after = b''
    elif kind == 'short2':
        n = draw(st.sampled_from([1, 75, 255, 256, 257, 1000, 65535]))
        bad = b'\x4d' + n.to_bytes(2, 'little') \
            + draw(gen.blob(max(0, n - missing)))
        after = b''
    elif kind == 'nolen':
        bad = draw(st.sampled_from([b'\x4c', b'\x4d', b'\x4d\x00',
                                    b'\x4d\x05', b'\x4e', b'\x4e\x01']))
        after = b''
    elif kind == 'opcode':
        bad = bytes([draw(st.integers(0xba, 0xfe).filter(
            lambda o: not (nets.is_decred(net) and o == 192)))])
    elif kind == 'codesep':
        bad = b'\xab'
    else:
        d = draw(gen.sized(st.integers(0, 20)))
        bad = b'\x4e' + len(d).to_bytes(4, 'little') + d
    return {'net': net, 'kind': kind, 'b': before + bad + after,
            'around': len(before) + len(after)}


@sub('P15', 'bytes', bad_bytes(), 5000,
     rule='there are good operations around the bad one',
     enum=lambda tier: [
         {'net': n, 'kind': 'opcode', 'b': bytes([o]), 'around': 0}
         for n in nets.NAMES for o in range(0xba, 0xff)
         if not (nets.is_decred(n) and o == 192)] + [
         {'net': 'bitcoin_main', 'kind': 'short', 'around': 0,
          'b': bytes([k]) + bytes(k - 1)} for k in range(1, 76)])
def check_bytes(c, info):
    lib.select(c['net'])
    info.label(c['kind'])
    info.nt(c['around'] > 0)
    refuses(lambda: ser.deserialize(c['b']), 'decompiling ' + c['kind'])
    refuses(lambda: ser.deserialize(bytearray(c['b'])),
            'decompiling (bytearray) ' + c['kind'])
    refuses(lambda: ser.hex_deserialize(c['b'].hex()),
            'decompiling hex ' + c['kind'])
