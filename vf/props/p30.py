"""A call's result depends on its arguments and the selected network alone.

A case is a history of calls all over the public API, drawn from a small pool
of seeds so that calls meet equal and nearly equal arguments again.  The
oracle is the same call, alone, in a fresh process: nothing called before it,
no object kept.  In the history, objects are kept and used again, results that
can be modified are spoilt after they were noted, and the arguments are
compared with what they were."""
import copy
import json
import os
import random
import signal
import sys
import threading

from hypothesis import strategies as st

from vf import gen, lib, onearg
from vf.core import Hang, Violation, sub
from vf.ref import nets, script as rs, wire
from vf.ref.wire import le
from riemann import blake256 as b256
from riemann import simple, utils
from riemann.encoding import addresses as ad
from riemann.encoding import base58, bech32, cashaddr
from riemann.networks import standard
from riemann.script import serialization as ser
from riemann.tx import shared
from riemann.tx import tx_builder as tb

CPU = 30

# -------------------------------------------------------- results as data


# what the library's objects show of themselves
SHOWN = ('number tx_id tx_id_le wtx_id wtx_id_le hsigs primary_inputs value '
         'version flag tx_ins tx_outs tx_witnesses lock_time expiry '
         'expiry_height header group_id value_balance tx_shielded_spends '
         'tx_shielded_outputs tx_joinsplits joinsplit_pubkey joinsplit_sig '
         'binding_sig outpoint index tree sequence stack_script '
         'redeem_script script_sig output_script item stack height '
         'script_len script_version vpub_old vpub_new anchor nullifiers '
         'commitments zkproof').split()


def canon(x, depth=0):
    """A result as plain text."""
    if depth > 8:
        return '...'
    if x is None or isinstance(x, (bool, int, str)):
        return '%s:%r' % (type(x).__name__, x)
    if isinstance(x, (bytes, bytearray)):
        return '%s:%s' % (type(x).__name__, bytes(x).hex())
    if isinstance(x, (list, tuple)):
        return '[%s]' % ', '.join(canon(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%s=%s' % (k, canon(x[k], depth + 1))
                                  for k in sorted(x))
    if isinstance(x, shared.ByteData):
        shown = ['%s=%s' % (k, canon(getattr(x, k), depth + 1))
                 for k in SHOWN if hasattr(x, k)] if depth < 4 else []
        return '%s(%s; %s)' % (type(x).__name__, x.to_bytes().hex(),
                               ', '.join(shown))
    return type(x).__name__


def spoil(x):
    """What a caller may do to a result of its own."""
    if isinstance(x, bytearray):
        x.extend(b'spoilt')
        x[:1] = b'\xee\xee'
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append('spoilt')
    elif isinstance(x, dict):
        x['spoilt'] = 1
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)


class Args(object):
    """Draws the arguments of one call, and keeps what they were."""

    def __init__(self, net, call, held):
        self.net = net
        self.arr = call['arr']
        self.main = random.Random(call['a'])
        self.side = random.Random(call['b'] + 10 ** 6)
        self.tweak = call['tweak']
        self.given = []
        self.held = held
        self.call = call

    def _bytes(self, r, n):
        return r.getrandbits(8 * n).to_bytes(n, 'little') if n else b''

    def raw(self, n, side=False):
        """n bytes; the tweak changes one of them"""
        b = bytearray(self._bytes(self.side if side else self.main, n))
        if n and not side:
            if self.tweak == 1:
                b[-1] ^= 1
            elif self.tweak == 2:
                b[0] ^= 0x80
            elif self.tweak == 3:
                b[n // 2] ^= 0xff
        return bytes(b)

    def pick(self, values, side=False):
        return (self.side if side else self.main).choice(list(values))

    def give(self, x):
        """an argument, perhaps in a form that can be modified"""
        if isinstance(x, bytes) and self.arr:
            x = bytearray(x)
        if isinstance(x, (bytearray, list, dict)):
            self.given.append((x, canon(x)))
        return x

    def b(self, n, side=False):
        return self.give(self.raw(n, side))

    def num(self, size, side=False):
        return int.from_bytes(self.raw(size, side), 'little')

    def keep(self, name, make):
        """an object; in a history, the one made before"""
        if self.held is None:
            return make()
        key = (name, self.net, self.call['a'], self.tweak)
        if key not in self.held:
            self.held[key] = make()
        return self.held[key]

    def modified(self):
        return [was for x, was in self.given if canon(x) != was]


# ------------------------------------------------------------------- calls

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def integers(a):
    n = a.num(a.pick([1, 2, 4, 8]))
    b = a.b(a.pick([1, 2, 4, 8, 33]))
    return [utils.i2le(n), utils.i2le_padded(n, 9), utils.i2le_script(n),
            utils.i2be(n), utils.i2be_padded(n, 9), utils.le2i(b),
            utils.le2i(b, True), utils.be2i(b), utils.be2i(b, signed=True),
            utils.change_endianness(b)]


@op
def hashing(a):
    b = a.b(a.pick([0, 1, 20, 33, 55, 56, 64, 111, 128, 200]))
    f = a.pick(['rmd160', 'sha256', 'hash160', 'hash256', 'blake256'], True)
    return getattr(utils, f)(b)


@op
def blake2(a):
    b = a.b(a.pick([0, 1, 64, 128, 200]))
    kw = {}
    if a.pick([0, 1], True):
        kw['digest_size'] = a.pick([16, 32], True)
    person = a.pick([b'', b'ZcashTx', b'ZcashComp'], True)
    if person:
        kw['person'] = person[:8]
    return [utils.blake2b(b, **kw), utils.blake2s(data=b, **kw)]


@op
def blake(a):
    bits = a.pick([224, 256, 384, 512], True)
    h = b256.BLAKE(bits)
    if a.pick([0, 1], True):
        h.addsalt(a.b(16 if bits < 300 else 32, True))
    b = a.b(a.pick([0, 1, 55, 64, 111, 128, 130]))
    k = len(b) // 2
    h.update(b[:k])
    return [h.final(b[k:]), h.hexdigest()]


def tokens(a):
    words = gen.OPS[nets.is_decred(a.net)]
    out = []
    for _ in range(a.pick([0, 1, 2, 5])):
        out.append(a.raw(a.pick([1, 20, 33, 75, 76, 255, 256]))
                   if a.pick([0, 1]) else a.pick(words))
    return out


@op
def compile_script(a):
    t = gen.text(tokens(a))
    return [ser.serialize(t), ser.hex_serialize(t)]


@op
def decompile_script(a):
    b = rs.assemble(tokens(a), nets.is_decred(a.net))
    return [ser.deserialize(a.give(b)), ser.hex_deserialize(b.hex())]


@op
def bad_script(a):
    bad = a.pick(['OP_NOPE', 'abc', 'zz', 'OP_CODESEPARATOR', '00' * 1001],
                 True)
    return ser.serialize(gen.text(tokens(a)) + ' ' + bad)


@op
def bad_bytes(a):
    b = rs.assemble(tokens(a), nets.is_decred(a.net))
    return ser.deserialize(a.give(b + a.pick(
        [b'\x05ab', b'\x4c\x09a', b'\x4d\x01', b'\xff', b'\xab'], True)))


def address(a):
    kind, cash = a.pick(nets.KINDS[a.net])
    h = a.raw(nets.SIZE[kind])
    return nets.address(a.net, kind, h, cash), nets.script(kind, h)


@op
def make_address(a):
    key = a.b(33)
    text = a.pick(['OP_1', 'OP_DUP', 'OP_NOP']) + ' ' + a.raw(20).hex()
    f = a.pick(['pkh', 'sh', 'p2pkh', 'p2sh', 'lpkh', 'lsh', 'wpkh', 'wsh'],
               True)
    return {'pkh': lambda: ad.make_pkh_address(key),
            'sh': lambda: ad.make_sh_address(text),
            'p2pkh': lambda: ad.make_p2pkh_address(key),
            'p2sh': lambda: ad.make_p2sh_address(text),
            'lpkh': lambda: ad.make_legacy_p2pkh_address(key),
            'lsh': lambda: ad.make_legacy_p2sh_address(text),
            'wpkh': lambda: ad.make_p2wpkh_address(key),
            'wsh': lambda: ad.make_p2wsh_address(text)}[f]()


@op
def read_address(a):
    s, _ = address(a)
    return a.pick([ad.parse, ad.parse_hash, ad.to_output_script], True)(s)


@op
def write_address(a):
    _, spk = address(a)
    return [ad.from_output_script(a.give(spk)),
            ad.from_output_script(a.give(spk), cashaddr=False)]


@op
def bad_address(a):
    s, _ = address(a)
    k = a.pick(range(len(s)), True)
    c = a.pick('23456789qpzryx', True)
    s = s[:k] + c + s[k + 1:]
    return a.pick([ad.parse, ad.parse_hash, ad.to_output_script], True)(s)


@op
def foreign_address(a):
    other = a.pick(nets.NAMES, True)
    kind, cash = a.pick(nets.KINDS[other])
    s = nets.address(other, kind, a.raw(nets.SIZE[kind]), cash)
    return a.pick([ad.parse, ad.parse_hash, ad.to_output_script], True)(s)


@op
def bad_output_script(a):
    return ad.from_output_script(a.b(a.pick([0, 1, 22, 23, 25, 34])))


@op
def base58_codec(a):
    b = a.raw(a.pick([0, 1, 21, 22, 26]))
    s = base58.encode(b)
    return [base58.encode(a.give(b)), base58.decode(s),
            base58.encode(b, checksum=False),
            base58.decode(base58.encode(b, False), checksum=False),
            base58.has_checksum(s)]


@op
def bech32_codec(a):
    v = a.pick([0, 1, 16])
    prog = a.raw(a.pick([20, 32]))
    hrp = a.pick(['bc', 'tb', 'ltc'], True)
    s = bech32.segwit_encode(hrp, v, a.give(list(prog)))
    t = bech32.bech32_decode(s)
    return [s, bech32.segwit_decode(hrp, s),
            bech32.segwit_decode('x', s), list(t),
            bech32.bech32_encode(hrp, a.give([c % 32 for c in prog[:9]]))]


@op
def bech32_network(a):
    b = b'\x00' + bytes([20]) + a.raw(20)
    return [bech32.encode(a.give(b)), bech32.decode(bech32.encode(b))]


@op
def cashaddr_network(a):
    b = a.pick([b'\x00', b'\x08']) + a.raw(20)
    return [cashaddr.encode(a.give(b)), cashaddr.decode(cashaddr.encode(b))]


@op
def varint(a):
    n = a.num(a.pick([1, 2, 4, 8]))
    x = a.keep('varint', lambda: shared.VarInt(n))
    y = shared.VarInt.from_bytes(a.give(x.to_bytes() + a.raw(3)))
    return [x, x.copy(), y, y.number, len(y)]


@op
def long_varint(a):
    n = a.num(1)
    return shared.VarInt.from_bytes(
        a.give(b'\xfd' + le(n, 2) + a.raw(2)))


@op
def bytedata(a):
    x = shared.ByteData()
    b = a.b(a.pick([0, 1, 7, 40]))
    x += b
    x += a.b(a.pick([0, 1, 3], True), True)
    y = shared.ByteData()
    y += x
    return [x, y == x, y != b, len(y), y.find(b[1:3]), y[1:5], list(y)[:3],
            repr(y)]


# Bitcoin transactions ----------------------------------------------------

def plain(a, flag):
    ins = [{'txid': a.raw(32), 'idx': a.num(4), 'stack': a.raw(a.pick(
        [0, 0, 1, 30])), 'redeem': b'', 'seq': a.num(4)}
        for _ in range(a.pick([1, 2, 3, 5]))]
    outs = [{'val': a.num(6), 'spk': a.pick([
        lambda: nets.script('p2pkh', a.raw(20)),
        lambda: nets.script('p2sh', a.raw(20)),
        lambda: b'\x6a\x04' + a.raw(4)])()}
        for _ in range(a.pick([1, 2, 3, 5]))]
    wits = [[a.raw(a.pick([0, 1, 33, 72])) for _ in range(a.pick(
        [0, 1, 2]))] for _ in ins] if flag else None
    return {'ver': 1 + a.num(1) % 2, 'flag': flag, 'ins': ins, 'outs': outs,
            'wits': wits, 'lock': a.num(4)}


def btc(a):
    flag = bool(a.pick([0, 1]))
    return a.keep('tx', lambda: lib.tx(plain(a, flag)))


def ids(x):
    return [x.tx_id, x.tx_id_le, getattr(x, 'wtx_id', None),
            getattr(x, 'wtx_id_le', None)]


@op
def tx_ids(a):
    x = btc(a)
    return [x, x.hex(), ids(x), x.no_witness(), x.is_witness(), len(x)]


@op
def tx_parse(a):
    flag = bool(a.pick([0, 1]))
    raw = wire.tx(plain(a, flag))
    x = lib.btc.Tx.from_bytes(a.give(raw))
    y = lib.btc.Tx.from_hex(raw.hex())
    return [lib.un_tx(x), y, ids(x), [i.is_p2sh() for i in x.tx_ins]]


@op
def tx_parse_bad(a):
    flag = bool(a.pick([0, 1]))
    raw = wire.tx(plain(a, flag))
    return lib.btc.Tx.from_bytes(a.give(raw[:a.pick(
        range(len(raw)), True)]))


@op
def tx_digest(a):
    x = btc(a)
    k = a.pick(range(3), True)
    code = a.give(wire.pref(a.pick([
        lambda: nets.script('p2pkh', a.raw(20, True)),
        lambda: a.raw(60, True), lambda: b''], True)()))
    value = a.b(8, True)
    f = a.pick([x.sighash_all, x.sighash_single], True)
    return f(index=k, script=code, prevout_value=value,
             anyone_can_pay=bool(a.pick([0, 1], True)))


@op
def tx_copy(a):
    x = btc(a)
    kw = {}
    what = a.pick(['version', 'lock_time', 'tx_ins', 'tx_outs',
                   'tx_witnesses', 'none'], True)
    if what in ('version', 'lock_time'):
        kw[what] = a.b(4, True)
    elif what != 'none' and getattr(x, what):
        parts = list(getattr(x, what))
        if what == 'tx_outs':
            parts.append(lib.txout({'val': a.num(6, True),
                                    'spk': a.raw(22, True)}))
        kw[what] = a.give(parts)
    y = x.copy(**kw)
    return [y, ids(y), x, ids(x)]


@op
def tx_parts(a):
    x = btc(a)
    i, o = x.tx_ins[0], x.tx_outs[-1]
    return [i, i.outpoint, o, i.copy(sequence=a.b(4, True)),
            o.copy(value=a.b(8, True)), i.outpoint.copy(index=a.b(4, True)),
            lib.btc.Outpoint.null(), i, o]


@op
def tx_fee(a):
    x = btc(a)
    return x.calculate_fee(a.give([a.num(6, True) for _ in range(3)]))


@op
def tx_standard(a):
    x = btc(a)
    return [standard.check_is_standard(x), standard.check_is_standard_tx(x)]


@op
def tx_refused(a):
    t = plain(a, False)
    what = a.pick(['ver', 'lock', 'ins', 'outs'], True)
    kw = dict(version=le(t['ver'], 4), flag=None,
              tx_ins=a.give([lib.txin(i) for i in t['ins']]),
              tx_outs=a.give([lib.txout(o) for o in t['outs']]),
              tx_witnesses=None, lock_time=le(t['lock'], 4))
    if what == 'ver':
        kw['version'] = b'\x01'
    elif what == 'lock':
        kw['lock_time'] = 7
    elif what == 'ins':
        kw['tx_ins'] = a.give([kw['tx_ins'][0], b'no input'])
    else:
        kw['tx_outs'] = a.give([kw['tx_outs'][0], None])
    return lib.btc.Tx(**kw)


# builders ----------------------------------------------------------------

@op
def outputs(a):
    key, val = a.b(33), a.num(6)
    text = 'OP_DUP ' + a.raw(20).hex()
    f = a.pick(['pkh', 'sh', 'ret', 'addr', 'wpkh', 'wsh'], True)
    return {'pkh': lambda: tb.make_p2pkh_output(val, key),
            'sh': lambda: tb.make_p2sh_output(val, text),
            'wpkh': lambda: tb.make_p2wpkh_output(val, key),
            'wsh': lambda: tb.make_p2wsh_output(val, text),
            'ret': lambda: tb.make_op_return_output(a.b(a.pick(
                [0, 1, 75, 76, 77, 78]))),
            'addr': lambda: simple.output(val, address(a)[0])}[f]()


@op
def output_scripts(a):
    key, text = a.b(33), 'OP_DUP ' + a.raw(20).hex()
    return [tb.make_pkh_output_script(key), tb.make_sh_output_script(text),
            tb.make_sh_script_pubkey(key), tb.make_p2pkh_output_script(key),
            tb.make_p2sh_output_script(text)]


def point(a):
    return simple.outpoint(a.raw(32).hex(), a.num(4))


@op
def inputs(a):
    o = point(a)
    return [o, simple.unsigned_input(o), simple.unsigned_input(
        o, a.num(4, True)), tb.make_witness_input(o, a.num(4, True)),
        tb.make_legacy_input(o, a.b(5, True), a.b(3, True), 7)]


@op
def script_sig(a):
    return [tb.make_script_sig('OP_0 ' + a.raw(71).hex(),
                               'OP_1 ' + a.raw(33, True).hex()),
            tb.length_prepend(a.b(a.pick([0, 1, 252, 253], True)))]


@op
def witnesses(a):
    w = tb.make_witness(a.give([a.b(a.pick([0, 1, 33])) for _ in range(
        a.pick([0, 1, 2], True))]))
    return [w, [lib.b(i.item) for i in w.stack], tb.make_empty_witness(),
            tb.make_witness_stack_item(a.b(4, True))]


def unsigned(a):
    ins = [simple.unsigned_input(point(a), a.num(4))
           for _ in range(a.pick([1, 2, 3, 5]))]
    outs = [simple.output(a.num(6), address(a)[0])
            for _ in range(a.pick([1, 2, 3, 5]))]
    return ins, outs


@op
def simple_tx(a):
    ins, outs = unsigned(a)
    kw = {}
    for k in ('version', 'lock_time', 'expiry'):
        if a.pick([0, 1], True):
            kw[k] = 1 if k == 'version' else a.num(2, True)
    x = simple.unsigned_legacy_tx(a.give(ins), a.give(outs), **kw)
    return [x, x.tx_id]


@op
def simple_witness_tx(a):
    ins, outs = unsigned(a)
    return simple.unsigned_witness_tx(a.give(ins), a.give(outs),
                                      lock_time=a.num(2, True))


# Zcash -------------------------------------------------------------------

def kind_of(net):
    for k, names in gen.ZNETS.items():
        if net in names:
            return k
    raise ValueError('not a Zcash network')


def zplain(a, kind):
    t = plain(a, False)
    t.pop('flag')
    t.pop('wits')
    lay = wire.JS_SAPLING if kind == 'sapling' else wire.JS_SPROUT

    def struct(layout):
        return wire.split(layout, a.raw(wire.layout_size(layout)))
    t['js'] = []
    if kind != 'sprout' or t['ver'] == 2:
        for _ in range(a.pick([0, 1])):
            j = struct(lay)
            j['vpub_old'] = bytes(8)
            t['js'].append(j)
    t['pubkey'] = a.raw(32) if t['js'] else None
    t['sig'] = a.raw(64) if t['js'] else None
    if kind != 'sprout':
        t['expiry'] = a.num(2)
        t.pop('ver')
    if kind == 'sapling':
        t['spends'] = [struct(wire.SPEND) for _ in range(a.pick([0, 1]))]
        t['souts'] = [struct(wire.OUTPUT) for _ in range(a.pick([0, 1]))]
        some = t['spends'] or t['souts']
        t['balance'] = a.num(5) if some else 0
        t['binding'] = a.raw(64) if some else None
    return t


def ztx(a):
    kind = kind_of(a.net)
    return kind, a.keep('z', lambda: lib.zcash(kind, zplain(a, kind)))


@op
def zcash_tx(a):
    kind, x = ztx(a)
    return [x, x.tx_id, x.tx_id_le, x.copy(), x.copy(lock_time=a.b(4, True)),
            lib.un_zcash(kind, x)]


@op
def zcash_parse(a):
    kind = kind_of(a.net)
    raw = wire.zcash(kind, zplain(a, kind))
    return lib.ZCLASS[kind].from_bytes(a.give(raw))


@op
def zcash_digest(a):
    kind, x = ztx(a)
    f = a.pick([x.sighash_all, x.sighash_single], True)
    code, value = a.give(wire.pref(a.raw(25, True))), a.b(8, True)
    k, acp = a.pick([0, 1, 2], True), bool(a.pick([0, 0, 1], True))
    if kind == 'sprout':
        return f(k, code, anyone_can_pay=acp)
    return f(index=k, script_code=code, prevout_value=value,
             anyone_can_pay=acp)


@op
def zcash_fee(a):
    _, x = ztx(a)
    return x.calculate_fee(a.give([a.num(6, True)]))


# Decred ------------------------------------------------------------------

def dcr(a):
    def make():
        t = plain(a, False)
        return lib.decred({
            'ver': 1, 'sertype': 0,
            'ins': [dict(i, tree=0) for i in t['ins']],
            'outs': [dict(o, ver=0) for o in t['outs']],
            'lock': t['lock'], 'expiry': a.num(4),
            'wits': [{'val': a.num(6), 'height': a.num(4), 'index':
                      a.num(4), 'stack': a.raw(9), 'redeem': b''}
                     for _ in t['ins']]})
    return a.keep('dcr', make)


@op
def decred_tx(a):
    x = dcr(a)
    return [x, x.tx_id, x.tx_id_le, x.prefix(), x.witness(),
            x.witness_signing(), x.prefix_hash(), x.witness_hash(),
            x.witness_signing_hash(), x.calculate_fee(), x.copy(),
            x.copy(expiry=a.b(4, True)), x.copy(tx_witnesses=a.give(
                list(x.tx_witnesses)[::-1]))]


@op
def decred_digest(a):
    x = dcr(a)
    f = a.pick([x.sighash_all, x.sighash_single], True)
    return f(a.pick([0, 1, 2], True), a.give(a.raw(25, True)),
             anyone_can_pay=bool(a.pick([0, 1], True)))


ANYWHERE = sorted(n for n in OPS if not n.startswith(
    ('zcash', 'decred', 'cashaddr', 'bech32_n')))
ZCASH = sorted(n for n in OPS if n.startswith('zcash'))
DECRED = sorted(n for n in OPS if n.startswith('decred'))


def ops_of(net):
    more = ZCASH * 3 if net in nets.ZCASH else []
    if nets.is_decred(net):
        more = DECRED * 3
    if net in nets.CASH:
        more = more + ['cashaddr_network']
    if net in nets.BECH:
        more = more + ['bech32_network']
    if net in nets.BITCOIN:
        more = more + ['tx_digest', 'tx_copy', 'tx_ids']
    return ANYWHERE + more


@st.composite
def histories(draw, nets_max=2, size=10):
    names = draw(st.lists(st.one_of(st.sampled_from(nets.NAMES),
                                    st.sampled_from([
                                        'bitcoin_main', 'bitcoin_cash_main',
                                        'decred_main', 'zcash_sapling_main',
                                        'zcash_overwinter_main',
                                        'zcash_sprout_main'])),
                          min_size=1, max_size=nets_max))
    top = draw(st.integers(0, 10 ** 6))
    calls = []
    focus = draw(st.booleans())
    same = draw(st.integers(0, 3)) == 0     # one object, many questions
    for _ in range(draw(st.integers(2, size))):
        net = draw(st.sampled_from(names))
        ops = ops_of(net)
        if focus and calls:        # the same calls again and again
            seen = [c['op'] for c in calls if c['op'] in ops]
            ops = seen or ops
            if draw(st.integers(0, 3)) == 0:
                ops = ops_of(net)
        calls.append({'net': net, 'op': draw(st.sampled_from(ops)),
                      'a': top + (0 if same else draw(st.integers(0, 1))),
                      'b': top + draw(st.integers(0, 6 if same else 2)),
                      'tweak': 0 if same else draw(st.sampled_from(
                          [0, 0, 0, 1, 2, 3])),
                      'arr': draw(st.integers(0, 3)) == 0})
    return {'calls': calls}


# --------------------------------------------------------------- processes

def one(call, held, select=True):
    """[outcome, arguments that were modified]"""
    if select:
        lib.select(call['net'])
    a = Args(call['net'], call, held)
    try:
        x = OPS[call['op']](a)
        out = canon(x)
        if held is not None:
            spoil(x)
    except Exception as e:
        out = 'raised ' + type(e).__name__
    return [out, a.modified()]


def _late(signum, frame):
    raise Hang('a call used more than %d s of CPU' % CPU)


def fork(f):
    """f() in a child process; its result, through a pipe."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGVTALRM, _late)
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
            try:
                out = f()
            except Hang as e:
                out = {'hang': str(e)}
            with os.fdopen(w, 'wb') as o:
                o.write(json.dumps(out).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation('a process ended without an answer', 'died')
    out = json.loads(data.decode())
    if isinstance(out, dict) and 'hang' in out:
        raise Violation(out['hang'], 'hang')
    return out


def fresh(calls):
    """Every call alone, each in a process of its own."""
    memo = {}
    out = []
    for c in calls:
        k = json.dumps(c, sort_keys=True)
        if k not in memo:
            memo[k] = fork(lambda: one(c, None))
        out.append(memo[k])
    return out


def compare(calls, got, want, how):
    for n, (c, g, w) in enumerate(zip(calls, got, want)):
        if g[1] or w[1]:
            raise Violation('%s modified an argument that was %s'
                            % (c['op'], (g[1] or w[1])[0][:300]),
                            'argument of ' + c['op'])
        if g[0] != w[0]:
            k = next((i for i, (p, q) in enumerate(zip(g[0], w[0]))
                      if p != q), 0)
            k = max(0, k - 60)
            raise Violation(
                '%s, call %d %s: %s on %s gives ...%s, alone it gives ...%s'
                % (how, n, json.dumps(c), c['op'], c['net'],
                   g[0][k:k + 200], w[0][k:k + 200]),
                '%s %s' % (how, c['op']))


def labels(calls, got, info):
    again = 0
    seen = set()
    for c, g in zip(calls, got):
        info.label(c['op'])
        if g[0].startswith('raised'):
            info.label('raised')
        again += c['op'] in seen
        seen.add(c['op'])
    info.nt(again and any(not g[0].startswith('raised') for g in got))


OF_OBJECT = ['tx_digest', 'tx_copy', 'tx_parts', 'zcash_tx', 'zcash_digest',
             'decred_tx', 'decred_digest']


def each_twice(tier):
    """every call, changed calls in between, and again"""
    for n, name in enumerate(sorted(OPS)):
        for net in nets.NAMES:
            if name not in ops_of(net):
                continue
            if tier == 'quick' and net not in (
                    'bitcoin_main', 'bitcoin_cash_main', 'decred_main',
                    'zcash_sapling_main', 'zcash_overwinter_main',
                    'zcash_sprout_main', 'bitcoin_gold_main'):
                continue
            for top in (n, n + 500):
                calls = []
                for a, b, tweak in ((0, 0, 0), (0, 0, 1), (0, 1, 0),
                                    (1, 0, 0), (0, 0, 2), (0, 0, 0),
                                    (0, 1, 3), (0, 2, 0), (0, 0, 0)):
                    calls.append({'net': net, 'op': name, 'a': top + a,
                                  'b': top + b, 'tweak': tweak,
                                  'arr': False})
                yield {'calls': calls}
            # one object asked many things, there and back
            if name in OF_OBJECT:
                for top in range(n, n + (6 if tier == 'quick' else 40)):
                    side = list(range(9)) + list(range(8))[::-1]
                    yield {'calls': [
                        {'net': net, 'op': name, 'a': top, 'b': top + b,
                         'tweak': 0, 'arr': b % 4 == 3} for b in side]}


@sub('P30', 'histories', histories(), 1200,
     rule='a call is made again and one succeeds', enum=each_twice,
     guided=False)
def check_histories(c, info):
    """Calls one after another give what they give alone."""
    calls = c['calls']

    def run():
        held = {}
        return [one(x, held) for x in calls]
    got = fork(run)
    want = fresh(calls)
    labels(calls, got, info)
    compare(calls, got, want, 'after other calls')


@sub('P30', 'threads', histories(nets_max=1, size=8), 250,
     rule='two threads do the same kind of call and one succeeds',
     guided=False)
def check_threads(c, info):
    """Calls in threads of one process, on one network, give what they give
    alone."""
    calls = c['calls']
    net = calls[0]['net']
    for x in calls:
        x['net'] = net

    def run():
        lib.select(net)
        sys.setswitchinterval(1e-6)
        out = [None] * len(calls) * 3
        gate = threading.Barrier(len(calls))

        def work(n):
            gate.wait()
            for k in range(3):
                out[n * 3 + k] = one(calls[n], None, False)
        ts = [threading.Thread(target=work, args=(n,))
              for n in range(len(calls))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out
    got = fork(run)
    want = fresh(calls)
    labels(calls, got[::3], info)
    three = [x for x in calls for _ in range(3)]
    compare(three, got, [x for x in want for _ in range(3)],
            'next to other threads')


# ------------------------------------------------- one argument at a time

LIKE = [nets.PLAIN, nets.CASH, nets.FORKID, nets.DECRED, nets.SPROUT,
        nets.OVERWINTER, nets.SAPLING]


def again(x):
    """The same as a new object."""
    if isinstance(x, (list, tuple)):
        return type(x)(again(y) for y in x)
    if isinstance(x, shared.ByteData):
        try:
            return copy.copy(x)
        except Exception:
            pass
    return x


def ask_new(name, net, seed, calls):
    """The same, with new objects for each call, that are gone after it, so
    that new objects come to lie where others lay."""
    lib.select(net)
    f, values = onearg.TABLE[name](onearg.Gen(net, seed))
    out = []
    for where, arg, k in calls:
        lib.select(where)
        kw = {a: again(v[k % len(v) if a == arg else 0])
              for a, v in sorted(values.items(), key=lambda x: x[0] == arg)}
        try:
            text = canon(f(**kw))
        except Exception as e:
            text = 'raised ' + type(e).__name__
        out.append([text, []])
        kw.clear()
    return out


def ask(name, net, seed, calls):
    """The answers to calls of one function.  A call names the network, the
    argument that differs from the base call, and its value; the values are
    made once and used again."""
    lib.select(net)
    f, values = onearg.TABLE[name](onearg.Gen(net, seed))
    was = {k: [canon(x) for x in v] for k, v in values.items()}
    out = []
    for where, arg, k in calls:
        lib.select(where)
        kw = {a: v[0] for a, v in values.items()}
        if arg:
            kw[arg] = values[arg][k % len(values[arg])]
        try:
            x = f(**kw)
            text = canon(x)
            spoil(x)
        except Exception as e:
            text = 'raised ' + type(e).__name__
        out.append([text, []])
    now = {k: [canon(x) for x in v] for k, v in values.items()}
    if now != was:
        raise Violation('%s modified an argument' % name, 'argument of '
                        + name)
    return out


def takes_objects(name, net):
    """the arguments that are objects, or lists of them"""
    lib.select(net)
    _, values = onearg.TABLE[name](onearg.Gen(net, 1))
    return [(a, len(values[a])) for a in sorted(values) if any(
        isinstance(y, shared.ByteData) for x in values[a]
        for y in (x if isinstance(x, (list, tuple)) else [x]))]


def variants(name, net):
    lib.select(net)
    _, values = onearg.TABLE[name](onearg.Gen(net, 1))
    return {a: len(v) for a, v in values.items()}


def arguments(tier):
    for name in sorted(onearg.TABLE):
        names = onearg.WHERE[name]
        nearby = [[x for x in names if x in family] for family in LIKE]
        for n in range(2 if tier == 'quick' else 20):
            r = random.Random(name + str(n))
            for i, family in enumerate(nearby):
                if not family or tier == 'quick' and n and i:
                    continue
                c = {'fn': name, 'net': r.choice(family),
                     'net2': r.choice(names if n % 2 else family),
                     'seed': n + 3, 'order': n}
                # networks that give answers of each kind, for the base call
                c['more'] = r.sample(names, min(2, len(names))) + [
                    r.choice(x) for x in (
                        [y for y in family if y in names]
                        for family in (nets.BECH, nets.BECH, nets.CASH,
                                       nets.DECRED)) if x]
                yield c


@st.composite
def argument_cases(draw):
    name = draw(st.sampled_from(sorted(onearg.TABLE)))
    names = onearg.WHERE[name]
    return {'fn': name, 'net': draw(gen.net(names)),
            'net2': draw(gen.net(names)),
            'more': draw(st.lists(gen.net(names), max_size=3)),
            'seed': draw(st.integers(0, 2 ** 32)),
            'order': draw(st.integers(0, 999))}


@sub('P30', 'arguments', argument_cases(), 300,
     rule='two calls give different results', enum=arguments, guided=False)
def check_arguments(c, info):
    """A function called again and again with one argument changed, and on
    another network.  Each call gives the same in every order, and alone."""
    name, net, seed = c['fn'], c['net'], c['seed']
    r = random.Random(c['order'])
    calls = [(net, '', 0), (c['net2'], '', 0)]
    calls += [(x, '', 0) for x in c['more']]
    for arg, n in sorted(variants(name, net).items()):
        ks = list(range(1, n))
        for k in r.sample(ks, min(len(ks), 5)):
            calls.append((net if r.randrange(4) else c['net2'], arg, k))
    r.shuffle(calls)
    calls.insert(0, (net, '', 0))
    calls.append((net, '', 0))

    def run(order, how=ask):
        try:
            return how(name, net, seed, [calls[i] for i in order])
        except Violation as e:
            return {'violation': [str(e), e.key]}
    orders = [list(range(len(calls))), list(range(len(calls)))[::-1]]
    orders += [[r.randrange(len(calls))] for _ in range(2)]
    seen = {}
    ways = [(order, ask) for order in orders]
    objects = takes_objects(name, net)
    if objects:
        arg, n = r.choice(objects)
        if 'self' in dict(objects) and r.randrange(3):
            arg, n = 'self', dict(objects)['self']
        known = len(calls)
        calls += [(net, arg, k) for k in range(n)]
        ways.append(([r.randrange(known, len(calls)) for _ in range(24)],
                     ask_new))
    for order, how in ways:
        got = fork(lambda: run(order, how))
        if isinstance(got, dict):
            raise Violation(*got['violation'])
        for i, g in zip(order, got):
            call = json.dumps(calls[i])
            w = seen.setdefault(call, g)
            if g[0] != w[0]:
                k = next((j for j, (p, q) in enumerate(zip(g[0], w[0]))
                          if p != q), 0)
                k = max(0, k - 60)
                raise Violation(
                    '%s, call %s of %s (seed %d): ...%s in one order, ...%s '
                    'in another' % (name, call, calls, seed,
                                    w[0][k:k + 200], g[0][k:k + 200]),
                    'arguments of ' + name)
    answers = [g[0] for g in seen.values()]
    info.label(name)
    if any(g.startswith('raised') for g in answers):
        info.label('raised')
    info.nt(len(set(answers)) > 1
            and any(not g.startswith('raised') for g in answers))
