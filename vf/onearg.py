"""The functions of the library with their arguments one by one, for P30.

TABLE[name](g) gives (function, {argument: [base value, other values]}); the
function takes its arguments by name.  g is a Gen: the same seed and network
give the same values."""
import random

from vf import gen, lib
from vf.ref import nets, wire
from vf.ref.wire import le
from riemann import simple, utils
from riemann.encoding import addresses as ad
from riemann.encoding import base58, bech32, cashaddr
from riemann.networks import standard
from riemann.script import serialization as ser
from riemann.tx import shared
from riemann.tx import tx_builder as tb

TABLE = {}
WHERE = {}


def on(names):
    def deco(f):
        TABLE[f.__name__] = f
        WHERE[f.__name__] = names
        return f
    return deco


ANY = on(nets.NAMES)
BTC = on(nets.BITCOIN)
CASH = on(nets.CASH)
BECH = on(nets.BECH)
DCR = on(nets.DECRED)
ZEC = on(nets.ZCASH)
SPR = on(nets.SPROUT)
OW = on(nets.OVERWINTER)
SAP = on(nets.SAPLING)


FIELDS = {
    'Outpoint': 'tx_id index', 'TxOut': 'value output_script',
    'TxIn': 'outpoint stack_script redeem_script sequence',
    'Tx': 'version flag tx_ins tx_outs tx_witnesses lock_time',
    'DecredOutpoint': 'tx_id index tree', 'DecredTxIn': 'outpoint sequence',
    'DecredTxOut': 'value version output_script',
    'DecredInputWitness': 'value height index stack_script redeem_script'}


def but(x, **changes):
    """x with changes, by its constructor and not by copy()."""
    kw = {k: getattr(x, k) for k in FIELDS[type(x).__name__].split()}
    kw.update(changes)
    return type(x)(**kw)


class Gen(object):
    """Values drawn from a seed."""

    def __init__(self, net, seed):
        self.net = net
        self.r = random.Random(seed)

    def b(self, n):
        return self.r.getrandbits(8 * n).to_bytes(n, 'little') if n else b''

    def num(self, size):
        return self.r.getrandbits(8 * size)

    def bytes(self, n):
        """bytes, the same with one byte changed, and others"""
        x = self.b(n)
        out = [x]
        if n:
            out += [x[:-1] + bytes([x[-1] ^ 1]), bytes([x[0] ^ 128]) + x[1:],
                    self.b(n)]
        return out

    def ints(self, size):
        x = self.num(size)
        return [x, x ^ 1, x >> 8 or 1, self.num(size)]

    def blobs(self, *sizes):
        """bytes of different lengths"""
        x = [self.b(n) for n in sizes]
        y = max(x, key=len)
        return x + [y[:-1]] + self.bytes(len(y))[1:2]

    def texts(self):
        h = self.b(20)
        return ['OP_DUP ' + h.hex(), 'OP_NOP ' + h.hex(),
                'OP_DUP ' + self.b(20).hex(), 'OP_1']

    def scripts(self):
        """output scripts"""
        h = self.b(20)
        return [nets.script('p2pkh', h), nets.script('p2sh', h),
                nets.script('p2pkh', self.b(20)), b'\x6a\x04' + self.b(4)]

    def codes(self):
        """script codes with their length"""
        return [wire.pref(s) for s in self.scripts()] + [b'\x00']

    def addresses(self):
        out = []
        for _ in range(4):
            kind, cash = self.r.choice(nets.KINDS[self.net])
            out.append(nets.address(self.net, kind, self.b(nets.SIZE[kind]),
                                    cash))
        return out

    # parts of transactions

    def point(self):
        return lib.btc.Outpoint(self.b(32), self.b(4))

    def points(self):
        p = self.point()
        return [p, but(p, index=self.b(4)), but(p, tx_id=self.b(32))]

    def txin(self):
        return lib.btc.TxIn(self.point(), b'', b'', self.b(4))

    def txout(self):
        return lib.btc.TxOut(self.b(6) + bytes(2), self.scripts()[0])

    def ins(self):
        a, b, c = self.txin(), self.txin(), self.txin()
        return [[a, b], [b, a], [a, but(b, sequence=self.b(4))],
                [a, but(b, outpoint=self.point())], [a], [a, b, c],
                [but(a, stack_script=b'\x01a'), b]]

    def outs(self):
        a, b, c = self.txout(), self.txout(), self.txout()
        return [[a, b], [b, a], [a, but(b, value=self.b(8))],
                [a, but(b, output_script=self.scripts()[1])], [a],
                [a, b, c]]

    def wit(self):
        return tb.make_witness([self.b(4), self.b(33)])

    def wits(self):
        a, b = self.wit(), self.wit()
        return [[a, b], [b, a], [a, tb.make_empty_witness()]]

    def same(self, make, **parts):
        """a base object and others that differ in one part"""
        base = {k: v[0] for k, v in parts.items()}
        out = [make(**base)]
        for k, v in sorted(parts.items()):
            for x in v[1:]:
                try:
                    out.append(make(**dict(base, **{k: x})))
                except ValueError:
                    pass
        return out

    def txs(self, flag=None):
        """transactions"""
        flag = self.r.choice([None, b'\x00\x01']) if flag is None else flag
        return self.same(
            lib.btc.Tx, version=[le(1, 4), le(2, 4)], flag=[flag],
            tx_ins=self.ins(), tx_outs=self.outs(),
            tx_witnesses=self.wits() if flag else [None],
            lock_time=self.bytes(4)[:2])

    def struct(self, layout, **kw):
        d = wire.split(layout, self.b(wire.layout_size(layout)))
        d.update(kw)
        return d

    def splits(self, kind):
        lay, make = ((wire.JS_SAPLING, lib.sapling_js) if kind == 'sapling'
                     else (wire.JS_SPROUT, lib.sprout_js))
        one = self.struct(lay, vpub_old=bytes(8))
        out = []
        for k in (None, 'vpub_new', 'anchor', 'nullifiers', 'commitments',
                  'random_seed', 'vmacs', 'encoded_notes'):
            d = dict(one)
            if k:
                d[k] = self.b(len(one[k]))
            out.append([make(d)])
        d = make(self.struct(lay, vpub_old=bytes(8)))
        return out + [[out[0][0], d], [d, out[0][0]], []]

    def zparts(self, kind):
        p = dict(tx_ins=self.ins(), tx_outs=self.outs(),
                 lock_time=self.bytes(4)[:2],
                 tx_joinsplits=self.splits(kind),
                 joinsplit_pubkey=self.bytes(32)[:3],
                 joinsplit_sig=self.bytes(64)[:3])
        if kind == 'sprout':
            p['version'] = [le(2, 4)]
        else:
            p['expiry_height'] = [le(x, 4) for x in (7, 8, 500)]
        if kind == 'sapling':
            p['value_balance'] = [le(x, 8) for x in (5, 6, 5000)]
            s = [lib.spend(self.struct(wire.SPEND)) for _ in range(2)]
            o = [lib.sout(self.struct(wire.OUTPUT)) for _ in range(2)]
            p['tx_shielded_spends'] = [s[:1], s[1:], s, s[::-1]]
            p['tx_shielded_outputs'] = [o[:1], o[1:], o, o[::-1]]
            p['binding_sig'] = self.bytes(64)[:3]
        return p

    def ztxs(self, kind):
        return self.same(lib.ZCLASS[kind], **self.zparts(kind))

    def dparts(self):
        w = [lib.dcr.DecredInputWitness(self.b(8), self.b(4), self.b(4),
                                        self.b(9), self.b(3))
             for _ in range(2)]
        v = but(w[1], value=self.b(8))
        i = [self.din() for _ in range(3)]
        o = [self.dout() for _ in range(3)]
        return dict(version=[le(1, 4), le(2, 4)],
                    tx_ins=[i[:2], i[1::-1], [i[0], i[2]], [
                        i[0], but(i[1], sequence=self.b(4))]],
                    tx_outs=[o[:2], o[1::-1], o[:1], o, [
                        o[0], but(o[1], value=self.b(8))]],
                    lock_time=self.bytes(4)[:2], expiry=self.bytes(4)[:2],
                    tx_witnesses=[w, w[::-1], [w[0], v]])

    def dpoints(self):
        p = lib.dcr.DecredOutpoint(self.b(32), self.b(4), b'\x00')
        return [p, but(p, tx_id=self.b(32)), but(p, index=self.b(4)),
                but(p, tree=b'\x01')]

    def din(self):
        return lib.dcr.DecredTxIn(self.dpoints()[0], self.b(4))

    def dout(self):
        return lib.dcr.DecredTxOut(self.b(6) + bytes(2), b'\x00\x00',
                                   self.scripts()[0])

    def dtxs(self):
        return self.same(lib.dcr.DecredTx, **self.dparts())


def method(name):
    return lambda self, **kw: getattr(self, name)(**kw)


BOOL = [False, True]

# conversions, hashes, codecs -----------------------------------------------


@ANY
def i2le_padded(g):
    return utils.i2le_padded, {'number': g.ints(3), 'length': [4, 3, 8]}


@ANY
def i2be_padded(g):
    return utils.i2be_padded, {'number': g.ints(3), 'length': [4, 3, 8]}


@ANY
def le2i(g):
    return utils.le2i, {'b': [b'\x01\xff', b'\xff\x01'] + g.bytes(4),
                        'signed': BOOL}


@ANY
def be2i(g):
    return utils.be2i, {'b': [b'\xff\x01', b'\x01\xff'] + g.bytes(4),
                        'signed': BOOL}


def numbers(f):
    def one(g):
        return f, {'number': g.ints(g.r.choice([1, 2, 8]))}
    return one


for _n in ('i2le', 'i2be', 'i2le_script'):
    TABLE[_n] = numbers(getattr(utils, _n))
    WHERE[_n] = nets.NAMES


def digests(f):
    def one(g):
        return f, {'msg_bytes': g.blobs(g.r.choice([0, 33]), 64)}
    return one


for _n in ('rmd160', 'sha256', 'hash160', 'hash256', 'blake256'):
    TABLE[_n] = digests(getattr(utils, _n))
    WHERE[_n] = nets.NAMES


@ANY
def change_endianness(g):
    return utils.change_endianness, {'b': g.bytes(32)}


@ANY
def blake2b(g):
    return utils.blake2b, {
        'data': g.blobs(0, 33), 'digest_size': [32, 20, 64],
        'person': [b'ZcashComputehSig', b'ZcashPrevoutHash', b''],
        'key': [b'', b'k'], 'salt': [b'', b's']}


@ANY
def blake2s(g):
    return utils.blake2s, {
        'data': g.blobs(0, 33), 'digest_size': [32, 20],
        'person': [b'Zcash_gh', b''], 'key': [b'', b'k']}


@ANY
def b58_encode(g):
    return base58.encode, {'data': g.blobs(21, 22), 'checksum': [True, False]}


@ANY
def b58_decode(g):
    s = base58.encode(g.b(21))
    return base58.decode, {'s': [s, base58.encode(g.b(21)), '1' + s],
                           'checksum': [True, False]}


@ANY
def b58_has_checksum(g):
    s = base58.encode(g.b(21))
    return base58.has_checksum, {'base58': [s, '1' + s, s[:-1]]}


@ANY
def segwit_encode(g):
    return bech32.segwit_encode, {
        'hrp': ['bc', 'tb', 'ltc'], 'witver': [0, 1, 16],
        'witprog': [list(x) for x in g.bytes(20)]}


@ANY
def segwit_decode(g):
    p = list(g.b(20))
    return bech32.segwit_decode, {
        'hrp': ['bc', 'tb', 'ltc'],
        'addr': [bech32.segwit_encode(h, 0, p) for h in ('bc', 'tb', 'ltc')]
        + [bech32.segwit_encode('bc', 1, p)]}


@ANY
def bech32_encode(g):
    return bech32.bech32_encode, {
        'hrp': ['bc', 'tb'], 'data': [[c % 32 for c in x]
                                      for x in g.bytes(9)]}


def bits(f):
    return lambda g: (f, {
        'data': [[c % 32 for c in x] for x in g.bytes(8)],
        'frombits': [5, 8, 6], 'tobits': [8, 5, 7], 'pad': [True, False]})


for _n, _f in (('bech32_bits', bech32.convertbits),
               ('cashaddr_bits', cashaddr.convertbits)):
    TABLE[_n] = bits(_f)
    WHERE[_n] = nets.NAMES


@ANY
def base58_long(g):
    def f(s, base, prefix, other):
        v, n = base58.to_long(base, lambda x: x, s)
        return [str(v), n, base58.from_long(v, prefix, other, lambda x: x)]
    return f, {'s': [x + bytes(2) for x in g.bytes(9)]
               + [bytes(2) + g.b(9)], 'base': [256, 257, 300],
               'prefix': [0, 1, 3], 'other': [256, 58, 100]}


@BECH
def bech32_network(g):
    return bech32.encode, {'data': [b'\x00\x14' + x for x in g.bytes(20)]}


@CASH
def cashaddr_encode(g):
    p = g.b(20)
    return cashaddr.encode, {'data': [b'\x00' + p, b'\x08' + p,
                                      b'\x00' + g.b(20)]}


@CASH
def cashaddr_decode(g):
    p = g.b(20)
    return cashaddr.decode, {'data': [
        nets.address(g.net, 'p2pkh', p, True),
        nets.address(g.net, 'p2sh', p, True),
        nets.address(g.net, 'p2pkh', g.b(20), True)]}


# scripts --------------------------------------------------------------------

@ANY
def serialize(g):
    return ser.serialize, {'script_string': g.texts() + ['OP_CAT', 'OP_SHA256']}


@ANY
def hex_serialize(g):
    return ser.hex_serialize, {'script_string': g.texts() + ['OP_CAT']}


@ANY
def deserialize(g):
    return ser.deserialize, {'serialized_script': g.scripts() + [
        b'\xa8', b'\xc0', b'\x7e', b'\x02a']}


@ANY
def hex_deserialize(g):
    return ser.hex_deserialize, {'script_hex': [
        x.hex() for x in g.scripts() + [b'\xa8', b'\xc0']]}


# addresses ------------------------------------------------------------------

@ANY
def make_sh_address(g):
    return ad.make_sh_address, {'script_string': g.texts(), 'witness': BOOL,
                                'cashaddr': [True, False]}


@ANY
def make_sh_address_of_witness(g):
    return ad.make_sh_address, {'script_string': g.texts(),
                                'witness': [True, False],
                                'cashaddr': [False, True]}


@ANY
def make_pkh_address(g):
    return ad.make_pkh_address, {'pubkey': g.bytes(33), 'witness': BOOL,
                                 'cashaddr': [True, False]}


@ANY
def make_pkh_address_of_witness(g):
    return ad.make_pkh_address, {'pubkey': g.bytes(33),
                                 'witness': [True, False],
                                 'cashaddr': [False, True]}


def keyed(f):
    return lambda g: (f, {'pubkey': g.bytes(33)})


def texted(f):
    return lambda g: (f, {'script_string': g.texts()})


for _m, _ns in ((ad, 'make_p2wpkh_address make_p2pkh_address '
                     'make_legacy_p2pkh_address'),
                (tb, 'make_p2pkh_output_script make_p2wpkh_output_script')):
    for _n in _ns.split():
        TABLE[_n] = keyed(getattr(_m, _n))
        WHERE[_n] = nets.NAMES
for _m, _ns in ((ad, 'make_p2wsh_address make_p2sh_address '
                     'make_legacy_p2sh_address'),
                (tb, 'make_p2sh_output_script make_p2wsh_output_script')):
    for _n in _ns.split():
        TABLE[_n] = texted(getattr(_m, _n))
        WHERE[_n] = nets.NAMES


@ANY
def addr_parse(g):
    return ad.parse, {'address': g.addresses()}


@ANY
def addr_parse_hash(g):
    return ad.parse_hash, {'address': g.addresses()}


@ANY
def to_output_script(g):
    return ad.to_output_script, {'address': g.addresses()}


@ANY
def from_output_script(g):
    return ad.from_output_script, {'output_script': g.scripts() + [
        nets.script('p2wpkh', g.b(20)), nets.script('p2wsh', g.b(32))],
        'cashaddr': [True, False]}


# builders -------------------------------------------------------------------

@ANY
def make_sh_script_pubkey(g):
    return tb.make_sh_script_pubkey, {'script_bytes': g.blobs(1, 25),
                                      'witness': BOOL}


@ANY
def make_sh_output_script(g):
    return tb.make_sh_output_script, {'script_string': g.texts(),
                                      'witness': BOOL}


@ANY
def make_pkh_output_script(g):
    return tb.make_pkh_output_script, {'pubkey': g.bytes(33),
                                       'witness': BOOL}


@ANY
def make_sh_output(g):
    return tb.make_sh_output, {'value': g.ints(6),
                               'output_script': g.texts(), 'witness': BOOL}


@ANY
def make_pkh_output(g):
    return tb.make_pkh_output, {'value': g.ints(6), 'pubkey': g.bytes(33),
                                'witness': BOOL}


def paying(f, what):
    return lambda g: (f, {'value': g.ints(6), what:
                          g.bytes(33) if what == 'pubkey' else g.texts()})


for _n, _w in (('make_p2sh_output', 'output_script'),
               ('make_p2wsh_output', 'output_script'),
               ('make_p2pkh_output', 'pubkey'),
               ('make_p2wpkh_output', 'pubkey')):
    TABLE[_n] = paying(getattr(tb, _n), _w)
    WHERE[_n] = nets.NAMES


@ANY
def make_op_return_output(g):
    return tb.make_op_return_output, {'data': g.blobs(0, 1, 75, 76, 77)}


@ANY
def make_witness(g):
    a, b = g.b(1), g.b(33)
    return tb.make_witness, {'data_list': [[a, b], [b, a], [a], []]}


@ANY
def make_witness_stack_item(g):
    return tb.make_witness_stack_item, {'data': g.blobs(0, 33)}


@DCR
def make_decred_witness(g):
    return tb.make_decred_witness, {
        'value': g.bytes(8), 'height': g.bytes(4), 'index': g.bytes(4),
        'stack_script': g.blobs(4, 9), 'redeem_script': g.blobs(0, 5)}


@ANY
def make_outpoint(g):
    return tb.make_outpoint, {'tx_id_le': g.bytes(32), 'index': g.ints(3),
                              'tree': [None, 0, 1]}


@ANY
def simple_outpoint(g):
    return simple.outpoint, {'tx_id': [x.hex() for x in g.bytes(32)],
                             'index': g.ints(3), 'tree': [None, 0, 1]}


@ANY
def make_script_sig(g):
    return tb.make_script_sig, {'stack_script': g.texts(),
                                'redeem_script': g.texts()}


def its_points(g):
    return g.dpoints() if nets.is_decred(g.net) else g.points()


@ANY
def make_legacy_input(g):
    return tb.make_legacy_input, {
        'outpoint': its_points(g), 'stack_script': g.blobs(0, 5),
        'redeem_script': g.blobs(0, 5), 'sequence': g.ints(4)}


@ANY
def make_witness_input(g):
    return tb.make_witness_input, {'outpoint': its_points(g),
                                   'sequence': g.ints(4)}


@DCR
def make_decred_input(g):
    return tb.make_decred_input, {'outpoint': g.dpoints(),
                                  'sequence': g.ints(4)}


@ANY
def unsigned_input(g):
    return simple.unsigned_input, {'outpoint': its_points(g),
                                   'sequence': g.ints(4)}


@ANY
def simple_output(g):
    return simple.output, {'value': g.ints(6), 'address': g.addresses()}


@ANY
def length_prepend(g):
    return tb.length_prepend, {'byte_string': g.blobs(0, 4, 252, 253)}


@BTC
def make_tx(g):
    w = g.wits()
    return tb.make_tx, {
        'version': [1, 2], 'tx_ins': g.ins()[:4], 'tx_outs': g.outs(),
        'lock_time': g.ints(4), 'tx_witnesses': w + [None]}


@ZEC
def make_tx_zcash(g):
    kind = next(k for k, v in gen.ZNETS.items() if g.net in v)
    p = g.zparts(kind)
    p['version'] = [2]
    p['lock_time'] = g.ints(4)
    p['expiry'] = [7, 8, 500]
    p.pop('expiry_height', None)
    if kind == 'sapling':
        p['value_balance'] = [5, 6, -5]
    return tb.make_tx, p


@DCR
def make_tx_decred(g):
    p = g.dparts()
    p['version'] = [1, 2]
    p['lock_time'], p['expiry'] = g.ints(4), g.ints(4)
    return tb.make_tx, p


@BTC
def unsigned_legacy_tx(g):
    return simple.unsigned_legacy_tx, {
        'tx_ins': g.ins(), 'tx_outs': g.outs(), 'version': [1, 2],
        'lock_time': g.ints(4)}


@ZEC
def unsigned_legacy_tx_zcash(g):
    return simple.unsigned_legacy_tx, {
        'tx_ins': g.ins(), 'tx_outs': g.outs(), 'version': [1],
        'lock_time': g.ints(4), 'expiry': [0, 8, 500]}


@BTC
def unsigned_witness_tx(g):
    return simple.unsigned_witness_tx, {
        'tx_ins': g.ins(), 'tx_outs': g.outs(), 'version': [1, 2],
        'lock_time': g.ints(4)}


# transactions ---------------------------------------------------------------

@ANY
def varint(g):
    return shared.VarInt, {'number': [5, 6, 252, 253], 'length': [
        None, 3, 5, 9]}


@ANY
def varint_parse(g):
    return shared.VarInt.from_bytes, {
        'byte_string': [b'\xfd\x05\x00', b'\xfd\x06\x00', b'\x05',
                        b'\xfd\x00\x01'], 'compact': BOOL}


@ANY
def varint_copy(g):
    return method('copy'), {'self': [shared.VarInt(5), shared.VarInt(5, 3),
                                     shared.VarInt(6)]}


@ANY
def find(g):
    b = g.b(6)
    return method('find'), {
        'self': [shared.ByteData.from_bytes(x) for x in (b, b[::-1], b[1:])],
        'substring': [b[2:4], b[1:3], b[::-1][:2]]}


@ANY
def byte_data(g):
    return (lambda byte_string: shared.ByteData.from_bytes(byte_string)), {
        'byte_string': g.blobs(0, 3, 9)}


@ANY
def validate_bytes(g):
    return shared.ByteData.validate_bytes, {
        'data': [b'abc', b'abcd', 'abc'], 'length': [3, 4, None]}


@ANY
def outpoint_made(g):
    return lib.btc.Outpoint, {'tx_id': g.bytes(32), 'index': g.bytes(4)}


@ANY
def outpoint_copy(g):
    return method('copy'), {'self': g.points(), 'tx_id': [None] + g.bytes(32),
                            'index': [None] + g.bytes(4)}


@ANY
def txin_made(g):
    return lib.btc.TxIn, {
        'outpoint': g.points(), 'stack_script': g.blobs(0, 5),
        'redeem_script': g.blobs(0, 5), 'sequence': g.bytes(4)}


@ANY
def txin_copy(g):
    x = lib.btc.TxIn(g.point(), b'\x01a', b'\x51', g.b(4))
    return method('copy'), {
        'self': [x, but(x, sequence=g.b(4)), but(x, stack_script=b''),
                 but(x, redeem_script=b''), but(x, outpoint=g.point())],
        'outpoint': [None] + g.points(),
        'stack_script': [None] + g.blobs(0, 5),
        'redeem_script': [None] + g.blobs(0, 5),
        'sequence': [None] + g.bytes(4)}


@ANY
def txin_p2sh(g):
    x = lib.btc.TxIn(g.point(), b'\x01a', b'\x51', g.b(4))
    return method('is_p2sh'), {'self': [x, but(x, redeem_script=b'')]}


@ANY
def txin_parse(g):
    p = g.b(36)
    return lib.btc.TxIn.from_bytes, {'byte_string': [
        p + wire.pref(s) + q
        for s, q in ((b'\x51\x01\x51', b'abcd'), (b'\x51\x01\x52', b'abcd'),
                     (b'', b'abcd'), (b'\x51\x01\x51', b'abce'))]}


@ANY
def txout_made(g):
    return lib.btc.TxOut, {'value': g.bytes(8), 'output_script': g.scripts()}


@ANY
def txout_copy(g):
    x = g.txout()
    return method('copy'), {
        'self': [x, but(x, value=g.b(8)), but(x, output_script=b'\x51')],
        'value': [None] + g.bytes(8), 'output_script': [None] + g.scripts()}


@ANY
def txout_parse(g):
    return lib.btc.TxOut.from_bytes, {'byte_string': [
        b'\x01' * 8 + b'\x01' + x for x in (b'a', b'b', b'ab', b'')]}


@ANY
def witness_parse(g):
    return lib.btc.InputWitness.from_bytes, {'byte_string': [
        b'\x01\x01a', b'\x01\x01b', b'\x02\x01a\x00', b'\x00']}


@ANY
def witness_copy(g):
    a, b = g.wit(), g.wit()
    return method('copy'), {'self': [a, b], 'stack': [
        None, list(b.stack), list(a.stack)[:1], []]}


@BTC
def tx_made(g):
    return lib.btc.Tx, {
        'version': [le(1, 4), le(2, 4)], 'flag': [b'\x00\x01', None],
        'tx_ins': g.ins(), 'tx_outs': g.outs(),
        'tx_witnesses': [None] + g.wits(), 'lock_time': g.bytes(4)}


@BTC
def tx_parse(g):
    raw = [x.to_bytes() for x in g.txs()]
    return lib.btc.Tx.from_bytes, {'byte_string': raw + [
        raw[0] + b'x', raw[0][:-1]]}


@BTC
def tx_copy(g):
    return method('copy'), {
        'self': g.txs(b'\x00\x01'), 'version': [None, le(2, 4), le(1, 4)],
        'tx_ins': [None] + g.ins()[:4], 'tx_outs': [None] + g.outs(),
        'tx_witnesses': [None] + g.wits(), 'lock_time': [None] + g.bytes(4)}


@BTC
def tx_copy_flag(g):
    return method('copy'), {
        'self': g.same(
            lib.btc.Tx, version=[le(1, 4)], flag=[None, b'\x00\x01'],
            tx_ins=g.ins()[:2], tx_outs=g.outs()[:2], tx_witnesses=[None],
            lock_time=[b'abcd']), 'flag': [None, b'\x00\x01']}


def tx_asked(name):
    return lambda g: (method(name), {
        'self': g.txs(b'\x00\x01')[:6] + [
            but(x, flag=None, tx_witnesses=None) for x in g.txs()[:3]]})


for _n in ('no_witness', 'is_witness', 'hex', 'to_bytes'):
    TABLE['tx_' + _n] = tx_asked(_n)
    WHERE['tx_' + _n] = nets.BITCOIN


@BTC
def tx_fee(g):
    return method('calculate_fee'), {'self': g.txs(), 'input_values': [
        [5, 6], [6, 6], [5], [7, 5]]}


@BTC
def tx_sighash_all(g):
    return method('sighash_all'), {
        'self': g.txs(), 'index': [0, 1], 'script': g.codes(),
        'prevout_value': g.bytes(8), 'anyone_can_pay': BOOL}


@BTC
def tx_sighash_single(g):
    return method('sighash_single'), {
        'self': g.txs(), 'index': [0, 1, 2], 'script': g.codes(),
        'prevout_value': g.bytes(8), 'anyone_can_pay': BOOL}


@BTC
def tx_sighash_anyone(g):
    f = lambda self, single, **kw: (
        self.sighash_single if single else self.sighash_all)(
            anyone_can_pay=True, **kw)
    return f, {'self': g.txs(), 'index': [1, 0], 'script': g.codes(),
               'prevout_value': g.bytes(8), 'single': BOOL}


@BTC
def tx_segwit_sighash(g):
    return method('segwit_sighash'), {
        'self': g.txs(), 'index': [0, 1], 'script': g.codes(),
        'sighash_type': [1, 3], 'prevout_value': g.bytes(8),
        'anyone_can_pay': BOOL}


@BTC
def tx_standard(g):
    def f(self):
        return [standard.check_is_standard_tx(self),
                standard.check_is_standard(self),
                standard.check_tx_size_small(self)]
    txs = g.txs()
    dust = [lib.btc.TxOut(bytes(8), g.scripts()[0])]
    return f, {'self': txs + [but(txs[0], version=le(3, 4)),
                              but(txs[0], tx_outs=dust),
                              but(txs[0], tx_outs=[
                                  lib.btc.TxOut(le(9999, 8), b'\x51')])]}


@ANY
def outputs_standard(g):
    def f(o):
        return [standard.is_op_return(o), standard.is_standard_output_type(o)]
    ret = lib.btc.TxOut(bytes(8), b'\x6a\x04abcd')
    return f, {'o': [ret, but(ret, value=le(1, 8)),
                     but(ret, output_script=b'\x6a\x51\xac'), g.txout(),
                     but(g.txout(), output_script=b'\xac\x51')]}


@ANY
def push_only(g):
    return standard.is_push_only, {'script_sig': [
        b'\x51', b'\x61', b'\x01a', b'\x50', b'\x51\xac', b'\xc0']}


@BTC
def final(g):
    t = lib.btc.Tx(le(1, 4), None, g.ins()[0], g.outs()[0], None,
                   le(500, 4))
    last = [but(i, sequence=b'\xff' * 4) for i in t.tx_ins]
    return standard.check_final, {
        't': [t, but(t, lock_time=le(501, 4)),
              but(t, lock_time=le(500000005, 4)), but(t, tx_ins=last)],
        'best_height': [500, 499, 501],
        'best_timestamp': [500000005, 500000006]}


@BTC
def final_time(g):
    t = lib.btc.Tx(le(1, 4), None, g.ins()[0], g.outs()[0], None,
                   le(500000005, 4))
    return standard.check_final, {
        't': [t, but(t, lock_time=le(501, 4)),
              but(t, lock_time=le(500000006, 4))],
        'best_height': [500, 499, 501],
        'best_timestamp': [500000006, 500000005, 500000007]}


# Zcash ----------------------------------------------------------------------

def zec(kind):
    names = gen.ZNETS[kind]
    cls = lib.ZCLASS[kind]
    sproutish = kind == 'sprout'

    def put(name, f):
        TABLE['%s_%s' % (kind, name)] = f
        WHERE['%s_%s' % (kind, name)] = names

    def parsed(g):
        raw = [x.to_bytes() for x in g.ztxs(kind)]
        return cls.from_bytes, {'byte_string': raw[:6] + [raw[0][:-1]]}

    def copied(g):
        p = g.zparts(kind)
        more = {k: [None] + v for k, v in g.zparts(kind).items()}
        more['self'] = g.same(cls, **p)
        return method('copy'), more

    def asked(name):
        def f(g):
            p = {'self': g.ztxs(kind), 'anyone_can_pay': BOOL}
            if name == 'sighash_single':
                p['index'] = [0, 1, 2]
            else:
                p['index'] = [0, 1]
            if name == 'sighash':
                p['sighash_type'] = [1, 3]
                p['joinsplit'] = BOOL
            if sproutish:
                p['script'] = g.codes()
            else:
                p['script_code'] = g.codes()
                p['prevout_value'] = g.bytes(8)
            return method(name), p
        return f

    put('made', lambda g: (cls, g.zparts(kind)))
    put('parse', parsed)
    put('copy', copied)
    put('fee', lambda g: (method('calculate_fee'), {
        'self': g.ztxs(kind), 'input_values': [[5, 6], [6, 6], [5]]}))
    put('ids', lambda g: ((lambda self: [self.tx_id, self.hsigs,
                                         self.primary_inputs, self.hex()]),
                          {'self': g.ztxs(kind)}))
    for name in ('sighash_all', 'sighash_single') + (
            () if sproutish else ('sighash',)):
        put(name, asked(name))


for _k in gen.ZNETS:
    zec(_k)


def plain_sprout(g):
    return g.same(lib.spr.SproutTx, version=[le(1, 4), le(2, 4)],
                  tx_ins=g.ins(), tx_outs=g.outs(),
                  lock_time=g.bytes(4)[:2], tx_joinsplits=[[]],
                  joinsplit_pubkey=[None], joinsplit_sig=[None])


@SPR
def sprout_plain_all(g):
    return method('sighash_all'), {
        'self': plain_sprout(g), 'index': [0, 1], 'script': g.codes(),
        'anyone_can_pay': BOOL}


@SPR
def sprout_plain_single(g):
    return method('sighash_single'), {
        'self': plain_sprout(g), 'index': [0, 1, 2], 'script': g.codes(),
        'anyone_can_pay': BOOL}


@ZEC
def joinsplits_parse(g):
    a, b = (g.b(1802) for _ in range(2))
    a = bytes(8) + a[8:]
    return lib.zs.SproutJoinsplit.from_bytes, {'byte_string': [
        a, bytes(8) + b[8:], a[:-1], a[:16] + b[16:48] + a[48:]]}


# Decred ---------------------------------------------------------------------

@DCR
def decred_outpoint_copy(g):
    return method('copy'), {
        'self': g.dpoints(), 'tx_id': [None] + g.bytes(32),
        'index': [None] + g.bytes(4), 'tree': [None, b'\x01', b'\x00']}


@DCR
def decred_txin_copy(g):
    x = g.din()
    return method('copy'), {
        'self': [x, but(x, sequence=g.b(4))],
        'outpoint': [None] + g.dpoints(), 'sequence': [None] + g.bytes(4)}


@DCR
def decred_txout_copy(g):
    x = g.dout()
    return method('copy'), {
        'self': [x, but(x, value=g.b(8))], 'value': [None] + g.bytes(8),
        'version': [None, b'\x01\x00', b'\x00\x00'],
        'output_script': [None] + g.scripts()}


@DCR
def decred_witness_copy(g):
    x = lib.dcr.DecredInputWitness(g.b(8), g.b(4), g.b(4), g.b(9), g.b(3))
    return method('copy'), {
        'self': [x, but(x, value=g.b(8)), but(x, redeem_script=b'')],
        'value': [None] + g.bytes(8), 'height': [None] + g.bytes(4),
        'index': [None] + g.bytes(4), 'stack_script': [None] + g.blobs(0, 5),
        'redeem_script': [None] + g.blobs(0, 5)}


@DCR
def decred_parts_parse(g):
    def f(byte_string, cls):
        return getattr(lib.dcr, cls).from_bytes(byte_string)
    b = g.b(30)
    return f, {'byte_string': [b[:10] + b'\x03' + b * 2,
                               b[:10] + b'\x04' + b * 2,
                               b[:10] + b'\x03' + (b * 2)[::-1]],
               'cls': ['DecredTxOut', 'DecredTxIn', 'DecredOutpoint']}


@DCR
def decred_made(g):
    return lib.dcr.DecredTx, g.dparts()


@DCR
def decred_copy(g):
    p = {k: [None] + v for k, v in g.dparts().items()}
    p['self'] = g.dtxs()
    return method('copy'), p


def dcr_asked(name):
    return lambda g: (method(name), {'self': g.dtxs()})


for _n in ('prefix', 'witness', 'witness_signing', 'prefix_hash',
           'witness_hash', 'witness_signing_hash', 'calculate_fee',
           'to_bytes'):
    TABLE['decred_' + _n] = dcr_asked(_n)
    WHERE['decred_' + _n] = nets.DECRED


@DCR
def decred_sighash_all(g):
    return method('sighash_all'), {
        'self': g.dtxs(), 'index': [0, 1], 'script': g.scripts(),
        'anyone_can_pay': BOOL}


@DCR
def decred_sighash_single(g):
    return method('sighash_single'), {
        'self': g.dtxs(), 'index': [0, 1, 2], 'script': g.scripts(),
        'anyone_can_pay': BOOL}

