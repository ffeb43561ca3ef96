"""The published parameters of every network (recorded from the pinned tree)
and what they imply for addresses."""
import json
import os

from vf.ref import addr, hashes

with open(os.path.join(os.path.dirname(__file__), 'networks.json')) as _f:
    _T = json.load(_f)


def _dec(v):
    if isinstance(v, dict) and set(v) == {'$b'}:
        return bytes.fromhex(v['$b'])
    return v


TABLE = {n: {k: _dec(v) for k, v in d.items()} for n, d in _T.items()}
NAMES = list(TABLE)
DECRED = [n for n in NAMES if n.startswith('decred')]
SPROUT = [n for n in NAMES if 'sprout' in n]
OVERWINTER = [n for n in NAMES if 'overwinter' in n]
SAPLING = [n for n in NAMES if 'sapling' in n]
ZCASH = SPROUT + OVERWINTER + SAPLING
BITCOIN = [n for n in NAMES if n not in DECRED and n not in ZCASH]
FORKID = [n for n in BITCOIN if TABLE[n]['FORKID'] is not None]
PLAIN = [n for n in BITCOIN if n not in FORKID]
CASH = [n for n in NAMES if TABLE[n]['CASHADDR_PREFIX']]
BECH = [n for n in NAMES
        if TABLE[n]['SEGWIT'] and TABLE[n]['SEGWIT_ENCODER'] == 'bech32']
B58WIT = [n for n in NAMES
          if TABLE[n]['SEGWIT'] and TABLE[n]['SEGWIT_ENCODER'] == 'base58']
WITNESS = BECH + B58WIT
assert {TABLE[n]['FORKID'] for n in FORKID} == {0, 42, 79}
for _n in NAMES:
    _p, _s = TABLE[_n]['P2PKH_PREFIX'], TABLE[_n]['P2SH_PREFIX']
    assert _p != _s and len(_p) == len(_s), _n


def is_decred(net):
    return net in DECRED


def kinds(net):
    """address kinds of a network: (kind, cash) pairs"""
    k = [('p2pkh', False), ('p2sh', False)]
    if net in CASH:
        k += [('p2pkh', True), ('p2sh', True)]
    if net in WITNESS:
        k += [('p2wpkh', False), ('p2wsh', False)]
    return k


KINDS = {n: kinds(n) for n in NAMES}
SIZE = {'p2pkh': 20, 'p2sh': 20, 'p2wpkh': 20, 'p2wsh': 32}


def address(net, kind, h, cash=False):
    t = TABLE[net]
    if kind in ('p2wpkh', 'p2wsh'):
        assert t['SEGWIT']
        if t['SEGWIT_ENCODER'] == 'bech32':
            return addr.segwit(t['BECH32_HRP'], 0, h)
        pre = t['P2WPKH_PREFIX' if kind == 'p2wpkh' else 'P2WSH_PREFIX']
        return addr.b58check(pre + h, is_decred(net))
    if cash:
        pre = t['CASHADDR_P2PKH' if kind == 'p2pkh' else 'CASHADDR_P2SH']
        return addr.cashaddr(t['CASHADDR_PREFIX'], pre + h)
    pre = t['P2PKH_PREFIX' if kind == 'p2pkh' else 'P2SH_PREFIX']
    return addr.b58check(pre + h, is_decred(net))


def script(kind, h):
    return {'p2pkh': b'\x76\xa9\x14' + h + b'\x88\xac',
            'p2sh': b'\xa9\x14' + h + b'\x87',
            'p2wpkh': b'\x00\x14' + h,
            'p2wsh': b'\x00\x20' + h}[kind]


def classify(net, s):
    """(kind, hash, cash) of a valid address of the network, or None"""
    t = TABLE[net]
    b = addr.unb58check(s, is_decred(net))
    if b is not None:
        if len(b) == len(t['P2PKH_PREFIX']) + 20:
            if b.startswith(t['P2PKH_PREFIX']):
                return 'p2pkh', b[-20:], False
            if b.startswith(t['P2SH_PREFIX']):
                return 'p2sh', b[-20:], False
        if net in B58WIT:
            if len(b) == 22 and b.startswith(t['P2WPKH_PREFIX']):
                return 'p2wpkh', b[2:], False
            if len(b) == 34 and b.startswith(t['P2WSH_PREFIX']):
                return 'p2wsh', b[2:], False
        return None
    if net in BECH:
        r = addr.unsegwit(t['BECH32_HRP'], s)
        if r is not None:
            if r[0] != 0:
                return None
            return ('p2wpkh' if len(r[1]) == 20 else 'p2wsh'), r[1], False
    if net in CASH:
        b = addr.uncashaddr(t['CASHADDR_PREFIX'], s)
        if b is not None and len(b) == 21:
            if b[:1] == t['CASHADDR_P2PKH']:
                return 'p2pkh', b[1:], True
            if b[:1] == t['CASHADDR_P2SH']:
                return 'p2sh', b[1:], True
    return None


def hash160(net, b):
    return hashes.hash160(b, is_decred(net))


def hash256(net, b):
    return hashes.hash256(b, is_decred(net))
