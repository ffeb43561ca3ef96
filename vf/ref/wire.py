"""Wire formats, written from the protocol documentation: Bitcoin and BIP144,
Zcash (Sprout, Overwinter ZIP202, Sapling ZIP243 section), Decred (dcrd wire).

Everything is plain data:
 input   {txid, idx, stack, redeem, seq}     (bytes, int, bytes, bytes, int)
 output  {val, spk}                          (Decred: also ver)
 tx      {ver, flag, ins, outs, wits, lock}  (wits: None or list of stacks)
"""
from vf.ref import hashes


def le(n, size):
    return n.to_bytes(size, 'little')


class _Hook(object):
    count = None       # counts the calls of cs when a number
    at = size = None


def cs(n):
    """CompactSize"""
    if _Hook.count is not None:
        _Hook.count += 1
        if _Hook.count == _Hook.at:
            return _long_cs(n, _Hook.size)
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + le(n, 2)
    if n <= 0xffffffff:
        return b'\xfe' + le(n, 4)
    return b'\xff' + le(n, 8)


def _long_cs(n, size):
    """the form of 3, 5 or 9 bytes, needed or not"""
    need = 3 if n <= 0xffff else 5 if n <= 0xffffffff else 9
    size = max(size, need)
    return bytes([{3: 0xfd, 5: 0xfe, 9: 0xff}[size]]) + le(n, size - 1)


def widened(f, at, size):
    """f() with its at-th length prefix written in `size` bytes; also tells
    how many prefixes there are"""
    _Hook.count, _Hook.at, _Hook.size = 0, at, size
    try:
        return f(), _Hook.count
    finally:
        _Hook.count = None


def read_cs(b):
    """(value, bytes used) of the CompactSize at the front, or None"""
    if not b:
        return None
    size = {0xfd: 2, 0xfe: 4, 0xff: 8}.get(b[0])
    if size is None:
        return b[0], 1
    if len(b) < 1 + size:
        return None
    return int.from_bytes(b[1:1 + size], 'little'), 1 + size


def pref(b):
    return cs(len(b)) + b


# ------------------------------------------------------------------ Bitcoin

def outpoint(i):
    return i['txid'] + le(i['idx'], 4)


def txin(i):
    return outpoint(i) + pref(i['stack'] + i['redeem']) + le(i['seq'], 4)


def txout(o):
    return le(o['val'], 8) + pref(o['spk'])


def stack(items):
    return cs(len(items)) + b''.join(pref(x) for x in items)


def vec(items):
    return cs(len(items)) + b''.join(items)


def tx_base(t):
    return (le(t['ver'], 4) + vec([txin(i) for i in t['ins']])
            + vec([txout(o) for o in t['outs']]) + le(t['lock'], 4))


def tx(t):
    if not t['flag']:
        return tx_base(t)
    return (le(t['ver'], 4) + b'\x00\x01' + vec([txin(i) for i in t['ins']])
            + vec([txout(o) for o in t['outs']])
            + b''.join(stack(w) for w in (t['wits'] or []))
            + le(t['lock'], 4))


def txid(t):
    return hashes.sha256d(tx_base(t))


def wtxid(t):
    return hashes.sha256d(tx(t))


# ------------------------------------------------------------------ Zcash

ZK_SPROUT = [('pi_sub_a', 33), ('pi_prime_sub_a', 33), ('pi_sub_b', 65),
             ('pi_prime_sub_b', 33), ('pi_sub_c', 33), ('pi_prime_sub_c', 33),
             ('pi_sub_k', 33), ('pi_sub_h', 33)]
ZK_SAPLING = [('pi_sub_a', 48), ('pi_sub_b', 96), ('pi_sub_c', 48)]


def _js(zk):
    return [('vpub_old', 8), ('vpub_new', 8), ('anchor', 32),
            ('nullifiers', 64), ('commitments', 64), ('ephemeral_key', 32),
            ('random_seed', 32), ('vmacs', 64), ('zkproof', zk),
            ('encoded_notes', 1202)]


JS_SPROUT = _js(ZK_SPROUT)
JS_SAPLING = _js(ZK_SAPLING)
SPEND = [('cv', 32), ('anchor', 32), ('nullifier', 32), ('rk', 32),
         ('zkproof', ZK_SAPLING), ('spend_auth_sig', 64)]
OUTPUT = [('cv', 32), ('cmu', 32), ('ephemeral_key', 32),
          ('enc_ciphertext', 580), ('out_ciphertext', 80),
          ('zkproof', ZK_SAPLING)]


def layout_size(layout):
    return sum(layout_size(n) if isinstance(n, list) else n
               for _, n in layout)


def struct(layout, d):
    out = b''
    for name, n in layout:
        if isinstance(n, list):
            out += struct(n, d[name])
        else:
            assert len(d[name]) == n, (name, len(d[name]))
            out += d[name]
    return out


def split(layout, b):
    """the inverse of struct"""
    d, i = {}, 0
    for name, n in layout:
        if isinstance(n, list):
            size = layout_size(n)
            d[name] = split(n, b[i:i + size])
        else:
            size = n
            d[name] = b[i:i + n]
        i += size
    return d


assert layout_size(JS_SPROUT) == 1802 and layout_size(JS_SAPLING) == 1698
assert layout_size(SPEND) == 384 and layout_size(OUTPUT) == 948


def sprout(t):
    """t: {ver, ins, outs, lock, js, pubkey, sig}"""
    b = tx_base(t)
    if t['ver'] == 2:
        b += vec([struct(JS_SPROUT, j) for j in t['js']])
        if t['js']:
            b += t['pubkey'] + t['sig']
    return b


def overwinter(t):
    """t: {ins, outs, lock, expiry, js, pubkey, sig}"""
    b = bytes.fromhex('030000807082c403')
    b += vec([txin(i) for i in t['ins']]) + vec([txout(o) for o in t['outs']])
    b += le(t['lock'], 4) + le(t['expiry'], 4)
    b += vec([struct(JS_SPROUT, j) for j in t['js']])
    if t['js']:
        b += t['pubkey'] + t['sig']
    return b


def sapling(t):
    """t: as overwinter and {balance (signed), spends, souts, binding}"""
    b = bytes.fromhex('0400008085202f89')
    b += vec([txin(i) for i in t['ins']]) + vec([txout(o) for o in t['outs']])
    b += le(t['lock'], 4) + le(t['expiry'], 4)
    b += t['balance'].to_bytes(8, 'little', signed=True)
    b += vec([struct(SPEND, s) for s in t['spends']])
    b += vec([struct(OUTPUT, s) for s in t['souts']])
    b += vec([struct(JS_SAPLING, j) for j in t['js']])
    if t['js']:
        b += t['pubkey'] + t['sig']
    if t['spends'] or t['souts']:
        b += t['binding']
    return b


def zcash(kind, t):
    return {'sprout': sprout, 'overwinter': overwinter,
            'sapling': sapling}[kind](t)


def hsig(js, pubkey):
    return hashes.blake2b_256(
        b'ZcashComputehSig', js['random_seed'] + js['nullifiers'] + pubkey)


def primary_input(js, pubkey):
    return (js['anchor'] + js['nullifiers'] + js['commitments']
            + js['vpub_old'] + js['vpub_new'] + hsig(js, pubkey)
            + js['vmacs'])


# ------------------------------------------------------------------ Decred

def dcr_outpoint(i):
    return i['txid'] + le(i['idx'], 4) + le(i['tree'], 1)


def dcr_txin(i):
    return dcr_outpoint(i) + le(i['seq'], 4)


def dcr_txout(o):
    return le(o['val'], 8) + le(o['ver'], 2) + pref(o['spk'])


def dcr_wit(w):
    return (le(w['val'], 8) + le(w['height'], 4) + le(w['index'], 4)
            + pref(w['stack'] + w['redeem']))


def dcr_body(t):
    return (vec([dcr_txin(i) for i in t['ins']])
            + vec([dcr_txout(o) for o in t['outs']])
            + le(t['lock'], 4) + le(t['expiry'], 4))


def dcr_prefix(t):
    return le(t['ver'], 2) + b'\x01\x00' + dcr_body(t)


def dcr_witness(t):
    return le(t['ver'], 2) + b'\x02\x00' + vec([dcr_wit(w) for w in t['wits']])


def dcr_witness_signing(t):
    return le(t['ver'], 2) + b'\x03\x00' + vec(
        [pref(w['stack'] + w['redeem']) for w in t['wits']])


def dcr_full(t):
    return (le(t['ver'], 2) + le(t['sertype'], 2) + dcr_body(t)
            + vec([dcr_wit(w) for w in t['wits']]))


def dcr_txid(t):
    return hashes.blake256(dcr_prefix(t))
