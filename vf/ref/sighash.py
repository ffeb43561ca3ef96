"""Signature digests, written from the documents that define them."""
from vf.ref import hashes
from vf.ref.wire import (le, cs, pref, vec, outpoint, txin, txout, struct,
                         JS_SPROUT, JS_SAPLING, SPEND, OUTPUT, dcr_outpoint,
                         dcr_txout)

ALL, NONE, SINGLE, FORKID, ACP = 1, 2, 3, 0x40, 0x80


class Refused(Exception):
    """The digest is not defined, or the library documents a refusal."""


def legacy_preimage(t, index, script, hashtype, acp, tail=b''):
    """The original SignatureHash, transcribed from its description: `script`
    is the bare script code; `tail` is what follows the lock time (Sprout)."""
    if index >= len(t['ins']):
        raise Refused()
    if hashtype == SINGLE and index >= len(t['outs']):
        raise Refused()
    ins = []
    for n, i in enumerate(t['ins']):
        if acp and n != index:
            continue
        signed = n == index
        seq = i['seq']
        if not signed and hashtype in (SINGLE, NONE):
            seq = 0
        ins.append(outpoint(i) + pref(script if signed else b'')
                   + le(seq, 4))
    if hashtype == ALL:
        outs = [txout(o) for o in t['outs']]
    elif hashtype == SINGLE:
        outs = [b'\xff' * 8 + b'\x00'] * index + [txout(t['outs'][index])]
    else:
        outs = []
    return (le(t['ver'], 4) + vec(ins) + vec(outs) + le(t['lock'], 4) + tail
            + le(hashtype | (ACP if acp else 0), 4))


def legacy(t, index, script, hashtype, acp, tail=b''):
    return hashes.sha256d(
        legacy_preimage(t, index, script, hashtype, acp, tail))


def bip143(t, index, script, value, hashtype, acp, forkid=None):
    """BIP143, and with `forkid` the replay-protected variant.  An index
    beyond the outputs with SINGLE is refused, as the library documents."""
    H = hashes.sha256d
    if index >= len(t['ins']):
        raise Refused()
    if hashtype == SINGLE and index >= len(t['outs']):
        raise Refused()
    zero = bytes(32)
    prevouts = zero if acp else H(b''.join(outpoint(i) for i in t['ins']))
    sequence = zero
    if not acp and hashtype == ALL:
        sequence = H(b''.join(le(i['seq'], 4) for i in t['ins']))
    if hashtype == ALL:
        outputs = H(b''.join(txout(o) for o in t['outs']))
    elif hashtype == SINGLE:
        outputs = H(txout(t['outs'][index]))
    else:
        outputs = zero
    word = hashtype | (ACP if acp else 0)
    if forkid is not None:
        word |= FORKID | (forkid << 8)
    i = t['ins'][index]
    return H(le(t['ver'], 4) + prevouts + sequence + outpoint(i)
             + pref(script) + le(value, 8) + le(i['seq'], 4) + outputs
             + le(t['lock'], 4) + le(word, 4))


def sprout(t, index, script, hashtype, acp):
    """Sprout: the original digest over the transaction with its joinsplits
    and their key, and a zeroed joinsplit signature."""
    if t['js'] and (acp or hashtype != ALL):
        raise Refused()
    tail = b''
    if t['ver'] == 2:
        tail = vec([struct(JS_SPROUT, j) for j in t['js']])
        if t['js']:
            tail += t['pubkey'] + bytes(64)
    if not t['ins']:
        if hashtype != ALL or acp:
            raise Refused()
        return hashes.sha256d(
            le(t['ver'], 4) + vec([]) + vec([txout(o) for o in t['outs']])
            + le(t['lock'], 4) + tail + le(hashtype, 4))
    return legacy(t, index, script, hashtype, acp, tail)


def _zip_common(t, index, hashtype, acp, header, js_layout):
    B = hashes.blake2b_256
    zero = bytes(32)
    if hashtype == SINGLE and index >= len(t['outs']):
        raise Refused()
    prevouts = zero if acp else B(
        b'ZcashPrevoutHash', b''.join(outpoint(i) for i in t['ins']))
    sequence = zero
    if not acp and hashtype == ALL:
        sequence = B(b'ZcashSequencHash',
                     b''.join(le(i['seq'], 4) for i in t['ins']))
    if hashtype == ALL:
        outputs = B(b'ZcashOutputsHash',
                    b''.join(txout(o) for o in t['outs']))
    elif hashtype == SINGLE:
        outputs = B(b'ZcashOutputsHash', txout(t['outs'][index]))
    else:
        outputs = zero
    js = zero
    if t['js']:
        js = B(b'ZcashJSplitsHash',
               b''.join(struct(js_layout, j) for j in t['js']) + t['pubkey'])
    return header + prevouts + sequence + outputs + js


def _zip_input(t, index, script, value):
    if index >= len(t['ins']):
        raise Refused()
    i = t['ins'][index]
    return outpoint(i) + pref(script) + le(value, 8) + le(i['seq'], 4)


def zip143(t, index, script, value, hashtype, acp, joinsplit):
    b = _zip_common(t, index, hashtype, acp,
                    bytes.fromhex('030000807082c403'), JS_SPROUT)
    b += le(t['lock'], 4) + le(t['expiry'], 4)
    b += le(hashtype | (ACP if acp else 0), 4)
    if not joinsplit:
        b += _zip_input(t, index, script, value)
    return hashes.blake2b_256(
        b'ZcashSigHash' + bytes.fromhex('191ba85b'), b)


def zip243(t, index, script, value, hashtype, acp, joinsplit):
    B = hashes.blake2b_256
    b = _zip_common(t, index, hashtype, acp,
                    bytes.fromhex('0400008085202f89'), JS_SAPLING)
    b += bytes(32) if not t['spends'] else B(
        b'ZcashSSpendsHash',
        b''.join(struct(SPEND[:-1], s) for s in t['spends']))
    b += bytes(32) if not t['souts'] else B(
        b'ZcashSOutputHash',
        b''.join(struct(OUTPUT, s) for s in t['souts']))
    b += le(t['lock'], 4) + le(t['expiry'], 4)
    b += t['balance'].to_bytes(8, 'little', signed=True)
    b += le(hashtype | (ACP if acp else 0), 4)
    if not joinsplit:
        b += _zip_input(t, index, script, value)
    return hashes.blake2b_256(
        b'ZcashSigHash' + bytes.fromhex('bb09b876'), b)


def decred(t, index, script, hashtype, acp):
    """dcrd's calcSignatureHash"""
    if index >= len(t['ins']):
        raise Refused()
    if hashtype == SINGLE and index >= len(t['outs']):
        raise Refused()
    keep = [(n, i) for n, i in enumerate(t['ins']) if not acp or n == index]
    ins = [dcr_outpoint(i)
           + le(0 if hashtype in (SINGLE, NONE) and n != index
                else i['seq'], 4) for n, i in keep]
    if hashtype == ALL:
        outs = [dcr_txout(o) for o in t['outs']]
    elif hashtype == SINGLE:
        outs = [b'\xff' * 8 + le(o['ver'], 2) + b'\x00'
                for o in t['outs'][:index]] + [dcr_txout(t['outs'][index])]
    else:
        outs = []
    prefix = (le(t['ver'], 2) + b'\x01\x00' + vec(ins) + vec(outs)
              + le(t['lock'], 4) + le(t['expiry'], 4))
    wit = (le(t['ver'], 2) + b'\x03\x00' + cs(len(keep))
           + b''.join(pref(script if n == index else b'') for n, _ in keep))
    return hashes.blake256(
        le(hashtype | (ACP if acp else 0), 4)
        + hashes.blake256(prefix) + hashes.blake256(wit))


__all__ = ['legacy', 'bip143', 'sprout', 'zip143', 'zip243', 'decred',
           'Refused', 'ALL', 'NONE', 'SINGLE', 'txin']
