"""Builds the library's objects from plain data, through its public API."""
import riemann
from riemann import tx as _tx
from riemann.tx import decred as dcr
from riemann.tx import overwinter as ow
from riemann.tx import sapling as sap
from riemann.tx import shared
from riemann.tx import sprout as spr
from riemann.tx import tx as btc
from riemann.tx import zcash_shared as zs

from vf.ref.wire import le

assert _tx


def select(net):
    riemann.select_network(net)


def outpoint(i):
    return btc.Outpoint(tx_id=i['txid'], index=le(i['idx'], 4))


def txin(i):
    return btc.TxIn(outpoint=outpoint(i), stack_script=i['stack'],
                    redeem_script=i['redeem'], sequence=le(i['seq'], 4))


def txout(o):
    return btc.TxOut(value=le(o['val'], 8), output_script=o['spk'])


def witness(items):
    return btc.InputWitness([btc.WitnessStackItem(x) for x in items])


def each(make, parts, t):
    """An object for each part; for every other transaction, equal parts are
    one object, as in [x] * 2."""
    if t['lock'] % 2:
        return [make(p) for p in parts]
    made = []
    for k, p in enumerate(parts):
        j = parts.index(p)
        made.append(made[j] if j < k else make(p))
    return made


def tx(t):
    return btc.Tx(
        version=le(t['ver'], 4), flag=b'\x00\x01' if t['flag'] else None,
        tx_ins=each(txin, t['ins'], t),
        tx_outs=each(txout, t['outs'], t),
        tx_witnesses=(None if t['wits'] is None
                      else each(witness, t['wits'], t)),
        lock_time=le(t['lock'], 4))


def _build(cls, zk, d):
    kw = dict(d)
    if 'zkproof' in kw:
        kw['zkproof'] = zk(**kw['zkproof'])
    return cls(**kw)


def sprout_js(d):
    return _build(zs.SproutJoinsplit, zs.SproutZkproof, d)


def sapling_js(d):
    return _build(sap.SaplingJoinsplit, sap.SaplingZkproof, d)


def spend(d):
    return _build(sap.SaplingShieldedSpend, sap.SaplingZkproof, d)


def sout(d):
    return _build(sap.SaplingShieldedOutput, sap.SaplingZkproof, d)


def zcash(kind, t):
    ins = each(txin, t['ins'], t)
    outs = each(txout, t['outs'], t)
    if kind == 'sprout':
        return spr.SproutTx(
            version=le(t['ver'], 4), tx_ins=ins, tx_outs=outs,
            lock_time=le(t['lock'], 4),
            tx_joinsplits=each(sprout_js, t['js'], t),
            joinsplit_pubkey=t['pubkey'], joinsplit_sig=t['sig'])
    if kind == 'overwinter':
        return ow.OverwinterTx(
            tx_ins=ins, tx_outs=outs, lock_time=le(t['lock'], 4),
            expiry_height=le(t['expiry'], 4),
            tx_joinsplits=each(sprout_js, t['js'], t),
            joinsplit_pubkey=t['pubkey'], joinsplit_sig=t['sig'])
    return sap.SaplingTx(
        tx_ins=ins, tx_outs=outs, lock_time=le(t['lock'], 4),
        expiry_height=le(t['expiry'], 4),
        value_balance=t['balance'].to_bytes(8, 'little', signed=True),
        tx_shielded_spends=each(spend, t['spends'], t),
        tx_shielded_outputs=each(sout, t['souts'], t),
        tx_joinsplits=each(sapling_js, t['js'], t),
        joinsplit_pubkey=t['pubkey'], joinsplit_sig=t['sig'],
        binding_sig=t['binding'])


ZCLASS = {'sprout': spr.SproutTx, 'overwinter': ow.OverwinterTx,
          'sapling': sap.SaplingTx}


def dcr_outpoint(i):
    return dcr.DecredOutpoint(tx_id=i['txid'], index=le(i['idx'], 4),
                              tree=le(i['tree'], 1))


def dcr_txin(i):
    return dcr.DecredTxIn(outpoint=dcr_outpoint(i), sequence=le(i['seq'], 4))


def dcr_txout(o):
    return dcr.DecredTxOut(value=le(o['val'], 8), version=le(o['ver'], 2),
                           output_script=o['spk'])


def dcr_wit(w):
    return dcr.DecredInputWitness(
        value=le(w['val'], 8), height=le(w['height'], 4),
        index=le(w['index'], 4), stack_script=w['stack'],
        redeem_script=w['redeem'])


def decred(t):
    return dcr.DecredTx(
        version=le(t['ver'], 2) + le(t['sertype'], 2),
        tx_ins=each(dcr_txin, t['ins'], t),
        tx_outs=each(dcr_txout, t['outs'], t),
        lock_time=le(t['lock'], 4), expiry=le(t['expiry'], 4),
        tx_witnesses=each(dcr_wit, t['wits'], t))


# ------------------------------------------------- reading objects back

def b(x):
    """bytes of a library field"""
    if isinstance(x, shared.ByteData):
        return x.to_bytes()
    return bytes(x)


def n(x):
    return int.from_bytes(b(x), 'little')


def un_txin(i):
    return {'txid': b(i.outpoint.tx_id), 'idx': n(i.outpoint.index),
            'script': b(i.script_sig), 'seq': n(i.sequence)}


def un_txout(o):
    return {'val': n(o.value), 'spk': b(o.output_script)}


def un_tx(x):
    wits = [[b(s.item) for s in w.stack] for w in (x.tx_witnesses or [])]
    return {'ver': n(x.version), 'flag': x.flag is not None,
            'ins': [un_txin(i) for i in x.tx_ins],
            'outs': [un_txout(o) for o in x.tx_outs],
            'wits': wits, 'lock': n(x.lock_time)}


def want_tx(t):
    """what un_tx must give for the plain transaction t"""
    return {'ver': t['ver'], 'flag': t['flag'],
            'ins': [{'txid': i['txid'], 'idx': i['idx'],
                     'script': i['stack'] + i['redeem'], 'seq': i['seq']}
                    for i in t['ins']],
            'outs': [{'val': o['val'], 'spk': o['spk']} for o in t['outs']],
            'wits': t['wits'] or [], 'lock': t['lock']}


def un_struct(layout, x):
    d = {}
    for name, size in layout:
        v = getattr(x, name)
        d[name] = un_struct(size, v) if isinstance(size, list) else b(v)
    return d


def un_zcash(kind, x):
    from vf.ref import wire
    d = {'ins': [un_txin(i) for i in x.tx_ins],
         'outs': [un_txout(o) for o in x.tx_outs], 'lock': n(x.lock_time)}
    jl = wire.JS_SAPLING if kind == 'sapling' else wire.JS_SPROUT
    d['js'] = [un_struct(jl, j) for j in x.tx_joinsplits]
    d['pubkey'] = None if x.joinsplit_pubkey is None else b(
        x.joinsplit_pubkey)
    d['sig'] = None if x.joinsplit_sig is None else b(x.joinsplit_sig)
    if kind == 'sprout':
        d['ver'] = n(x.version)
    else:
        d['expiry'] = n(x.expiry_height)
    if kind == 'sapling':
        d['spends'] = [un_struct(wire.SPEND, s)
                       for s in x.tx_shielded_spends]
        d['souts'] = [un_struct(wire.OUTPUT, s)
                      for s in x.tx_shielded_outputs]
        d['balance'] = int.from_bytes(b(x.value_balance), 'little',
                                      signed=True)
        d['binding'] = None if x.binding_sig is None else b(x.binding_sig)
    return d


def want_zcash(t):
    d = dict(t)
    d['ins'] = [{'txid': i['txid'], 'idx': i['idx'],
                 'script': i['stack'] + i['redeem'], 'seq': i['seq']}
                for i in t['ins']]
    return d


def twice(obj, via, parser=None, make=None):
    """The same transaction, made the way `via` says."""
    if via == 'parsed' and parser is not None:
        try:
            return parser(obj.to_bytes())
        except NotImplementedError:      # output scripts over 251 bytes
            return obj
    if via == 'copied':
        return obj.copy()
    return obj


def parsed(parse, arg, t):
    """what the library parses; None if it may leave that to others"""
    from vf.gen import is_long
    try:
        return parse(arg)
    except NotImplementedError:
        if not is_long(t):
            raise
        return None


def lp(script):
    """length-prepended, as the digests of the library want scripts"""
    from vf.ref.wire import pref
    return pref(script)
