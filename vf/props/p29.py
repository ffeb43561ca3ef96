"""Coins made, spent and signed through the library are accepted by a node.

A case is a history: funding transactions whose outputs are the coins, an
unsigned transaction of some of its inputs and outputs, signatures made in a
drawn order over the library's digests (with ANYONECANPAY the rest of the
inputs, with SINGLE the rest of the outputs, join only after the signature),
script sigs and witnesses attached as each is ready, and perhaps a trip
through bytes between the steps.  The judge is vf.ref.interp, which reads the
final bytes and runs the scripts with its own digests."""
import hashlib

from hypothesis import strategies as st

from vf import gen, lib
from vf.core import Violation, eq, sub
from vf.ref import ec, hashes, interp, nets, wire
import riemann
from riemann import simple, utils
from riemann.encoding import addresses
from riemann.script import examples, serialization
from riemann.tx import tx_builder as tb

FAMILY = {'bitcoin': nets.PLAIN, 'forkid': nets.FORKID,
          'sprout': nets.SPROUT, 'overwinter': nets.OVERWINTER,
          'sapling': nets.SAPLING, 'decred': nets.DECRED}
INNER = ['pk', 'msig', 'htlc', 'refund', 'csv', 'hashlock']

SMALL = st.integers(0, 2 ** 16)


@st.composite
def coin(draw, segwit):
    inner = draw(st.sampled_from(['pkh', 'pkh', 'pkh'] + INNER))
    if inner == 'pkh':
        wrap = draw(st.sampled_from(
            ['bare', 'w', 'w', 'sh-w'] if segwit else ['bare']))
    else:
        wrap = draw(st.sampled_from(
            ['bare', 'sh', 'w', 'sh-w'] if segwit
            else ['bare', 'sh', 'sh', 'sh']))
    # output scripts of over 251 bytes cannot be parsed
    n = draw(st.integers(1, 3 if wrap == 'bare' else 5))
    return {'inner': inner, 'wrap': wrap, 'n': n,
            'm': draw(st.integers(1, n)), 'key': draw(st.integers(0, 9)),
            'full': draw(st.integers(0, 3)) == 0,
            'seed': draw(SMALL), 'val': draw(st.one_of(
                st.integers(546, 10 ** 10), gen.U64)),
            'seq': draw(st.one_of(gen.U32, st.sampled_from(
                [0xffffffff, 0xfffffffe, 0]))),
            'single': draw(gen.COIN), 'acp': draw(gen.COIN),
            'fund': draw(st.integers(0, 2)), 'way': draw(SMALL)}


@st.composite
def cases(draw, family):
    net = draw(gen.net(FAMILY[family]))
    segwit = nets.TABLE[net]['SEGWIT'] and family in ('bitcoin', 'forkid')
    coins = draw(st.lists(coin(segwit), min_size=1, max_size=4))
    outs = draw(st.lists(coin(segwit), min_size=1, max_size=4))
    c = {'net': net, 'family': family, 'coins': coins, 'outs': outs,
         'order': draw(st.permutations(list(range(len(coins))))),
         'early': draw(st.integers(0, 4)), 'early_outs':
         draw(st.integers(0, 4)), 'ver': draw(st.sampled_from([1, 2, 2])),
         'lock': draw(gen.U32), 'expiry': draw(gen.EXPIRY),
         'trip': draw(st.integers(0, 15)), 'make': draw(SMALL),
         'late': draw(st.booleans())}
    if family in gen.ZNETS:
        layout = wire.JS_SAPLING if family == 'sapling' else wire.JS_SPROUT
        c['js'] = draw(st.one_of(st.just([]), st.lists(
            gen.fast_joinsplit(layout), max_size=2)))
    if family == 'sapling':
        c['spends'] = draw(st.one_of(st.just([]), st.lists(
            gen.fast_struct(wire.SPEND), max_size=2)))
        c['souts'] = draw(st.one_of(st.just([]), st.lists(
            gen.fast_struct(wire.OUTPUT), max_size=2)))
        c['balance'] = draw(gen.I64)
    return c


# ------------------------------------------------------------------ scripts

def secret(c):
    return hashlib.sha256(b'%d' % c['seed']).digest()[:1 + c['seed'] % 32]


def keys(c):
    n = c['n'] if c['inner'] == 'msig' else 1
    if c['wrap'] == 'sh-w' or c['wrap'] == 'w' or not c['full']:
        return [(c['key'] + k, ec.pubkey(c['key'] + k)) for k in range(n)]
    return [(c['key'] + k, ec.pubkey(c['key'] + k, k % 2 == 1))
            for k in range(n)]


def timeout(c, lock):
    base = 0 if lock < 500000000 else 500000000
    r = int.from_bytes(hashlib.sha256(b't%d' % c['seed']).digest(), 'big')
    span = lock - base + 1
    return base + [0, lock - base, r % span, r % min(span, 70000)][r >> 254]


def relative(c):
    """(the script's number, the input's sequence) of a relative lock"""
    kind = (c['seed'] & 1) << 22
    have = c['seed'] * 31 % 65536
    return kind | (c['way'] * 17 % (have + 1)), kind | have


def redeem_text(c, lock):
    """The script that guards the coin, as text."""
    pk = [k.hex() for _, k in keys(c)]
    inner = c['inner']
    if inner == 'pk':
        return '%s OP_CHECKSIG' % pk[0]
    if inner == 'msig':
        if c['m'] == 2 and c['n'] == 2:
            return examples.msig_two_two.format(pk0=pk[0], pk1=pk[1])
        return 'OP_%d %s OP_%d OP_CHECKMULTISIG' % (
            c['m'], ' '.join(pk), c['n'])
    if inner in ('htlc', 'refund'):
        mine = utils.hash160(keys(c)[0][1]).hex()
        theirs = hashlib.sha256(b'other').digest()[:20].hex()
        a, b = (mine, theirs) if inner == 'htlc' else (theirs, mine)
        return examples.htlc_redeem_script.format(
            secret_hash=utils.sha256(secret(c)).hex(), pkh0=a, pkh1=b,
            timeout=utils.i2le_script(timeout(c, lock)))
    if inner == 'csv':
        return '%s OP_CHECKSEQUENCEVERIFY OP_DROP %s OP_CHECKSIG' % (
            utils.i2le_script(relative(c)[0]), pk[0])
    return 'OP_HASH160 %s OP_EQUALVERIFY %s OP_CHECKSIG' % (
        utils.hash160(secret(c)).hex(), pk[0])


def stack_text(c, sigs, decred):
    pk = keys(c)[0][1].hex()
    inner = c['inner']
    if inner == 'pkh':
        return examples.p2pkh_script_sig.format(sig=sigs[0], pk=pk)
    if inner in ('pk', 'csv'):
        return sigs[0]
    if inner == 'msig':
        if decred:
            return ' '.join(sigs)
        if len(sigs) == 2:
            return examples.msig_two_two_stack_script.format(
                sig0=sigs[0], sig1=sigs[1])
        return 'OP_0 ' + ' '.join(sigs)
    if inner == 'htlc':       # the examples' OP_TRUE is not an opcode here
        return examples.htlc_stack_script_execute.format(
            sig=sigs[0], pk=pk, secret=secret(c).hex()).replace(
                'OP_TRUE', 'OP_1')
    if inner == 'refund':
        return examples.htlc_stack_script_refund.format(
            sig=sigs[0], pk=pk).replace('OP_FALSE', 'OP_0')
    return '%s %s' % (sigs[0], secret(c).hex())


def stack_items(text):
    """witness items of a stack script"""
    return [{'OP_0': b'', 'OP_1': b'\x01'}.get(w) if w[:3] == 'OP_'
            else bytes.fromhex(w) for w in text.split()]


def program(c, lock):
    """the witness program's output script"""
    if c['inner'] == 'pkh':
        return tb.make_p2wpkh_output_script(keys(c)[0][1])
    return tb.make_p2wsh_output_script(redeem_text(c, lock))


def script_code(c, lock):
    """What the signatures of the coin sign, as the docs ask for it."""
    if c['inner'] == 'pkh':
        return tb.make_p2pkh_output_script(keys(c)[0][1])
    return serialization.serialize(redeem_text(c, lock))


def plain_output(val, spk):
    if 'decred' in riemann.get_current_network_name():
        return lib.dcr_txout({'val': val, 'ver': 0, 'spk': spk})
    return lib.txout({'val': val, 'spk': spk})


def output(c, lock):
    """An output paying the coin, one of several ways."""
    val, inner, wrap, way = c['val'], c['inner'], c['wrap'], c['way'] % 3
    key = keys(c)[0][1]
    if wrap == 'bare':
        if inner == 'pkh':
            if way == 0:
                return tb.make_p2pkh_output(val, key)
            if way == 1:
                return simple.output(val, addresses.make_p2pkh_address(key))
            return simple.output(val, addresses.make_pkh_address(key))
        spk = serialization.serialize(redeem_text(c, lock))
        return plain_output(val, spk)
    if wrap == 'sh':
        text = redeem_text(c, lock)
        if way == 0:
            return tb.make_p2sh_output(val, text)
        if way == 1:
            return simple.output(val, addresses.make_p2sh_address(text))
        return tb.make_sh_output(val, text)
    if wrap == 'w':
        if inner == 'pkh':
            if way == 0:
                return tb.make_p2wpkh_output(val, key)
            if way == 1:
                return simple.output(val, addresses.make_p2wpkh_address(key))
            return tb.make_pkh_output(val, key, witness=True)
        text = redeem_text(c, lock)
        if way == 0:
            return tb.make_p2wsh_output(val, text)
        if way == 1:
            return simple.output(val, addresses.make_p2wsh_address(text))
        return tb.make_sh_output(val, text, witness=True)
    prog = program(c, lock)          # witness program inside P2SH
    if way == 0:
        return tb.make_p2sh_output(val, serialization.deserialize(prog))
    if way == 1:
        return plain_output(val, tb.make_sh_script_pubkey(prog))
    return simple.output(val, addresses.make_p2sh_address(
        serialization.deserialize(prog)))


# ------------------------------------------------------------ transactions

def empty_witness(family, c):
    if family == 'decred':
        return tb.make_decred_witness(
            utils.i2le_padded(c['val'], 8), b'\x00' * 4, b'\xff' * 4, b'',
            b'')
    return tb.make_empty_witness()


def build(h, ins, outs, wits, flagged):
    """An unsigned transaction of the family from its parts."""
    family, way = h['family'], h['make']
    if family == 'decred':
        return tb.make_tx(version=1, tx_ins=ins, tx_outs=outs,
                          lock_time=h['lock'], expiry=h['expiry'],
                          tx_witnesses=wits)
    if family in ('bitcoin', 'forkid'):
        if way % 2:
            f = (simple.unsigned_witness_tx if flagged
                 else simple.unsigned_legacy_tx)
            return f(ins, outs, version=h['ver'], lock_time=h['lock'])
        kw = {'tx_witnesses': wits} if flagged else {}
        return tb.make_tx(h['ver'], ins, outs, h['lock'], **kw)
    kw = {'version': h['ver'], 'lock_time': h['lock'],
          'expiry': h['expiry']}
    if h['js']:
        f = lib.sapling_js if family == 'sapling' else lib.sprout_js
        kw.update(tx_joinsplits=[f(j) for j in h['js']],
                  joinsplit_pubkey=bytes(range(32)),
                  joinsplit_sig=b'\x00' * 64)
    if family == 'sapling' and (h['spends'] or h['souts']):
        kw.update(value_balance=h['balance'],
                  tx_shielded_spends=[lib.spend(s) for s in h['spends']],
                  tx_shielded_outputs=[lib.sout(s) for s in h['souts']],
                  binding_sig=b'\x00' * 64)
    elif h['js'] and way % 2 and family != 'sapling':
        return simple.unsigned_legacy_tx(ins, outs, **kw)
    return tb.make_tx(tx_ins=ins, tx_outs=outs, **kw)


def digest(h, x, i, c, code):
    """The library's digest for input i."""
    family = h['family']
    value = utils.i2le_padded(c['val'], 8)
    name = 'sighash_single' if c['single'] else 'sighash_all'
    if family == 'decred':
        return getattr(x, name)(i, code, anyone_can_pay=c['acp'])
    code = tb.length_prepend(code)
    if family in ('overwinter', 'sapling'):
        return getattr(x, name)(index=i, script_code=code,
                                prevout_value=value,
                                anyone_can_pay=c['acp'])
    if family == 'sprout':
        return getattr(x, name)(i, code, anyone_can_pay=c['acp'])
    if family == 'bitcoin' and c['wrap'] in ('bare', 'sh'):
        # a legacy input, perhaps next to witness inputs
        x = lib.btc.Tx.from_bytes(x.no_witness())
        return getattr(x, name)(i, code, anyone_can_pay=c['acp'])
    return getattr(x, name)(index=i, script=code, prevout_value=value,
                            anyone_can_pay=c['acp'])


def sign(h, x, i, c):
    code = script_code(c, h['lock'])
    d = bytes(digest(h, x, i, c, code))
    word = (3 if c['single'] else 1) | (0x80 if c['acp'] else 0)
    if h['family'] == 'forkid':
        word |= 0x40
    who = keys(c)
    if c['inner'] == 'msig':      # any m of the n, in order
        skip = (c['way'] % (c['n'] - c['m'] + 1))
        who = who[skip:skip + c['m']]
    return [(ec.sign(k, d) + bytes([word])).hex() for k, _ in who]


def attach(h, x, i, c, sigs):
    """The same transaction with input i complete."""
    family, lock, wrap = h['family'], h['lock'], c['wrap']
    text = stack_text(c, sigs, family == 'decred')
    stack, redeem, items = b'', b'', None
    if wrap == 'bare':
        stack = serialization.serialize(text)
    elif wrap == 'sh':
        r = redeem_text(c, lock)
        if c['way'] % 2:
            stack = tb.make_script_sig(text, r)
        else:
            stack = serialization.serialize(text)
            redeem = serialization.serialize(serialization.hex_serialize(r))
    else:
        items = stack_items(text)
        if c['inner'] != 'pkh':
            items.append(serialization.serialize(redeem_text(c, lock)))
        if wrap == 'sh-w':
            prog = program(c, lock)
            redeem = serialization.serialize(prog.hex())
    if family == 'decred':
        wits = list(x.tx_witnesses)
        if c['way'] % 4 < 2:
            wits[i] = wits[i].copy(stack_script=stack, redeem_script=redeem)
        else:
            wits[i] = tb.make_decred_witness(
                utils.i2le_padded(c['val'], 8), b'\x00' * 4, b'\xff' * 4,
                stack, redeem)
        return x.copy(tx_witnesses=wits)
    kw = {}
    if stack or redeem:
        ins = list(x.tx_ins)
        if c['way'] % 4 < 2:
            ins[i] = ins[i].copy(stack_script=stack, redeem_script=redeem)
        else:
            ins[i] = tb.make_legacy_input(
                ins[i].outpoint, stack, redeem,
                utils.le2i(ins[i].sequence))
        kw['tx_ins'] = ins
    if items is not None:
        wits = list(x.tx_witnesses)
        wits[i] = tb.make_witness(items)
        kw['tx_witnesses'] = wits
    return x.copy(**kw)


PARSE = {'bitcoin': lib.btc.Tx, 'forkid': lib.btc.Tx,
         'sprout': lib.spr.SproutTx, 'overwinter': lib.ow.OverwinterTx,
         'sapling': lib.sap.SaplingTx}


def trip(h, x, step):
    """perhaps through bytes"""
    if h['family'] == 'decred' or not h['trip'] >> (step % 4) & 1:
        return x
    cls = PARSE[h['family']]
    if h['make'] % 2 and h['family'] in ('bitcoin', 'forkid'):
        return cls.from_hex(x.hex())
    return cls.from_bytes(x.to_bytes())


def reference_id(family, raw):
    t = (interp.read_decred(raw) if family == 'decred' else None)
    return hashes.blake256(wire.dcr_prefix(t)) if t \
        else hashes.sha256d(raw)


def fund(h):
    """Makes the coins. Returns {i: outpoint} and the node's coins."""
    family, lock = h['family'], h['lock']
    where, coins = {}, {}
    for f in range(3):
        mine = [i for i, c in enumerate(h['coins']) if c['fund'] == f]
        if not mine:
            continue
        o = simple.outpoint('%064x' % (f + 1), f)
        outs = [output(h['coins'][i], lock) for i in mine]
        if family == 'decred':
            x = tb.make_tx(version=1, tx_ins=[simple.unsigned_input(o)],
                           tx_outs=outs, lock_time=0, expiry=0,
                           tx_witnesses=[tb.make_decred_witness(
                               b'\x00' * 8, b'\x00' * 4, b'\x00' * 4, b'',
                               b'')])
        else:
            x = simple.unsigned_legacy_tx([simple.unsigned_input(o)], outs)
        raw = x.to_bytes()
        t = interp.READ[family](raw)
        txid = reference_id(family, raw)
        for k, i in enumerate(mine):
            where[i] = simple.outpoint(x.tx_id.hex(), k)
            coins[(txid, k)] = (t['outs'][k]['val'], t['outs'][k]['spk'])
            eq(t['outs'][k]['val'], h['coins'][i]['val'], 'a coin\'s value')
    return where, coins


def plan(h):
    """Makes the drawn history a possible one."""
    h = dict(h)
    n = len(h['coins'])
    coins = [dict(c) for c in h['coins']]
    fam = h['family']
    shielded = bool(h.get('js'))
    if fam == 'sprout' and shielded:
        h['ver'] = 2
    early = min(n, h['early']) or n
    outs = min(len(h['outs']), h['early_outs']) or len(h['outs'])
    if fam == 'sprout' and shielded:
        early, outs = n, len(h['outs'])
    for i, c in enumerate(coins):
        if fam == 'sprout' and shielded:
            c['single'] = c['acp'] = False
        if c['single'] and i >= len(h['outs']):
            c['single'] = False
        if c['inner'] == 'refund' and c['seq'] == 0xffffffff:
            c['seq'] = 0xfffffffe
        if c['inner'] == 'csv':
            c['seq'] = relative(c)[1]
            if fam in ('bitcoin', 'forkid'):
                h['ver'] = 2
            else:              # no relative locks outside Bitcoin's chains
                c['inner'] = 'pk'
    # who signs early: those whose digests allow the rest to join later
    signs = []
    if early < n or outs < len(h['outs']):
        for i in h['order']:
            c = coins[i]
            if i < early and (c['acp'] or early == n) and (
                    outs == len(h['outs']) or (c['single'] and i < outs)):
                signs.append(i)
    if not signs:
        early, outs = n, len(h['outs'])
    h.update(coins=coins, early=early, early_outs=outs, signs=signs)
    return h


def play(h, info):
    """Runs the history on the library; gives the final transaction."""
    where, coins = fund(h)
    lock = h['lock']
    n = len(h['coins'])
    flagged = any(c['wrap'] in ('w', 'sh-w') for c in h['coins'])
    ins = []
    for i, c in enumerate(h['coins']):
        if c['seq'] == 0xfffffffe and c['way'] % 2:
            ins.append(simple.unsigned_input(where[i]))
        elif c['way'] % 3:
            ins.append(simple.unsigned_input(where[i], c['seq']))
        else:
            ins.append(tb.make_witness_input(where[i], c['seq']))
    outs = [output(o, lock) for o in h['outs']]
    wits = [empty_witness(h['family'], c) for c in h['coins']]
    early = h['early']
    x = build(h, ins[:early], outs[:h['early_outs']], wits[:early], flagged)
    held = []
    for step, i in enumerate(h['signs']):
        sigs = sign(h, x, i, h['coins'][i])
        if h['late']:
            held.append((i, sigs))
        else:
            x = attach(h, x, i, h['coins'][i], sigs)
        x = trip(h, x, step)
    if early < n or h['early_outs'] < len(outs):
        info.label('joined')
        kw = {'tx_ins': list(x.tx_ins) + ins[early:],
              'tx_outs': list(x.tx_outs) + outs[h['early_outs']:]}
        if flagged or h['family'] == 'decred':
            kw['tx_witnesses'] = list(x.tx_witnesses) + wits[early:]
        x = x.copy(**kw)
    for step, i in enumerate(h['order']):
        if i not in h['signs']:
            sigs = sign(h, x, i, h['coins'][i])
            if h['late']:
                held.append((i, sigs))
            else:
                x = attach(h, x, i, h['coins'][i], sigs)
            x = trip(h, x, step + 1)
    for i, sigs in held:
        x = attach(h, x, i, h['coins'][i], sigs)
    if h.get('js'):
        x = x.copy(joinsplit_sig=bytes(range(64)))
    if h.get('spends') or h.get('souts'):
        x = x.copy(binding_sig=bytes(range(64, 128)))
    return x, coins


def judge(h, info):
    family = h['family']
    lib.select(h['net'])
    h = plan(h)
    x, coins = play(h, info)
    t = node(h, x.to_bytes(), coins)
    # the transaction the history describes
    eq(len(t['ins']), len(h['coins']), 'inputs')
    eq([o['val'] for o in t['outs']], [o['val'] for o in h['outs']],
       'values paid')
    eq([i['seq'] for i in t['ins']], [c['seq'] for c in h['coins']],
       'sequences')
    eq(t['lock'], h['lock'], 'the lock time')
    if family in ('bitcoin', 'forkid', 'decred') or not (
            h.get('js') or h.get('spends') or h.get('souts')):
        fee = sum(c['val'] for c in h['coins']) - sum(
            o['val'] for o in h['outs'])
        eq(x.calculate_fee() if family == 'decred'
           else x.calculate_fee([c['val'] for c in h['coins']]), fee,
           'the fee')
    for c in h['coins']:
        info.label('%s %s' % (c['wrap'], c['inner']))
    info.nt(len(h['coins']) > 1 or h['coins'][0]['wrap'] != 'bare')


def node(h, raw, coins):
    try:
        return interp.accept(
            h['family'], raw, coins, nets.TABLE[h['net']]['FORKID'],
            nets.TABLE[h['net']]['SEGWIT'])
    except interp.Reject as e:
        raise Violation('a node refuses the spend: %s (%s)' % (e, raw.hex()),
                        'refused: %s' % e)


RULE = 'two inputs, or one guarded by a script or a witness program'


def every(family):
    """each kind of coin once, alone and next to another"""
    def f(tier):
        net = FAMILY[family][0]
        segwit = [n for n in FAMILY[family] if nets.TABLE[n]['SEGWIT']
                  and family in ('bitcoin', 'forkid')]
        for inner in ['pkh'] + INNER:
            wraps = ['bare'] + (['sh'] if inner != 'pkh' else [])
            for wrap in wraps + (['w', 'sh-w'] if segwit else []):
                n = segwit[0] if segwit else net
                a = {'inner': inner, 'wrap': wrap, 'n': 3, 'm': 2, 'key': 1,
                     'full': False, 'seed': 9, 'val': 100000,
                     'seq': 0xfffffffe, 'single': False, 'acp': False,
                     'fund': 0, 'way': 0}
                b = dict(a, inner='pkh', wrap='bare', acp=True, single=True,
                         way=1)
                for coins in ([a], [b, a]):
                    h = {'net': n, 'family': family, 'coins': coins,
                         'outs': [b, b], 'order': list(range(len(coins))),
                         'early': 1, 'early_outs': 1, 'ver': 2, 'lock': 9999,
                         'expiry': 0, 'trip': 0, 'make': 0, 'late': False,
                         'js': [], 'spends': [], 'souts': [], 'balance': 0}
                    yield h
    return f


def _register(family, quick):
    @sub('P29', family, cases(family), quick, rule=RULE,
         enum=every(family))
    def check(h, info):
        judge(h, info)
    return check


for _f, _q in (('bitcoin', 1200), ('forkid', 600), ('sprout', 500),
               ('overwinter', 500), ('sapling', 500), ('decred', 600)):
    _register(_f, _q)
