"""Builder helpers."""
from hypothesis import strategies as st

from vf import gen, lib
from vf.core import eq, ok, refuses, sub
from vf.ref import nets, script as rs, wire
from vf.ref.wire import le
from riemann import simple
from riemann.tx import tx_builder as tb

ANY = gen.net(nets.NAMES)
FAMILIES = {'decred': nets.DECRED, 'sprout': nets.SPROUT,
            'overwinter': nets.OVERWINTER, 'sapling': nets.SAPLING,
            'bitcoin': nets.BITCOIN}


def wire_out(net, val, spk):
    if nets.is_decred(net):
        return wire.dcr_txout({'val': val, 'ver': 0, 'spk': spk})
    return wire.txout({'val': val, 'spk': spk})


def out_class(net):
    return lib.dcr.DecredTxOut if nets.is_decred(net) else lib.btc.TxOut


def check_out(net, o, val, spk, what):
    eq(o, wire_out(net, val, spk), what)
    ok(type(o) is out_class(net), '%s is a %s' % (what, type(o).__name__))
    eq(lib.n(o.value), val, what + ': value')
    eq(o.output_script, spk, what + ': script')


def witness_ok(net):
    return nets.TABLE[net]['SEGWIT']


def no_witness(net, fs):
    for f, what in fs:
        refuses(f, what + ' on a network without witness scripts')


# ----------------------------------------------------------------- outputs

@st.composite
def sh_cases(draw):
    net = draw(ANY)
    return {'net': net, 'val': draw(gen.U64),
            'toks': draw(gen.tokens(nets.is_decred(net), 6))}


@sub('P22', 'sh', sh_cases(), 1500, rule='the script is not empty',
     enum=lambda tier: [{'net': n, 'val': 1, 'toks': ['OP_1']}
                        for n in nets.NAMES])
def check_sh(c, info):
    """Outputs to scripts."""
    lib.select(c['net'])
    net, val = c['net'], c['val']
    text = gen.text(c['toks'])
    raw = rs.assemble(c['toks'], nets.is_decred(net))
    info.nt(raw)
    spk = nets.script('p2sh', nets.hash160(net, raw))
    eq(tb.make_sh_script_pubkey(raw), spk, 'make_sh_script_pubkey')
    eq(tb.make_sh_script_pubkey(script_bytes=bytearray(raw), witness=False),
       spk, 'make_sh_script_pubkey by name')
    eq(tb.make_sh_output_script(text), spk, 'make_sh_output_script')
    eq(tb.make_sh_output_script(script_string=text, witness=False), spk,
       'make_sh_output_script by name')
    eq(tb.make_p2sh_output_script(text), spk, 'make_p2sh_output_script')
    check_out(net, tb.make_sh_output(val, text), val, spk, 'make_sh_output')
    check_out(net, tb.make_p2sh_output(value=val, output_script=text), val,
              spk, 'make_p2sh_output')
    if not witness_ok(net):
        info.label('no witness')
        return no_witness(net, [
            (lambda: tb.make_sh_output_script(text, True),
             'make_sh_output_script'),
            (lambda: tb.make_p2wsh_output_script(text),
             'make_p2wsh_output_script'),
            (lambda: tb.make_sh_output(val, text, True), 'make_sh_output'),
            (lambda: tb.make_p2wsh_output(val, text), 'make_p2wsh_output')])
    spk = nets.script('p2wsh', nets.hashes.sha256(raw))
    eq(tb.make_sh_script_pubkey(raw, True), spk,
       'make_sh_script_pubkey witness')
    eq(tb.make_sh_output_script(text, witness=True), spk,
       'make_sh_output_script witness')
    eq(tb.make_p2wsh_output_script(text), spk, 'make_p2wsh_output_script')
    check_out(net, tb.make_sh_output(val, text, witness=True), val, spk,
              'make_sh_output witness')
    check_out(net, tb.make_p2wsh_output(val, text), val, spk,
              'make_p2wsh_output')


@sub('P22', 'pkh', st.fixed_dictionaries({
    'net': ANY, 'val': gen.U64, 'key': gen.PUBKEY, 'arr': st.booleans()}),
    1500, rule='a network with witness scripts or its own hash',
    enum=lambda tier: [{'net': n, 'val': 1, 'key': b'\x03' + bytes(32),
                        'arr': False} for n in nets.NAMES])
def check_pkh(c, info):
    """Outputs to keys."""
    lib.select(c['net'])
    net, val = c['net'], c['val']
    key = bytearray(c['key']) if c['arr'] else c['key']
    h = nets.hash160(net, c['key'])
    info.nt(witness_ok(net) or nets.is_decred(net))
    spk = nets.script('p2pkh', h)
    eq(tb.make_pkh_output_script(key), spk, 'make_pkh_output_script')
    eq(tb.make_pkh_output_script(pubkey=key, witness=False), spk,
       'make_pkh_output_script by name')
    eq(tb.make_p2pkh_output_script(key), spk, 'make_p2pkh_output_script')
    check_out(net, tb.make_pkh_output(val, key), val, spk,
              'make_pkh_output')
    check_out(net, tb.make_p2pkh_output(value=val, pubkey=key), val, spk,
              'make_p2pkh_output')
    for bad in (c['key'].hex(), None, 5, list(c['key'])):
        refuses(lambda: tb.make_pkh_output_script(bad),
                'make_pkh_output_script(%r)' % (bad,))
    if not witness_ok(net):
        info.label('no witness')
        return no_witness(net, [
            (lambda: tb.make_pkh_output_script(key, True),
             'make_pkh_output_script'),
            (lambda: tb.make_p2wpkh_output_script(key),
             'make_p2wpkh_output_script'),
            (lambda: tb.make_pkh_output(val, key, True), 'make_pkh_output'),
            (lambda: tb.make_p2wpkh_output(val, key),
             'make_p2wpkh_output')])
    spk = nets.script('p2wpkh', h)
    eq(tb.make_pkh_output_script(key, witness=True), spk,
       'make_pkh_output_script witness')
    eq(tb.make_p2wpkh_output_script(key), spk, 'make_p2wpkh_output_script')
    check_out(net, tb.make_pkh_output(val, key, witness=True), val, spk,
              'make_pkh_output witness')
    check_out(net, tb.make_p2wpkh_output(val, key), val, spk,
              'make_p2wpkh_output')


@sub('P22', 'opreturn', st.fixed_dictionaries({
    'net': ANY, 'd': gen.sized(st.one_of(
        st.integers(0, 90), st.sampled_from([0, 1, 74, 75, 76, 77, 78, 79,
                                             80, 255, 256]))),
    'arr': st.booleans()}), 800, rule='the longer push or over the limit',
    enum=lambda tier: [{'net': n, 'd': gen.stretch(k, k), 'arr': False}
                       for n in ('bitcoin_main', 'decred_main',
                                 'zcash_sapling_main')
                       for k in list(range(80)) + [255, 256, 257]])
def check_opreturn(c, info):
    lib.select(c['net'])
    d = c['d']
    arg = bytearray(d) if c['arr'] else d
    info.nt(len(d) > 75)
    if len(d) > 77:
        info.label('too long')
        return refuses(lambda: tb.make_op_return_output(arg),
                       'make_op_return_output of %d bytes' % len(d))
    check_out(c['net'], tb.make_op_return_output(arg), 0,
              b'\x6a' + rs.push(d), 'make_op_return_output')


@sub('P22', 'values', st.fixed_dictionaries({
    'net': ANY, 'key': gen.PUBKEY, 'v': st.one_of(
        st.sampled_from([-1, 2 ** 64, 2 ** 64 + 1, -2 ** 63]),
        st.integers(-2 ** 70, -1), st.integers(2 ** 64, 2 ** 80))}), 300,
    rule='every case')
def check_values(c, info):
    """What does not fit a field is refused."""
    lib.select(c['net'])
    info.nt()
    v, key = c['v'], c['key']
    a = nets.address(c['net'], 'p2pkh', bytes(20))
    refuses(lambda: tb.make_p2pkh_output(v, key), 'an output of %d' % v)
    refuses(lambda: tb.make_p2sh_output(v, 'OP_1'), 'an output of %d' % v)
    refuses(lambda: simple.output(v, a), 'simple.output of %d' % v)
    for w in (v, 2 ** 32, -1):
        refuses(lambda: tb.make_outpoint(bytes(32), w),
                'an outpoint of index %d' % w)
        o = tb.make_outpoint(bytes(32), 0)
        refuses(lambda: tb.make_witness_input(o, w),
                'an input of sequence %d' % w)
        refuses(lambda: tb.make_legacy_input(o, b'', b'', w),
                'an input of sequence %d' % w)
        refuses(lambda: simple.unsigned_input(o, w),
                'an input of sequence %d' % w)


@st.composite
def address_cases(draw):
    net = draw(ANY)
    kind, cash = draw(st.sampled_from(nets.KINDS[net]))
    return {'net': net, 'kind': kind, 'cash': cash, 'val': draw(gen.U64),
            'h': draw(gen.blob(nets.SIZE[kind]))}


@sub('P22', 'output', address_cases(), 1500, rule='not P2PKH',
     enum=lambda tier: [
         {'net': n, 'kind': k, 'cash': x, 'val': 7,
          'h': gen.stretch(3, nets.SIZE[k])}
         for n in nets.NAMES for k, x in nets.KINDS[n]])
def check_output(c, info):
    """simple.output pays the stated amount to the stated address."""
    lib.select(c['net'])
    net = c['net']
    info.label(c['kind'])
    info.nt(c['kind'] != 'p2pkh')
    a = nets.address(net, c['kind'], c['h'], c['cash'])
    spk = nets.script(c['kind'], c['h'])
    check_out(net, simple.output(c['val'], a), c['val'], spk,
              'simple.output')
    check_out(net, simple.output(value=c['val'], address=a), c['val'], spk,
              'simple.output by name')


# ------------------------------------------------------------------ inputs

@st.composite
def input_cases(draw):
    i = draw(gen.txin())
    i['tree'] = draw(st.one_of(st.none(), st.integers(0, 255)))
    net = draw(gen.net(nets.NAMES, 'decred_main'))
    return {'net': net, 'i': i, 'upper': draw(st.booleans()),
            'arr': draw(st.booleans())}


@sub('P22', 'inputs', input_cases(), 2500, rule='a script or a tree')
def check_inputs(c, info):
    lib.select(c['net'])
    net, i = c['net'], c['i']
    dcr = nets.is_decred(net)
    tree = 0 if i['tree'] is None else i['tree']
    info.nt(i['stack'] or i['redeem'] or i['tree'])
    txid = bytearray(i['txid']) if c['arr'] else i['txid']
    shown = i['txid'][::-1].hex()
    if c['upper']:
        shown = shown.upper()
    extra = [i['tree']] if dcr and i['tree'] is not None else []
    full = dict(i, tree=tree)
    want = wire.dcr_outpoint(full) if dcr else wire.outpoint(i)
    points = [tb.make_outpoint(txid, i['idx'], *extra),
              tb.make_outpoint(tx_id_le=txid, index=i['idx'],
                               **({'tree': extra[0]} if extra else {})),
              simple.outpoint(shown, i['idx'], *extra),
              simple.outpoint(tx_id=shown, index=i['idx'],
                              **({'tree': extra[0]} if extra else {}))]
    for o in points:
        eq(o, want, 'an outpoint')
        eq((lib.b(o.tx_id), lib.n(o.index)), (i['txid'], i['idx']),
           'the fields of an outpoint')
        ok(type(o) is (lib.dcr.DecredOutpoint if dcr else lib.btc.Outpoint),
           'an outpoint is a %s' % type(o).__name__)
    o = points[0]
    seq = i['seq']
    stack, redeem = i['stack'], i['redeem']
    if c['arr']:
        stack, redeem = bytearray(stack), bytearray(redeem)

    def expect(x, stack, redeem, seq, what):
        if dcr:
            eq(x, wire.dcr_txin(dict(full, seq=seq)), what)
            ok(type(x) is lib.dcr.DecredTxIn, what + ' is a %s'
               % type(x).__name__)
            return
        eq(x, wire.txin(dict(i, stack=bytes(stack), redeem=bytes(redeem),
                             seq=seq)), what)
        eq((lib.b(x.stack_script), lib.b(x.redeem_script),
            lib.b(x.script_sig), lib.n(x.sequence)),
           (bytes(stack), bytes(redeem), bytes(stack + redeem), seq),
           what + ': fields')
        ok(type(x) is lib.btc.TxIn, what + ' is a %s' % type(x).__name__)
    expect(tb.make_legacy_input(o, stack, redeem, seq), stack, redeem, seq,
           'make_legacy_input')
    expect(tb.make_legacy_input(outpoint=o, stack_script=stack,
                                redeem_script=redeem, sequence=seq),
           stack, redeem, seq, 'make_legacy_input by name')
    expect(tb.make_witness_input(o, seq), b'', b'', seq,
           'make_witness_input')
    expect(tb.make_witness_input(outpoint=o, sequence=seq), b'', b'', seq,
           'make_witness_input by name')
    expect(simple.unsigned_input(o), b'', b'', 0xfffffffe,
           'simple.unsigned_input')
    expect(simple.unsigned_input(o, seq), b'', b'', seq,
           'simple.unsigned_input with a sequence')
    expect(simple.unsigned_input(outpoint=o, sequence=seq), b'', b'', seq,
           'simple.unsigned_input by name')
    if dcr:
        expect(tb.make_decred_input(o, seq), b'', b'', seq,
               'make_decred_input')
    refuses(lambda: simple.outpoint(shown[:-2], 0), 'a short id')
    refuses(lambda: simple.outpoint(shown + '00', 0), 'a long id')
    refuses(lambda: simple.outpoint('zz' + shown[2:], 0), 'no hex')


@st.composite
def sigs(draw):
    net = draw(ANY)
    d = nets.is_decred(net)
    return {'net': net, 's': draw(gen.tokens(d, 4)),
            'r': draw(st.one_of(st.just([]), gen.tokens(d, 5)))}


@sub('P22', 'scriptsig', sigs(), 1500, rule='both parts')
def check_scriptsig(c, info):
    """A stack script, then the redeem script as one push."""
    lib.select(c['net'])
    d = nets.is_decred(c['net'])
    s, r = rs.assemble(c['s'], d), rs.assemble(c['r'], d)
    info.nt(s and r)
    f = lambda: tb.make_script_sig(gen.text(c['s']), gen.text(c['r']))
    if len(r) > rs.MAX_PUSH:
        info.label('too long')
        return refuses(f, 'a redeem script of %d bytes' % len(r))
    eq(f(), s + (rs.push(r) if r else b''), 'make_script_sig')
    eq(tb.make_script_sig(stack_script=gen.text(c['s']),
                          redeem_script=gen.text(c['r'])),
       s + (rs.push(r) if r else b''), 'make_script_sig by name')


# --------------------------------------------------------------- witnesses

@sub('P22', 'witness', st.fixed_dictionaries({
    'net': ANY, 'w': gen.WITNESS_STACK, 'arr': st.booleans(),
    'd': gen.decred(1, 1)}), 1200, rule='two items')
def check_witness(c, info):
    lib.select(c['net'])
    w = c['w']
    info.nt(len(w) > 1)
    arg = [bytearray(x) for x in w] if c['arr'] else list(w)
    x = tb.make_witness(arg)
    eq(x, wire.stack(w), 'make_witness')
    eq([lib.b(i.item) for i in x.stack], w, 'the items of make_witness')
    eq(tb.make_witness(data_list=arg), wire.stack(w),
       'make_witness by name')
    eq(tb.make_empty_witness(), b'\x00', 'make_empty_witness')
    for item in w:
        i = tb.make_witness_stack_item(item)
        eq(i, wire.pref(item), 'make_witness_stack_item')
        eq(i.item, item, 'the item')
    v = c['d']['wits'][0]
    if nets.is_decred(c['net']):
        kw = dict(value=le(v['val'], 8), height=le(v['height'], 4),
                  index=le(v['index'], 4), stack_script=v['stack'],
                  redeem_script=v['redeem'])
        eq(tb.make_decred_witness(**kw), wire.dcr_wit(v),
           'make_decred_witness')
        eq(tb.make_decred_witness(*kw.values()), wire.dcr_wit(v),
           'make_decred_witness in order')


@sub('P22', 'prepend', st.fixed_dictionaries({
    'net': ANY, 'b': gen.sized(st.one_of(
        st.integers(0, 300), st.sampled_from(
            [252, 253, 254, 255, 256, 65535, 65536, 70000]))),
    'arr': st.booleans()}), 500, rule='a length of more than one byte')
def check_prepend(c, info):
    lib.select(c['net'])
    b = c['b']
    info.nt(len(b) > 252)
    eq(tb.length_prepend(bytearray(b) if c['arr'] else b), wire.pref(b),
       'length_prepend')
    eq(tb.length_prepend(byte_string=b), wire.pref(b),
       'length_prepend by name')


# ------------------------------------------------------------ transactions

@st.composite
def tx_cases(draw):
    fam = draw(st.sampled_from(['bitcoin', 'bitcoin'] + list(FAMILIES)))
    net = draw(gen.net(FAMILIES[fam]))
    if fam == 'bitcoin':
        t = draw(gen.tx(max_in=3, max_out=3))
        if t['wits'] is None:
            t['flag'] = False
        elif draw(st.integers(0, 3)) == 0:
            t['wits'] = [[] for _ in t['ins']]
    elif fam == 'decred':
        t = draw(gen.decred(3, 3))
        t['ver'] %= 2 ** 16
    else:
        t = draw(gen.zcash(fam))
    return {'net': net, 'fam': fam, 't': t, 'bare': draw(st.booleans())}


@sub('P22', 'make_tx', tx_cases(), 3000,
     rule='witnesses, joinsplits or shielded parts')
def check_make_tx(c, info):
    """make_tx of the parts is the transaction of the network's format."""
    lib.select(c['net'])
    t, fam = c['t'], c['fam']
    info.label(fam)
    if fam == 'bitcoin':
        kw = {'version': t['ver'], 'tx_ins': [lib.txin(i) for i in t['ins']],
              'tx_outs': [lib.txout(o) for o in t['outs']],
              'lock_time': t['lock']}
        wits = t['wits']
        if wits is not None:
            kw['tx_witnesses'] = [tb.make_witness(w) for w in wits]
        elif not c['bare']:
            kw['tx_witnesses'] = None
        info.nt(wits)
        x = tb.make_tx(**kw)
        eq(x, wire.tx(dict(t, flag=wits is not None)), 'make_tx')
        ok(type(x) is lib.btc.Tx, 'make_tx made a %s' % type(x).__name__)
        ok((x.flag is not None) == (wits is not None),
           'the flag is %r' % x.flag)
        eq(lib.un_tx(x), lib.want_tx(dict(t, flag=wits is not None)),
           'the fields of make_tx')
        if wits is None:
            eq(tb.make_tx(t['ver'], kw['tx_ins'], kw['tx_outs'], t['lock']),
               wire.tx(dict(t, flag=False)), 'make_tx in order')
        return
    if fam == 'decred':
        kw = {'version': t['ver'] | t['sertype'] << 16,
              'tx_ins': [lib.dcr_txin(i) for i in t['ins']],
              'tx_outs': [lib.dcr_txout(o) for o in t['outs']],
              'lock_time': t['lock'], 'expiry': t['expiry'],
              'tx_witnesses': [lib.dcr_wit(w) for w in t['wits']]}
        info.nt()
        x = tb.make_tx(**kw)
        eq(x, wire.dcr_full(t), 'make_tx')
        eq(x.tx_id_le, wire.dcr_txid(t), 'the id of make_tx')
        ok(type(x) is lib.dcr.DecredTx, 'make_tx made a %s'
           % type(x).__name__)
        kw.pop('tx_witnesses')
        eq(tb.make_tx(**kw), wire.dcr_full(dict(t, wits=[])),
           'make_tx without witnesses')
        return
    kw = {'version': t.get('ver', 4),
          'tx_ins': [lib.txin(i) for i in t['ins']],
          'tx_outs': [lib.txout(o) for o in t['outs']],
          'lock_time': t['lock']}
    if t['js'] or not c['bare']:
        kw['tx_joinsplits'] = [
            (lib.sapling_js if fam == 'sapling' else lib.sprout_js)(j)
            for j in t['js']]
        kw['joinsplit_pubkey'] = t['pubkey']
        kw['joinsplit_sig'] = t['sig']
    if fam != 'sprout':
        kw['expiry'] = t['expiry']
    if fam == 'sapling':
        if t['balance'] or not c['bare']:
            kw['value_balance'] = t['balance']
        if t['spends'] or not c['bare']:
            kw['tx_shielded_spends'] = [lib.spend(s) for s in t['spends']]
        if t['souts'] or not c['bare']:
            kw['tx_shielded_outputs'] = [lib.sout(s) for s in t['souts']]
        if t['binding'] is not None or not c['bare']:
            kw['binding_sig'] = t['binding']
    info.nt(t['js'] or t.get('spends') or t.get('souts'))
    x = tb.make_tx(**kw)
    eq(x, wire.zcash(fam, t), 'make_tx')
    ok(type(x) is lib.ZCLASS[fam], 'make_tx made a %s' % type(x).__name__)
    eq(lib.un_zcash(fam, x), {
        k: v for k, v in lib.want_zcash(t).items()
        if fam == 'sprout' or k != 'ver'}, 'the fields of make_tx')


@st.composite
def flows(draw):
    fam = draw(st.sampled_from(['bitcoin', 'bitcoin'] + list(FAMILIES)))
    net = draw(gen.net(FAMILIES[fam]))
    n_in = draw(st.integers(1, 4))
    n_out = draw(st.integers(1, 4))
    ins = [{'txid': draw(gen.HASH32), 'idx': draw(gen.U32),
            'seq': draw(st.one_of(st.none(), gen.U32)),
            'tree': 0, 'stack': b'', 'redeem': b''} for _ in range(n_in)]
    outs = []
    for _ in range(n_out):
        kind, cash = draw(st.sampled_from(nets.KINDS[net]))
        outs.append({'val': draw(gen.U64), 'kind': kind, 'cash': cash,
                     'h': draw(gen.blob(nets.SIZE[kind]))})
    kw = {}
    if fam in ('bitcoin', 'decred'):
        if draw(st.booleans()):
            kw['version'] = draw(gen.U32)
    elif draw(st.booleans()):
        kw['version'] = draw(st.sampled_from([1, 2]))
    if draw(st.booleans()):
        kw['lock_time'] = draw(gen.U32)
    if fam != 'bitcoin' and draw(st.booleans()):
        kw['expiry'] = draw(gen.EXPIRY)
    js = None
    if fam in gen.ZNETS and kw.get('version') != 1 and draw(st.booleans()):
        j = draw(gen.zcash(fam).filter(lambda t: t['js']))
        js = {k: j[k] for k in ('js', 'pubkey', 'sig')}
    return {'net': net, 'fam': fam, 'ins': ins, 'outs': outs, 'kw': kw,
            'js': js, 'witness': draw(st.booleans())}


@sub('P22', 'simple', flows(), 2500, rule='two inputs and two outputs')
def check_simple(c, info):
    """A whole unsigned transaction through the simple module."""
    lib.select(c['net'])
    net, fam = c['net'], c['fam']
    info.label(fam)
    info.nt(len(c['ins']) > 1 and len(c['outs']) > 1)
    ins = []
    for i in c['ins']:
        o = simple.outpoint(i['txid'][::-1].hex(), i['idx'])
        ins.append(simple.unsigned_input(o) if i['seq'] is None
                   else simple.unsigned_input(o, i['seq']))
    outs = [simple.output(o['val'], nets.address(
        net, o['kind'], o['h'], o['cash'])) for o in c['outs']]
    kw = dict(c['kw'])
    t = {'ver': kw.get('version', 2), 'flag': False, 'wits': None,
         'lock': kw.get('lock_time', 0), 'expiry': kw.get('expiry', 0),
         'ins': [dict(i, seq=0xfffffffe if i['seq'] is None else i['seq'])
                 for i in c['ins']],
         'outs': [{'val': o['val'], 'ver': 0,
                   'spk': nets.script(o['kind'], o['h'])}
                  for o in c['outs']],
         'js': [], 'pubkey': None, 'sig': None}
    if fam == 'decred':
        t.update(sertype=t['ver'] >> 16, ver=t['ver'] & 0xffff, wits=[])
        eq(simple.unsigned_legacy_tx(ins, outs, **kw), wire.dcr_full(t),
           'unsigned_legacy_tx')
        return
    if fam == 'bitcoin':
        eq(simple.unsigned_legacy_tx(ins, outs, **kw), wire.tx(t),
           'unsigned_legacy_tx')
        x = simple.unsigned_legacy_tx(tx_ins=ins, tx_outs=outs, **kw)
        ok(x.flag is None, 'a legacy transaction has flag %r' % x.flag)
        if net in nets.WITNESS:
            info.label('witness')
            x = simple.unsigned_witness_tx(ins, outs, **kw)
            eq(x, wire.tx(dict(t, flag=True, wits=[[] for _ in ins])),
               'unsigned_witness_tx')
            ok(x.flag is not None and len(x.tx_witnesses) == len(ins),
               'unsigned_witness_tx without flag or witnesses')
        return
    if c['js']:
        t.update(c['js'])
        kw['tx_joinsplits'] = [
            (lib.sapling_js if fam == 'sapling' else lib.sprout_js)(j)
            for j in t['js']]
        kw['joinsplit_pubkey'] = t['pubkey']
        kw['joinsplit_sig'] = t['sig']
    t.update(balance=0, spends=[], souts=[], binding=None)
    eq(simple.unsigned_legacy_tx(ins, outs, **kw), wire.zcash(fam, t),
       'unsigned_legacy_tx')
