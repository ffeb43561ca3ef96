"""A node's view of a transaction: reads the wire bytes, runs the scripts of
the coins it spends and checks every signature.  Written from the protocol
documents; covers the opcodes the generated coins need."""
from vf.ref import ec, hashes, script as rs, sighash, wire


class Reject(Exception):
    """A node would refuse this."""


def need(cond, why):
    if not cond:
        raise Reject(why)


# ---------------------------------------------------------------- reading

class Reader(object):
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        need(self.i + n <= len(self.b), 'truncated')
        self.i += n
        return self.b[self.i - n:self.i]

    def num(self, n):
        return int.from_bytes(self.take(n), 'little')

    def cs(self):
        got = wire.read_cs(self.b[self.i:self.i + 9])
        need(got is not None, 'truncated')
        need(got[1] == len(wire.cs(got[0])), 'a length in a long form')
        self.i += got[1]
        return got[0]

    def var(self):
        return self.take(self.cs())

    def vec(self, f):
        return [f() for _ in range(self.cs())]

    def txin(self):
        return {'txid': self.take(32), 'idx': self.num(4),
                'script': self.var(), 'seq': self.num(4)}

    def txout(self):
        return {'val': self.num(8), 'spk': self.var()}

    def struct(self, layout):
        return wire.split(layout, self.take(wire.layout_size(layout)))

    def end(self):
        need(self.i == len(self.b), 'bytes left over')


def read_bitcoin(b):
    r = Reader(b)
    t = {'ver': r.num(4), 'flag': b[4:6] == b'\x00\x01'}
    if t['flag']:
        r.take(2)
    t['ins'], t['outs'] = r.vec(r.txin), r.vec(r.txout)
    t['wits'] = [r.vec(r.var) for _ in t['ins']] if t['flag'] else None
    t['lock'] = r.num(4)
    r.end()
    if t['flag']:
        need(any(t['wits']), 'a flag without witnesses')
    return t


def _joinsplits(r, t, layout):
    t['js'] = r.vec(lambda: r.struct(layout))
    t['pubkey'] = r.take(32) if t['js'] else None
    t['sig'] = r.take(64) if t['js'] else None


def read_sprout(b):
    r = Reader(b)
    t = {'ver': r.num(4), 'ins': r.vec(r.txin), 'outs': r.vec(r.txout),
         'lock': r.num(4), 'js': []}
    need(t['ver'] in (1, 2), 'version')
    if t['ver'] == 2:
        _joinsplits(r, t, wire.JS_SPROUT)
    r.end()
    return t


def read_overwinter(b):
    r = Reader(b)
    need(r.take(8) == bytes.fromhex('030000807082c403'), 'header')
    t = {'ins': r.vec(r.txin), 'outs': r.vec(r.txout), 'lock': r.num(4),
         'expiry': r.num(4)}
    _joinsplits(r, t, wire.JS_SPROUT)
    r.end()
    return t


def read_sapling(b):
    r = Reader(b)
    need(r.take(8) == bytes.fromhex('0400008085202f89'), 'header')
    t = {'ins': r.vec(r.txin), 'outs': r.vec(r.txout), 'lock': r.num(4),
         'expiry': r.num(4)}
    t['balance'] = int.from_bytes(r.take(8), 'little', signed=True)
    t['spends'] = r.vec(lambda: r.struct(wire.SPEND))
    t['souts'] = r.vec(lambda: r.struct(wire.OUTPUT))
    _joinsplits(r, t, wire.JS_SAPLING)
    t['binding'] = r.take(64) if t['spends'] or t['souts'] else None
    r.end()
    return t


def read_decred(b):
    r = Reader(b)
    t = {'ver': r.num(2), 'sertype': r.num(2)}
    need(t['sertype'] == 0, 'serialisation type')
    t['ins'] = r.vec(lambda: {'txid': r.take(32), 'idx': r.num(4),
                              'tree': r.num(1), 'seq': r.num(4)})
    t['outs'] = r.vec(lambda: {'val': r.num(8), 'ver': r.num(2),
                               'spk': r.var()})
    t['lock'], t['expiry'] = r.num(4), r.num(4)
    t['wits'] = r.vec(lambda: {'val': r.num(8), 'height': r.num(4),
                               'index': r.num(4), 'script': r.var()})
    r.end()
    need(len(t['wits']) == len(t['ins']), 'a witness per input')
    return t


READ = {'bitcoin': read_bitcoin, 'forkid': read_bitcoin,
        'sprout': read_sprout, 'overwinter': read_overwinter,
        'sapling': read_sapling, 'decred': read_decred}


# ---------------------------------------------------------------- scripts

def truth(x):
    return any(x[:-1]) or (bool(x) and x[-1] not in (0, 0x80))


def scriptnum(x, size=4):
    need(len(x) <= size, 'number too long')
    if not x:
        return 0
    v = int.from_bytes(x[:-1] + bytes([x[-1] & 0x7f]), 'little')
    return -v if x[-1] & 0x80 else v


class Context(object):
    """One input of a transaction: `digest(script_code, hashtype, acp)`."""

    def __init__(self, family, digest, lock, seq, version):
        self.family = family
        self.digest = digest
        self.lock = lock
        self.seq = seq
        self.version = version

    def checksig(self, sig, pub, code):
        if not sig:
            return False
        word = sig[-1]
        if self.family == 'forkid':
            need(word & 0x40, 'no fork flag')
            word &= ~0x40
        kind = word & ~0x80
        need(kind in (1, 2, 3), 'hash type')
        need(ec.point(pub) is not None, 'public key encoding')
        good = ec.verify(pub, sig[:-1],
                         self.digest(code, kind, bool(word & 0x80)))
        need(good, 'signature')       # NULLFAIL
        return True


def run(code, stack, cx):
    """Runs one script on the stack."""
    decred = cx.family == 'decred'
    ops = {v: k for k, v in rs.ops_for(decred).items()
           if k not in ('OP_NOP2', 'OP_NOP3')}
    parsed = rs.parse(code)
    need(parsed is not None, 'a push runs off the end')
    branch = []

    def pop():
        need(stack, 'empty stack')
        return stack.pop()

    for op, data in parsed:
        live = all(branch)
        if data is not None:
            need(len(data) <= 520, 'push size')
            if live:
                need(code_minimal(op, data), 'not a minimal push')
                stack.append(data)
            continue
        name = ops.get(op, 'OP_%d' % op)
        if name in ('OP_IF', 'OP_NOTIF'):
            branch.append(truth(pop()) == (name == 'OP_IF') if live
                          else False)
        elif name == 'OP_ELSE':
            need(branch, 'else')
            branch[-1] = not branch[-1]
        elif name == 'OP_ENDIF':
            need(branch, 'endif')
            branch.pop()
        elif not live:
            continue
        elif 0x51 <= op <= 0x60:
            stack.append(bytes([op - 0x50]))
        elif name == 'OP_1NEGATE':
            stack.append(b'\x81')
        elif name == 'OP_DUP':
            x = pop()
            stack += [x, x]
        elif name == 'OP_DROP':
            pop()
        elif name == 'OP_NOP':
            pass
        elif name == 'OP_SIZE':
            x = pop()
            n = len(x)
            stack += [x, b'' if not n else n.to_bytes(
                (n.bit_length() + 8) // 8, 'little')]
        elif name == 'OP_VERIFY':
            need(truth(pop()), 'verify')
        elif name in ('OP_EQUAL', 'OP_EQUALVERIFY'):
            same = pop() == pop()
            if name == 'OP_EQUAL':
                stack.append(b'\x01' if same else b'')
            else:
                need(same, 'equalverify')
        elif name == 'OP_HASH160':
            stack.append(hashes.hash160(pop(), decred))
        elif name == 'OP_HASH256':
            stack.append(hashes.hash256(pop(), decred))
        elif name == 'OP_RIPEMD160':
            stack.append(hashes.rmd160(pop()))
        elif name == 'OP_BLAKE256':
            stack.append(hashes.blake256(pop()))
        elif name == 'OP_SHA256' and (not decred or op == 0xc0):
            stack.append(hashes.sha256(pop()))
        elif name in ('OP_CHECKSIG', 'OP_CHECKSIGVERIFY'):
            pub, sig = pop(), pop()
            good = cx.checksig(sig, pub, code)
            if name == 'OP_CHECKSIG':
                stack.append(b'\x01' if good else b'')
            else:
                need(good, 'checksigverify')
        elif name == 'OP_CHECKMULTISIG':
            pubs = [pop() for _ in range(scriptnum(pop()))][::-1]
            sigs = [pop() for _ in range(scriptnum(pop()))][::-1]
            if not decred:
                need(pop() == b'', 'null dummy')
            i = 0
            for s in sigs:
                while True:
                    need(i < len(pubs), 'multisig')
                    i += 1
                    try:
                        if cx.checksig(s, pubs[i - 1], code):
                            break
                    except Reject:
                        pass
            stack.append(b'\x01')
        elif name == 'OP_CHECKLOCKTIMEVERIFY':
            need(stack, 'empty stack')
            v = scriptnum(stack[-1], 5)
            need(v >= 0, 'negative lock time')
            need((v < 500000000) == (cx.lock < 500000000), 'lock kind')
            need(v <= cx.lock, 'lock time')
            need(cx.seq != 0xffffffff, 'final sequence')
        elif name == 'OP_CHECKSEQUENCEVERIFY':
            need(stack, 'empty stack')
            v = scriptnum(stack[-1], 5)
            need(v >= 0, 'negative sequence')
            if not v & (1 << 31):
                need(cx.version >= 2, 'version for relative locks')
                need(not cx.seq & (1 << 31), 'sequence lock disabled')
                m = 0x40ffff
                need((v & m < 0x400000) == (cx.seq & m < 0x400000), 'kind')
                need(v & m <= cx.seq & m, 'relative lock')
        else:
            raise Reject('opcode %s' % name)
    need(not branch, 'unbalanced conditional')


def code_minimal(op, data):
    """the shortest push prefix by length"""
    return op == rs.push(data)[0]


def finish(stack):
    need(stack and truth(stack[-1]), 'false')


def pushes_only(code):
    parsed = rs.parse(code)
    return parsed is not None and all(op <= 0x60 for op, _ in parsed)


def is_p2sh(spk):
    return len(spk) == 23 and spk[:2] == b'\xa9\x14' and spk[-1] == 0x87


def witness_program(spk):
    if len(spk) in (22, 34) and spk[0] == 0 and spk[1] == len(spk) - 2:
        return spk[2:]
    return None


def run_witness(prog, wit, cx):
    if len(prog) == 20:
        need(len(wit) == 2, 'two witness items')
        code, stack = b'\x76\xa9\x14' + prog + b'\x88\xac', list(wit)
    else:
        need(wit, 'no witness script')
        code, stack = wit[-1], list(wit[:-1])
        need(hashes.sha256(code) == prog, 'witness script hash')
    need(all(len(x) <= 520 for x in stack), 'item size')
    run(code, stack, cx)
    need(len(stack) == 1, 'clean stack')
    finish(stack)


def spend(spk, script_sig, wit, base, segwit):
    """base and segwit: the contexts of the two kinds of digest"""
    need(pushes_only(script_sig), 'push only')
    stack = []
    run(script_sig, stack, base)
    saved = list(stack)
    run(spk, stack, base)
    finish(stack)
    used = False
    prog = witness_program(spk) if segwit else None
    if prog is not None:
        need(not script_sig, 'script sig of a witness input')
        run_witness(prog, wit, segwit)
        used = True
    elif is_p2sh(spk):
        redeem = saved[-1]
        stack = saved[:-1]
        prog = witness_program(redeem) if segwit else None
        if prog is not None:
            need(script_sig == rs.push(redeem), 'exactly the program')
            run_witness(prog, wit, segwit)
            used = True
        else:
            run(redeem, stack, base)
            finish(stack)
    if not used:
        need(len(stack) == 1, 'clean stack')
        need(not wit, 'unexpected witness')


def contexts(family, t, i, value, forkid=None):
    """(base, segwit) contexts of input i"""
    def cx(f):
        return Context(family, f, t['lock'], t['ins'][i]['seq'],
                       t.get('ver', 4))
    s = sighash
    if family == 'bitcoin':
        return (cx(lambda c, k, a: s.legacy(t, i, c, k, a)),
                cx(lambda c, k, a: s.bip143(t, i, c, value, k, a)))
    if family == 'forkid':
        f = cx(lambda c, k, a: s.bip143(t, i, c, value, k, a, forkid))
        return f, f
    if family == 'sprout':
        return cx(lambda c, k, a: s.sprout(t, i, c, k, a)), None
    if family == 'overwinter':
        return cx(lambda c, k, a: s.zip143(t, i, c, value, k, a,
                                           False)), None
    if family == 'sapling':
        return cx(lambda c, k, a: s.zip243(t, i, c, value, k, a,
                                           False)), None
    return cx(lambda c, k, a: s.decred(t, i, c, k, a)), None


def accept(family, raw, coins, forkid=None, segwit=True):
    """Checks the bytes of a transaction that spends coins, which are
    {(txid, idx): (value, script pubkey)}.  Returns what it read."""
    t = READ[family](raw)
    need(t['ins'], 'no inputs')
    seen = set()
    for i, x in enumerate(t['ins']):
        where = (x['txid'], x['idx'])
        need(where in coins and where not in seen, 'unknown coin')
        seen.add(where)
        value, spk = coins[where]
        base, sw = contexts(family, t, i, value, forkid)
        if family == 'decred':
            need(t['wits'][i]['val'] == value, 'witness value')
            sig, wit = t['wits'][i]['script'], []
        else:
            sig = x['script']
            wit = t['wits'][i] if t.get('flag') else []
        spend(spk, sig, wit, base, sw if segwit else None)
    return t
