"""Script bytes and the opcode names of the Bitcoin protocol documentation."""
from vf.ref.wire import le

# name -> byte, written down from the protocol documentation
OPS = {'OP_0': 0, 'OP_1NEGATE': 0x4f, 'OP_RESERVED': 0x50}
for _i in range(1, 17):
    OPS['OP_%d' % _i] = 0x50 + _i
for _i, _n in enumerate(
        'NOP VER IF NOTIF VERIF VERNOTIF ELSE ENDIF VERIFY RETURN TOALTSTACK '
        'FROMALTSTACK 2DROP 2DUP 3DUP 2OVER 2ROT 2SWAP IFDUP DEPTH DROP DUP '
        'NIP OVER PICK ROLL ROT SWAP TUCK CAT SUBSTR LEFT RIGHT SIZE INVERT '
        'AND OR XOR EQUAL EQUALVERIFY RESERVED1 RESERVED2 1ADD 1SUB 2MUL 2DIV '
        'NEGATE ABS NOT 0NOTEQUAL ADD SUB MUL DIV MOD LSHIFT RSHIFT BOOLAND '
        'BOOLOR NUMEQUAL NUMEQUALVERIFY NUMNOTEQUAL LESSTHAN GREATERTHAN '
        'LESSTHANOREQUAL GREATERTHANOREQUAL MIN MAX WITHIN RIPEMD160 SHA1 '
        'SHA256 HASH160 HASH256 CODESEPARATOR CHECKSIG CHECKSIGVERIFY '
        'CHECKMULTISIG CHECKMULTISIGVERIFY NOP1 CHECKLOCKTIMEVERIFY '
        'CHECKSEQUENCEVERIFY NOP4 NOP5 NOP6 NOP7 NOP8 NOP9 NOP10'.split()):
    OPS['OP_' + _n] = 0x61 + _i
OPS['OP_NOP2'] = 0xb1
OPS['OP_NOP3'] = 0xb2
assert OPS['OP_CHECKSIG'] == 0xac and OPS['OP_NOP10'] == 0xb9
assert OPS['OP_DUP'] == 0x76 and OPS['OP_HASH160'] == 0xa9
assert OPS['OP_EQUAL'] == 0x87 and OPS['OP_RETURN'] == 0x6a

REFUSED = ('OP_CODESEPARATOR',)       # documented refusals
DECRED = {'OP_BLAKE256': 168, 'OP_SHA256': 192}
MAX_PUSH = 1000


def ops_for(decred):
    d = {k: v for k, v in OPS.items() if k not in REFUSED}
    if decred:
        d.update(DECRED)
    return d


def push(data):
    """minimal push prefix by length"""
    n = len(data)
    if n <= 75:
        return bytes([n]) + data
    if n <= 255:
        return b'\x4c' + bytes([n]) + data
    if n <= 65535:
        return b'\x4d' + le(n, 2) + data
    return b'\x4e' + le(n, 4) + data


def assemble(tokens, decred=False):
    """tokens: opcode names and bytes"""
    ops = ops_for(decred)
    return b''.join(bytes([ops[t]]) if isinstance(t, str) else push(t)
                    for t in tokens)


def parse(b):
    """[(opcode, data or None)] or None if a push runs past the end.
    Opcode 0 is a push of nothing."""
    out, i = [], 0
    while i < len(b):
        op = b[i]
        i += 1
        if op <= 0x4e:
            size = {0x4c: 1, 0x4d: 2, 0x4e: 4}.get(op)
            if size is None:
                n = op
            else:
                if i + size > len(b):
                    return None
                n = int.from_bytes(b[i:i + size], 'little')
                i += size
            if i + n > len(b):
                return None
            out.append((op, b[i:i + n]))
            i += n
        else:
            out.append((op, None))
    return out
