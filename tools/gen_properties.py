"""Writes properties.jsonl (kept as a script so that the JSON stays valid)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


TX = 'riemann/tx/tx.py'
SH = 'riemann/tx/shared.py'

prop('P01', 'Transaction build, serialise and parse agree with the wire format',
     'Every legal combination of version, inputs, outputs, witnesses and lock time builds a transaction whose bytes are exactly the Bitcoin (or BIP144 segwit) wire encoding of those fields. Parsing those bytes gives back a transaction with the same field values and the same bytes. The hex form is the hex of the bytes.',
     ['inputs', 'configurations'],
     'all Bitcoin-style transactions over all non-Decred, non-Zcash networks: any number of inputs and outputs (including counts above 252), any script bytes up to the documented limits (script signatures of 1650 bytes; output scripts of 251 bytes when parsing, any length when building), any witness stack, signed and unsigned, segwit and legacy',
     'The tests parse and rebuild a handful of recorded main-chain transactions; they do not reach large counts, empty or odd scripts, witness stacks of unusual shape, boundary values of the integer fields or networks other than bitcoin_main.',
     [TX, SH, 'riemann/tx/tx_builder.py'],
     [('Tx.__init__ / Tx.from_bytes', TX), ('TxIn.from_bytes script-sig splitting', TX), ('VarInt', SH)],
     ['Tx(...).to_bytes()', 'Tx.from_bytes / from_hex', 'TxIn, TxOut, InputWitness, Outpoint from_bytes'])

prop('P02', 'Parsing never invents, drops or alters bytes',
     'For any byte string, parsing a transaction or one of its components either fails with an exception or returns an object whose serialisation is exactly the leading bytes of the input that it consumed. A truncated input is never accepted as if the missing bytes were there, and no parser hangs.',
     ['inputs', 'fault_sequences'],
     'all byte strings: random bytes, every truncation of valid encodings, byte flips, insertions and deletions in valid encodings, non-minimal length prefixes, for every public parser of the Bitcoin, Zcash and Decred transaction formats',
     'The tests feed each parser one to three hand-written bad inputs; a parser that silently slices past the end of its input passes all of them.',
     [TX, SH, 'riemann/tx/decred.py', 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py', 'riemann/tx/zcash_shared.py'],
     [('from_bytes of every container', 'riemann/tx/*.py'), ('length checks in shared.VarInt and constructors', SH)],
     ['every from_bytes / from_hex classmethod'])

prop('P03', 'Transaction ids are the right hash of the right bytes',
     'The transaction id is the network hash of the serialisation without witnesses, unaffected by any witness data, and the witness transaction id is the hash of the full serialisation. The little-endian and big-endian forms are byte reversals of each other. A transaction that carries no segwit flag has equal ids or no witness id.',
     ['inputs', 'configurations'],
     'all Bitcoin-style and Zcash transactions, with and without witnesses, built, parsed or copied',
     'Only the ids of the recorded fixtures are checked; no test varies witnesses while holding the rest fixed.',
     [TX, 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py'],
     [('tx_id / tx_id_le / wtx_id attributes', TX), ('Tx.no_witness', TX)],
     ['Tx.tx_id, tx_id_le, wtx_id, wtx_id_le', 'Tx.no_witness()'])

prop('P04', 'Legacy signature digests match the original Bitcoin algorithm',
     'For any transaction without a segwit flag, any input and any script code, the digest computed for ALL and SINGLE, each with or without ANYONECANPAY, equals the digest of the original Bitcoin signature-hash algorithm, including SINGLE with an index beyond the outputs being rejected. The digest does not depend on the script signatures already present or on whether the transaction was built, parsed or copied.',
     ['inputs', 'configurations'],
     'all legacy transactions with any numbers of inputs and outputs, all input indexes, arbitrary length-prefixed script codes of up to 1650 bytes, both digest types, both ANYONECANPAY settings',
     'Existing vectors cover one or two transactions with few inputs and outputs and index 0 or 1; SINGLE over transactions with outputs on both sides of the signed one, and re-signing of already-signed transactions, are not covered.',
     [TX], [('sighash_all / sighash_single / _sighash_prep / _sighash_anyone_can_pay / sighash_final', TX)],
     ['Tx.sighash_all', 'Tx.sighash_single'])

prop('P05', 'Segwit signature digests match BIP143',
     'For any transaction carrying the segwit flag, any input, script code and spent value, the digest for ALL and SINGLE, each with or without ANYONECANPAY, equals the BIP143 digest. It commits to the spent value and is independent of script signatures and witnesses already attached.',
     ['inputs', 'configurations'],
     'all segwit-flagged transactions with zero or more witnesses present, all indexes including indexes at or beyond the number of outputs (where SINGLE is refused), arbitrary values and scripts',
     'Vectors from the BIP cover five transactions; the tests do not vary value, sequence, index against output count, or the presence of witnesses.',
     [TX], [('segwit_sighash, _hash_prevouts, _hash_sequence, _hash_outputs, _adjusted_script_len', TX), ('is_witness dispatch', TX)],
     ['Tx.sighash_all', 'Tx.sighash_single', 'Tx.segwit_sighash'])

prop('P06', 'Fork-id networks use replay-protected signature digests',
     'When a network with a fork id is selected, every signature digest is the BIP143-style digest with the fork id and the fork flag mixed into the hash type, so that it differs from every digest valid on Bitcoin. Networks without a fork id never mix one in.',
     ['inputs', 'configurations'],
     'all transactions and indexes on the fork-id networks (Bitcoin Cash, Bitcoin Gold, Bitcoin Private), both digest types, both ANYONECANPAY settings; and the same transactions on the other networks',
     'One recorded transaction per network is checked.',
     [TX, 'riemann/networks/networks.py'], [('FORKID handling', TX), ('FORKID constants', 'riemann/networks/networks.py')],
     ['Tx.sighash_all', 'Tx.sighash_single', 'Tx.sighash_forkid'])

prop('P07', 'Overwinter signature digests match ZIP143',
     'For any Overwinter transaction the digest for ALL and SINGLE, with a transparent input or for a joinsplit, equals the ZIP143 digest over the header, prevouts, sequences, outputs, joinsplits, lock time, expiry and the signed input. With ANYONECANPAY the other inputs are not committed to, and SINGLE with an index beyond the outputs is refused.',
     ['inputs'],
     'all Overwinter transactions with any inputs, outputs and 0 to 5 joinsplits, all indexes including beyond the outputs, arbitrary script codes and values',
     'Three ZIP vectors are checked.',
     ['riemann/tx/overwinter.py'], [('OverwinterTx.sighash and _hash_* helpers', 'riemann/tx/overwinter.py')],
     ['OverwinterTx.sighash / sighash_all / sighash_single'])

prop('P08', 'Sapling signature digests match ZIP243',
     'For any Sapling transaction the digest for ALL and SINGLE, with a transparent input or without one, with or without ANYONECANPAY, equals the ZIP243 digest, including the digests of joinsplits, shielded spends (without their signatures), shielded outputs and the value balance. SINGLE with an index beyond the outputs is refused.',
     ['inputs'],
     'all Sapling transactions with any transparent parts, shielded spends, shielded outputs and 0 to 5 joinsplits, positive and negative balances, all indexes',
     'Two ZIP vectors plus a few fixtures are checked.',
     ['riemann/tx/sapling.py'], [('SaplingTx.sighash and _hash_* helpers', 'riemann/tx/sapling.py')],
     ['SaplingTx.sighash / sighash_all / sighash_single'])

prop('P09', 'Sprout transactions follow the version 1 and 2 rules',
     'A version 1 Zcash transaction is an ordinary Bitcoin transaction and a version 2 one carries 0 to 5 joinsplits followed, only when there are joinsplits, by their public key and signature; both build, serialise and parse back exactly. Their signature digests are the original Bitcoin digests over the transaction with its joinsplits and public key but a blanked joinsplit signature.',
     ['inputs'],
     'all version 1 and version 2 transactions with any inputs and outputs, with 0 to 5 joinsplits, all input indexes and both digest types and ANYONECANPAY settings where permitted',
     'The digest is only printed, not compared, by the existing test; parsing a version 1 transaction is never tried.',
     ['riemann/tx/sprout.py', 'riemann/tx/zcash_shared.py'], [('SproutTx constructor, from_bytes, sighash_all, sighash_single', 'riemann/tx/sprout.py')],
     ['SproutTx.to_bytes / from_bytes', 'SproutTx.sighash_all / sighash_single'])

prop('P10', 'Decred serialisation, ids and signature digests match the dcrd format',
     'Decred transactions serialise to the prefix, witness and full forms of the dcrd wire format; the transaction id is the BLAKE-256 hash of the prefix serialisation and is independent of witnesses. The signature digest for ALL and SINGLE, with or without ANYONECANPAY, equals the dcrd digest.',
     ['inputs', 'configurations'],
     'all Decred transactions with any numbers of inputs, outputs and witnesses, every tree and script version, all indexes',
     'The digest tests are commented out; the others check one fixture.',
     ['riemann/tx/decred.py'], [('DecredTx prefix, witness, witness_signing, sighash_*', 'riemann/tx/decred.py')],
     ['DecredTx.to_bytes / prefix / witness / tx_id', 'DecredTx.sighash_all / sighash_single', 'DecredTxIn/TxOut/Outpoint/InputWitness'])

prop('P11', 'Zcash Overwinter and Sapling wire formats round-trip',
     'Every legal Overwinter or Sapling transaction, and every shielded component, serialises to the protocol wire format field by field, and parsing those bytes returns equal field values and identical bytes, at any shape from empty to the permitted maximum.',
     ['inputs'],
     'all combinations of transparent inputs and outputs, 0 to 5 joinsplits, any number of shielded spends and outputs, every expiry height and lock time, positive and negative balances',
     'Fixtures contain at most one or two of each component; wide shapes and mixed shapes are never built.',
     ['riemann/tx/overwinter.py', 'riemann/tx/sapling.py', 'riemann/tx/zcash_shared.py'],
     [('constructors and from_bytes', 'riemann/tx/overwinter.py, riemann/tx/sapling.py, riemann/tx/zcash_shared.py')],
     ['OverwinterTx, SaplingTx, SproutJoinsplit, SaplingJoinsplit, SaplingShieldedSpend, SaplingShieldedOutput, zkproofs: to_bytes and from_bytes'])

prop('P12', 'Joinsplit hSig and primary inputs follow the Zcash protocol',
     'For every transaction with joinsplits, the per-joinsplit signature hash is the personalised BLAKE2b-256 of its random seed, nullifiers and the joinsplit public key, and the primary input is the concatenation of the anchor, nullifiers, commitments, public values, that hash and the message authentication codes, in this order.',
     ['inputs'],
     'all Sprout, Overwinter and Sapling transactions with 1 to 5 joinsplits and every joinsplit index',
     'One joinsplit of one recorded transaction is compared.',
     ['riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py'], [('hsigs / primary_inputs', 'riemann/tx/sprout.py, overwinter.py, sapling.py')],
     ['tx.hsigs', 'tx.primary_inputs'])

prop('P13', 'Variable-length integers encode and decode exactly',
     'Every integer from 0 to 2^64-1 encodes to the unique shortest CompactSize form and decodes back to itself; integers outside the range are refused. Decoding rejects truncated encodings, reports how many bytes it used, accepts longer-than-needed forms only where the format allows and then preserves them.',
     ['inputs'],
     'all integers, all nine-byte-or-shorter byte strings, all trailing data',
     'A dozen values are checked; the 5- and 9-byte forms are sampled at one point each.',
     [SH], [('VarInt.__init__ / from_bytes', SH)], ['VarInt', 'VarInt.from_bytes'])

prop('P14', 'Scripts survive the round trip between text and bytes',
     'Compiling any well-formed script text gives the standard script bytes with the minimal push prefix for each item, and decompiling gives back an equivalent text that compiles to the same bytes. Decompiling any script bytes either fails or yields text that describes the same sequence of operations and pushes.',
     ['inputs', 'programs', 'configurations'],
     'all sequences of supported opcodes and data pushes of 1 to 1000 bytes, on Bitcoin-like and Decred networks; all byte strings',
     'The tests hold a few dozen fixed scripts; push lengths on both sides of each prefix boundary, and interleavings of opcodes and pushes, are sampled only where the fixtures happen to be.',
     ['riemann/script/serialization.py', 'riemann/script/opcodes.py'], [('serialize / deserialize', 'riemann/script/serialization.py'), ('opcode tables', 'riemann/script/opcodes.py')],
     ['serialization.serialize / hex_serialize / deserialize / hex_deserialize'])

prop('P15', 'Malformed scripts are rejected',
     'Script text with unknown words, odd-length or non-hex data, or pushes over the limit is refused with an exception, and script bytes whose push runs past the end or whose opcode is unknown or unsupported are refused with an exception. A malformed script is never silently compiled or decompiled into a different one.',
     ['inputs', 'programs'],
     'all strings over opcode names, hex and junk tokens; all byte strings including every truncation of valid scripts',
     'One or two malformed examples are checked for each error.',
     ['riemann/script/serialization.py'], [('error branches of serialize and deserialize', 'riemann/script/serialization.py')],
     ['serialization.serialize / deserialize'])

prop('P16', 'Addresses and output scripts correspond one to one on every network',
     'On every supported network, the address made for a key hash, public key or script is the network encoding (base58check, bech32 or cashaddr with that network\'s prefixes) of the right hash, and converting an address to an output script and back returns the same address and script. Different hashes or kinds never share an address.',
     ['inputs', 'configurations'],
     'every one of the supported networks, all hashes, public keys and scripts, all address kinds the network has',
     'Address tests use one or two fixed hashes on a few networks.',
     ['riemann/encoding/addresses.py', 'riemann/networks/networks.py', 'riemann/encoding/base58.py', 'riemann/encoding/bech32.py', 'riemann/encoding/cashaddr.py'],
     [('make_* / to_output_script / from_output_script', 'riemann/encoding/addresses.py'), ('network prefix constants', 'riemann/networks/networks.py')],
     ['addresses.make_*_address', 'addresses.to_output_script', 'addresses.from_output_script'])

prop('P17', 'Invalid, corrupted or foreign addresses are refused',
     'A string that is not a valid address of the selected network is refused when an output script or a hash is asked for, and is never decoded when its checksum or alphabet is wrong: mistyped characters, broken checksums, wrong lengths, truncated or extended strings, mixed case, wrong prefixes and addresses of networks with different prefixes. An output script of no supported form is refused instead of being given an address.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all single and multiple character substitutions, deletions, insertions and swaps of valid addresses, all cross-network address pairs with distinguishable prefixes, valid checksums over wrong payload lengths or versions, arbitrary strings and arbitrary output scripts',
     'The tests try a few junk strings.',
     ['riemann/encoding/addresses.py', 'riemann/encoding/base58.py', 'riemann/encoding/bech32.py', 'riemann/encoding/cashaddr.py'],
     [('checksum checks', 'riemann/encoding/*.py'), ('prefix dispatch', 'riemann/encoding/addresses.py')],
     ['addresses.parse / parse_hash / to_output_script / from_output_script'])

prop('P18', 'Base58, bech32 and cashaddr codecs follow their specifications',
     'For any payload, encoding matches the published specification and decoding inverts it exactly, keeping leading zeros, and decoding any string either fails or returns a payload that encodes back to that string (up to the letter case where bech32 permits both). Any corruption of up to the number of characters guaranteed by the checksum is detected.',
     ['inputs'],
     'all payloads of the lengths each codec supports, all strings, all small corruptions',
     'Tests use the example vectors of the specifications.',
     ['riemann/encoding/base58.py', 'riemann/encoding/bech32.py', 'riemann/encoding/cashaddr.py'],
     [('encode / decode / checksum functions', 'riemann/encoding/*.py')],
     ['base58.encode / decode / *_with_checksum', 'bech32.encode / decode / segwit_*', 'cashaddr.encode / decode'])

prop('P19', 'The hash inside an address is extracted exactly',
     'Extracting the hash from any valid address of the selected network returns precisely the key hash, script hash or witness program the address was made from, for every address kind and network.',
     ['inputs', 'configurations'],
     'all networks, all hashes (including those with leading zero bytes) and all address kinds, in every encoding the network accepts',
     'Four fixed addresses are tested.',
     ['riemann/encoding/addresses.py'], [('parse_hash', 'riemann/encoding/addresses.py')], ['addresses.parse_hash'])

prop('P20', 'Transaction objects are immutable and copies are independent',
     'Once built, no attribute of a transaction or component can be set, replaced, deleted or changed through an object obtained from it or passed to its constructor; attempts raise and leave it unchanged. Copying with overrides returns a new object with exactly the named fields changed and leaves the original untouched, and computing digests or ids changes nothing.',
     ['inputs', 'histories'],
     'all histories of attribute writes, deletes, mutation of constructor arguments and of returned containers, copies with any overrides, digest computations and serialisations, on every transaction and component kind',
     'The tests try one attribute write and one copy per class, in one order.',
     [TX, SH, 'riemann/tx/decred.py', 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py', 'riemann/tx/zcash_shared.py'],
     [('ByteData.__setattr__ / _make_immutable', SH), ('copy methods', 'riemann/tx/*.py')],
     ['attribute assignment and deletion', 'copy()', 'to_bytes()'],
     [('immutable flag', 'set at the end of construction', SH)])

prop('P21', 'Network selection is complete, exact and isolated',
     'Selecting any supported network makes every later operation use exactly that network\'s parameters, whatever was selected and done before, and unknown names are refused leaving the current selection unchanged. The published parameters of each network are stable.',
     ['histories', 'configurations'],
     'all sequences of network selections (valid and invalid) interleaved with address, script, hash and transaction operations',
     'Tests reset the network between cases and select few networks; no test checks parameters across a sequence of selections.',
     ['riemann/__init__.py', 'riemann/networks/__init__.py', 'riemann/networks/networks.py', 'riemann/script/opcodes.py'],
     [('select_network / get_current_network', 'riemann/__init__.py'), ('parameter tables', 'riemann/networks/networks.py')],
     ['riemann.select_network', 'riemann.get_current_network(_name)', 'network attributes through addresses, hashes and digests'],
     [('current network', 'process-wide selection', 'riemann/__init__.py')])

prop('P22', 'Builder helpers equal construction from the parts',
     'Every builder helper, low-level or simple, on any legal arguments yields exactly the bytes obtained by hand from the wire format: outputs pay the stated amount to the stated script, inputs spend the stated outpoint with the stated sequence, scripts and witnesses, and the assembled transaction carries the segwit flag exactly when it needs it. This holds for every network family.',
     ['inputs', 'configurations'],
     'all outpoints, values, scripts, keys, sequences, witness stacks, lock times and expiries, on Bitcoin-like, Decred and the three Zcash formats',
     'Tests call each helper once or twice and often with mocked constructors.',
     ['riemann/tx/tx_builder.py', 'riemann/simple.py'], [('make_* helpers', 'riemann/tx/tx_builder.py'), ('output, unsigned_input, unsigned_witness_tx, ...', 'riemann/simple.py')],
     ['tx_builder.make_*', 'simple.*'])

prop('P23', 'Fee is spent value minus paid value',
     'For every transaction and any list of spent values, the computed fee is exactly the sum of the spent values minus the sum of all outputs (plus the net shielded value where the format has it), regardless of order or grouping.',
     ['inputs'],
     'all transactions of every format and all spent-value lists, including lists summing to less than the outputs',
     'One example per format.',
     [TX, 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py', 'riemann/tx/decred.py'],
     [('calculate_fee', 'riemann/tx/*.py')], ['calculate_fee'])

prop('P24', 'Integer and byte-order conversions are exact inverses',
     'Little- and big-endian conversions of any non-negative integer give the shortest encoding, padded conversions give exactly the requested width or refuse, and decoding inverts them, signed or unsigned. Byte-order reversal is an involution and script-number conversion gives the documented encoding for every integer.',
     ['inputs'],
     'all integers, widths and byte strings',
     'A few values per function.',
     ['riemann/utils.py'], [('i2le, i2be, le2i, be2i, *_padded, i2le_script, change_endianness', 'riemann/utils.py')],
     ['riemann.utils functions'])

prop('P25', 'Hash functions match their specifications however they are fed',
     'BLAKE-224/256/384/512 of any message equals the specification value, no matter how the message is split between updates, with any salt, and repeated digest reads agree. The hash helpers for single and double hashes, for 160-bit hashes and for the personalised BLAKE2 hashes equal their definitions on every network.',
     ['inputs', 'histories', 'configurations'],
     'all messages (every length modulo the block size), all chunkings into updates, all salts, all digest sizes; all networks',
     'A few short messages with a single update are tested.',
     ['riemann/blake256.py', 'riemann/utils.py'], [('BLAKE.update / final / addsalt', 'riemann/blake256.py'), ('hash160, hash256, sha256, rmd160, blake2b, blake2s', 'riemann/utils.py')],
     ['BLAKE(...).update/digest/hexdigest', 'riemann.utils hash helpers'])

prop('P26', 'Constructors refuse malformed fields and accept legal ones',
     'Every transaction and component constructor refuses fields of the wrong type, the wrong byte length, the wrong count or beyond the format\'s limits, and accepts every field within them. A refused construction leaves no object behind, and what is accepted serialises to its exact fields.',
     ['inputs'],
     'all fields of all component and transaction kinds, with values at, just inside and just outside each limit',
     'Each error branch is exercised by one example far from the limit.',
     [TX, SH, 'riemann/tx/decred.py', 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py', 'riemann/tx/zcash_shared.py'],
     [('validate_bytes and constructor checks', 'riemann/tx/*.py')], ['constructors'])

prop('P27', 'Standardness policy accepts standard and refuses non-standard transactions',
     'The standardness check accepts every transaction that uses only standard versions, sizes, push-only script signatures, standard output templates, non-dust values and at most one data-carrier output, and refuses any transaction that breaks one of these rules, without raising. A script is push-only if it has only data of up to OP_PUSHDATA2 and OP_0 to OP_16, and a data carrier is an OP_RETURN of at most 83 bytes, push-only after its first byte, without value. Its size and lock-time finality checks follow their rules.',
     ['inputs'],
     'all transactions built from standard templates and all single-rule mutations of them, including boundary values of each limit',
     'No test imports the policy module.',
     ['riemann/networks/standard.py'], [('is_standard and its helpers', 'riemann/networks/standard.py')], ['networks.standard functions'])

prop('P28', 'Byte containers behave like the bytes they hold',
     'A byte container compares, concatenates, indexes, slices, iterates, measures, hexes and tests membership of byte values exactly as the bytes it was given, whether those arrived as bytes, bytearray, hex or other containers. Concatenation is associative and finding a subsequence agrees with bytes search.',
     ['inputs', 'histories'],
     'all byte strings and all sequences of container operations, mixed with plain bytes',
     'One fixed value per operator.',
     [SH], [('ByteData', SH)], ['ByteData operators and methods'])

prop('P29', 'Transactions made and signed through the library spend their coins',
     'On every network family, outputs made with the library and spent by a transaction built with it, with valid signatures over the digests it gives and with script sigs and witnesses assembled by its helpers, are accepted by a node that checks the final bytes. This holds for every supported kind of coin (key, script, witness and nested witness outputs) and mix of them, any signing order, transport through bytes between the steps, and inputs or outputs that join after a signature whose hash type allows it.',
     ['histories', 'inputs', 'configurations'],
     'all histories of funding, building, signing, serialising, extending and completing over coins of all kinds, hash types, lock times, sequences and network families',
     'Tests compare isolated calls with fixed transactions; none composes outputs, digests and script sigs into a spend and runs it.',
     [TX, 'riemann/tx/tx_builder.py', 'riemann/simple.py', 'riemann/script/serialization.py', 'riemann/encoding/addresses.py', 'riemann/tx/decred.py', 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py', 'riemann/tx/sapling.py', 'riemann/script/examples.py'],
     [('sighash_all / sighash_single', 'riemann/tx/*.py'), ('make_script_sig, make_witness, make_*_output, copy', 'riemann/tx/tx_builder.py')],
     ['final transaction bytes'])

prop('P30', 'Every call is independent of earlier and concurrent calls',
     'The result of any call depends only on its arguments and the selected network: it is the same in a fresh process, after any sequence of other successful or failing calls, on objects that were used before, and next to calls in other threads on the same network. No call modifies an argument it was given, and modifying a returned value does not affect later calls.',
     ['histories', 'schedules', 'inputs', 'configurations'],
     'all sequences of calls over the public functions, with equal and nearly equal arguments, objects kept between calls, network changes in between, and thread interleavings',
     'Tests make each call once, in a fixed order, in one thread, and do not look at the arguments afterwards.',
     ['riemann/__init__.py', 'riemann/utils.py', 'riemann/blake256.py', 'riemann/encoding/addresses.py', 'riemann/script/serialization.py', TX, SH, 'riemann/tx/tx_builder.py', 'riemann/simple.py'],
     [('module and class level state; argument handling', 'riemann/**/*.py')], ['return values, exceptions and arguments of public functions'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
