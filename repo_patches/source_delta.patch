From 4af813e942a53017d82368cb9fc5e346faab0734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 01/29] fix: only flagged transactions use the segwit signature
 digest

Tx.from_bytes and copies of such transactions hold an empty witness tuple
for legacy transactions, which made is_witness() true and sighash_all and
sighash_single return the BIP143 digest for a legacy transaction.
---
 riemann/tx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index a58b8a6..88aa16b 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -625,7 +625,7 @@ class Tx(ByteData):
 
     def is_witness(self) -> bool:
         '''Return True if the transaction witness flag is set'''
-        return self.flag is not None or self.tx_witnesses is not None
+        return self.flag is not None
 
     def calculate_fee(self, input_values: Sequence[int]) -> int:
         '''
-- 
2.43.0


From 4c8fcfa270ca05ca20c5466c4a09ca1db7506bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 02/29] fix: SIGHASH_SINGLE keeps exactly index + 1 outputs
 (bitcoin, sprout)

The outputs were nulled once per input, so the digest was wrong, or an
IndexError was raised, unless index was that of the last input.
---
 riemann/tx/sprout.py | 2 +-
 riemann/tx/tx.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 117ac25..29601b6 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -310,7 +310,7 @@ class SproutTx(z.ZcashByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = copy_tx.tx_outs[:index + 1]
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 88aa16b..396a9ce 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -924,7 +924,7 @@ class Tx(ByteData):
         # Other tx_outs are set to -1 value and null scripts
         copy_tx_outs = list(copy_tx.tx_outs[:index + 1])
         copy_tx_outs = [TxOut(value=b'\xff' * 8, output_script=b'')
-                        for _ in copy_tx.tx_ins]  # Null them all
+                        for _ in copy_tx_outs]  # Null them all
         copy_tx_outs[index] = copy_tx.tx_outs[index]  # Fix the current one
 
         # Other tx_ins sequence numbers are set to 0
-- 
2.43.0


From 62b3d71ef9d9d2ec2084eb89d37236460b6ab3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 03/29] fix: Decred SIGHASH_SINGLE keeps exactly index + 1
 outputs

The outputs were nulled once per input. dcrd truncates the outputs after
the signed one and blanks the value and script of those before it, leaving
their script version as it is.
---
 riemann/tx/decred.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index 5084d15..b431540 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -366,11 +366,10 @@ class DecredTx(DecredByteData):
 
         try:
             copy_tx_outs = copy_tx.tx_outs[:index + 1]
-            copy_tx_outs = [DecredTxOut(
+            copy_tx_outs = [tx_out.copy(
                             value=b'\xff' * 8,
-                            version=b'\x00\x00',
                             output_script=b'')
-                            for _ in copy_tx.tx_ins]
+                            for tx_out in copy_tx_outs]
             copy_tx_outs[index] = copy_tx.tx_outs[index]
         except IndexError:
             raise NotImplementedError(
-- 
2.43.0


From 3aeaa80a83a9bfac55366165fa864cba48fff211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 04/29] fix: Decred ANYONECANPAY commits to the signed input
 only

The digest still contained every other input, so that nobody could add
one. dcrd hashes only the signed input and its witness.
---
 riemann/tx/decred.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index b431540..d583aa0 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -416,11 +416,10 @@ class DecredTx(DecredByteData):
                                 index: int,
                                 copy_tx: 'DecredTx',
                                 sighash_type: int) -> bytes:
-        copy_tx_witnesses = [
-            w.copy(stack_script=b'', redeem_script=b'')
-            for w in copy_tx.tx_witnesses]
-        copy_tx_witnesses[index] = copy_tx.tx_witnesses[index]
-        copy_tx = copy_tx.copy(tx_witnesses=copy_tx_witnesses)
+        # Only the input being signed, and its witness, are committed to
+        copy_tx = copy_tx.copy(
+            tx_ins=[copy_tx.tx_ins[index]],
+            tx_witnesses=[copy_tx.tx_witnesses[index]])
 
         return self._sighash_final_hashing(
             index=index,
-- 
2.43.0


From 5b5aa89d7766ab9f7975ec95c385ff57a29b4628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 05/29] fix: VarInt parsing checks its length and keeps longer
 forms

A truncated 5- or 9-byte form was accepted as a shorter number, 253 to 255
in three bytes were taken for non-compact, empty input raised IndexError,
and a non-compact number lost its prefix when it was written again.
---
 riemann/tx/decred.py |  3 +++
 riemann/tx/shared.py | 23 ++++++++++++++++-------
 riemann/tx/tx.py     |  3 +++
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index d583aa0..b148198 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -125,6 +125,9 @@ class DecredTxOut(DecredByteData):
 
     @classmethod
     def from_bytes(DecredTxOut, byte_string: bytes) -> 'DecredTxOut':
+        if byte_string[10:11] >= b'\xfc':
+            raise NotImplementedError(
+                'No support for abnormally long pk_scripts.')
         n = shared.VarInt.from_bytes(byte_string[10:])
         script_start = 10 + len(n)
         script_end = script_start + n.number
diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index f478326..ae9c1d1 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -172,15 +172,18 @@ class VarInt(ByteData):
             raise ValueError('VarInt cannot be greater than (2 ** 64) - 1. '
                              'Got: {}'
                              .format(number))
-        if number <= 0xfc:
+        # A longer form than needed is used only if asked for by `length`
+        if length not in (3, 5, 9):
+            length = None
+        if number <= 0xfc and length is None:
             pass  # No prefix
-        elif number <= 0xffff or length == 3:
+        elif number <= 0xffff and length in (None, 3):
             self += bytes([0xfd])
             length = 3
-        elif number <= 0xffffffff or length == 5:
+        elif number <= 0xffffffff and length != 9:
             self += bytes([0xfe])
             length = 5
-        elif number <= 0xffffffffffffffff or length == 9:
+        else:
             self += bytes([0xff])
             length = 9
         self += utils.i2le(number)
@@ -194,7 +197,7 @@ class VarInt(ByteData):
         self._make_immutable()
 
     def copy(self) -> 'VarInt':
-        return VarInt(self.number)
+        return VarInt(self.number, length=len(self))
 
     @classmethod
     def from_bytes(VarInt, byte_string: bytes) -> 'VarInt':
@@ -203,19 +206,25 @@ class VarInt(ByteData):
         accepts arbitrary length input, gets a VarInt off the front
         '''
         num = byte_string
+        if len(num) == 0:
+            raise ValueError('Malformed VarInt. Got no bytes.')
         if num[0] <= 0xfc:
             num = num[0:1]
+            length = 1
             non_compact = False
         elif num[0] == 0xfd:
             num = num[1:3]
-            non_compact = (num[-1:] == b'\x00')
+            length = 2
+            non_compact = utils.le2i(num) <= 0xfc
         elif num[0] == 0xfe:
             num = num[1:5]
+            length = 4
             non_compact = (num[-2:] == b'\x00\x00')
         elif num[0] == 0xff:
             num = num[1:9]
+            length = 8
             non_compact = (num[-4:] == b'\x00\x00\x00\x00')
-        if len(num) not in [1, 2, 4, 8]:
+        if len(num) != length:
             raise ValueError('Malformed VarInt. Got: {}'
                              .format(byte_string.hex()))
 
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 396a9ce..bdb12fe 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -273,6 +273,9 @@ class TxOut(ByteData):
         '''
         Parse a TxOut from a bytestring. Also available as from_hex
         '''
+        if byte_string[8:9] >= b'\xfc':
+            raise NotImplementedError(
+                'No support for abnormally long pk_scripts.')
         n = VarInt.from_bytes(byte_string[8:])
         script_start = 8 + len(n)
         script_end = script_start + n.number
-- 
2.43.0


From 5ac255864de3260c7987ef5ee83e7fa8ff4a4373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 06/29] fix: parsing a TxIn keeps its script sig byte for byte

A script sig with non-minimal pushes was rewritten with minimal ones, and
one whose last item failed to reserialize lost that item or had it twice:
the parsed transaction had another tx_id.
---
 riemann/tx/tx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index bdb12fe..e9e6622 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -169,8 +169,6 @@ class TxIn(ByteData):
         byte_string -> (byte_string, byte_string)
         '''
         # Is there a better way to do this?
-        stack_script = script_sig
-        redeem_script = b''
         try:
             # If the last entry deserializes, it's a p2sh input
             # There is a vanishingly small edge case where the pubkey
@@ -181,9 +179,12 @@ class TxIn(ByteData):
             serialization.hex_deserialize(items[-1])
             stack_script = serialization.serialize(' '.join(items[:-1]))
             redeem_script = serialization.serialize(items[-1])
+            # Pushes that are not minimal do not survive reserialization
+            if stack_script + redeem_script == script_sig:
+                return stack_script, redeem_script
         except (IndexError, ValueError, NotImplementedError):
             pass
-        return stack_script, redeem_script
+        return script_sig, b''
 
     @classmethod
     def from_bytes(TxIn, byte_string: bytes) -> 'TxIn':
-- 
2.43.0


From 01c723dd405d08f3e597f50cb16211d1fd1a7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 07/29] fix: deserialize checks PUSHDATA bounds and keeps empty
 pushes

PUSHDATA1 and PUSHDATA2 running past the end of the script were accepted as
a shorter push, and a push of no bytes disappeared from the script text.
---
 riemann/script/serialization.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/riemann/script/serialization.py b/riemann/script/serialization.py
index 666aaf4..23c5535 100644
--- a/riemann/script/serialization.py
+++ b/riemann/script/serialization.py
@@ -104,19 +104,29 @@ def deserialize(serialized_script: bytes) -> str:
             # next hex blob length
             blob_len = serialized_script[i + 1]
 
+            # A push of no bytes is the same as OP_0
             deserialized.append(
-                serialized_script[i + 2: i + 2 + blob_len].hex())
+                serialized_script[i + 2: i + 2 + blob_len].hex() or 'OP_0')
 
             i += 2 + blob_len
+            if i > len(serialized_script):
+                raise IndexError(
+                    'Push {} caused out of bounds exception.'
+                    .format(blob_len))
 
         elif current_byte == 77:
             # next hex blob length
             blob_len = utils.le2i(serialized_script[i + 1: i + 3])
 
+            # A push of no bytes is the same as OP_0
             deserialized.append(
-                serialized_script[i + 3: i + 3 + blob_len].hex())
+                serialized_script[i + 3: i + 3 + blob_len].hex() or 'OP_0')
 
             i += 3 + blob_len
+            if i > len(serialized_script):
+                raise IndexError(
+                    'Push {} caused out of bounds exception.'
+                    .format(blob_len))
 
         elif current_byte == 78:
             raise NotImplementedError('OP_PUSHDATA4 is a bad idea.')
-- 
2.43.0


From c3a201d7c681cf7bd82aa12444bdba33c122b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 08/29] fix: parsing refuses outputs and witness items that are
 cut short

Slicing past the end gave a shorter script or item, with a length prefix
that did not come from the input.
---
 riemann/tx/decred.py | 2 ++
 riemann/tx/tx.py     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/riemann/tx/decred.py b/riemann/tx/decred.py
index b148198..1d7f60a 100644
--- a/riemann/tx/decred.py
+++ b/riemann/tx/decred.py
@@ -132,6 +132,8 @@ class DecredTxOut(DecredByteData):
         script_start = 10 + len(n)
         script_end = script_start + n.number
         if n.number < 0xfc:
+            if script_end > len(byte_string):
+                raise ValueError('Malformed TxOut. Script is cut short.')
             return DecredTxOut(
                 value=byte_string[:8],
                 version=byte_string[8:10],
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index e9e6622..9563d3f 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -281,6 +281,8 @@ class TxOut(ByteData):
         script_start = 8 + len(n)
         script_end = script_start + n.number
         if n.number < 0xfc:
+            if script_end > len(byte_string):
+                raise ValueError('Malformed TxOut. Script is cut short.')
             return TxOut(
                 value=byte_string[:8],
                 output_script=byte_string[script_start:script_end])
@@ -321,6 +323,8 @@ class WitnessStackItem(ByteData):
         n = VarInt.from_bytes(byte_string)
         item_start = len(n)
         item_end = item_start + n.number
+        if item_end > len(byte_string):
+            raise ValueError('Malformed WitnessStackItem. Item is cut short.')
         return WitnessStackItem(byte_string[item_start:item_end])
 
 
-- 
2.43.0


From 7ae0181ddc664bce45612af945bb7af983086a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 09/29] fix: parsing transactions refuses length prefixes that
 are not compact

They were rewritten in the shortest form, so that the parsed bytes, the
position of all that follows, and the tx_id were wrong. Bitcoin and Zcash
nodes refuse such transactions.
---
 riemann/tx/shared.py |  9 +++++++--
 riemann/tx/sprout.py |  9 ++++++---
 riemann/tx/tx.py     | 13 ++++++++-----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index ae9c1d1..2afc085 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -200,10 +200,14 @@ class VarInt(ByteData):
         return VarInt(self.number, length=len(self))
 
     @classmethod
-    def from_bytes(VarInt, byte_string: bytes) -> 'VarInt':
+    def from_bytes(VarInt,
+                   byte_string: bytes,
+                   compact: bool = False) -> 'VarInt':
         '''
         byte-like -> VarInt
         accepts arbitrary length input, gets a VarInt off the front
+        refuses a longer form than needed if `compact` is set, as transactions
+        must use the shortest, and always in Overwinter and Sapling
         '''
         num = byte_string
         if len(num) == 0:
@@ -229,7 +233,8 @@ class VarInt(ByteData):
                              .format(byte_string.hex()))
 
         if (non_compact
-            and ('overwinter' in riemann.get_current_network_name()
+            and (compact
+                 or 'overwinter' in riemann.get_current_network_name()
                  or 'sapling' in riemann.get_current_network_name())):
             raise ValueError('VarInt must be compact. Got: {}'
                              .format(byte_string.hex()))
diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 29601b6..cc34844 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -160,7 +160,8 @@ class SproutTx(z.ZcashByteData):
         '''
         version = byte_string[0:4]
         tx_ins = []
-        tx_ins_num = shared.VarInt.from_bytes(byte_string[4:])
+        tx_ins_num = shared.VarInt.from_bytes(
+            byte_string[4:], compact=True)
 
         current = 4 + len(tx_ins_num)
         for _ in range(tx_ins_num.number):
@@ -169,7 +170,8 @@ class SproutTx(z.ZcashByteData):
             tx_ins.append(tx_in)
 
         tx_outs = []
-        tx_outs_num = shared.VarInt.from_bytes(byte_string[current:])
+        tx_outs_num = shared.VarInt.from_bytes(
+            byte_string[current:], compact=True)
 
         current += len(tx_outs_num)
         for _ in range(tx_outs_num.number):
@@ -185,7 +187,8 @@ class SproutTx(z.ZcashByteData):
         joinsplit_sig = None
         if utils.le2i(version) == 2:  # If we expect joinsplits
             tx_joinsplits = []
-            tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
+            tx_joinsplits_num = shared.VarInt.from_bytes(
+                byte_string[current:], compact=True)
             current += len(tx_joinsplits_num)
 
             for _ in range(tx_joinsplits_num.number):
diff --git a/riemann/tx/tx.py b/riemann/tx/tx.py
index 9563d3f..4229d87 100644
--- a/riemann/tx/tx.py
+++ b/riemann/tx/tx.py
@@ -194,7 +194,8 @@ class TxIn(ByteData):
         outpoint = Outpoint.from_bytes(byte_string[:36])
 
         # Extract the script sig length
-        script_sig_len = VarInt.from_bytes(byte_string[36:45])
+        script_sig_len = VarInt.from_bytes(
+            byte_string[36:45], compact=True)
 
         # Extract the script sig
         script_start = 36 + len(script_sig_len)
@@ -320,7 +321,7 @@ class WitnessStackItem(ByteData):
         '''
         Parse a WitnessStackItem from a bytestring. Also available as from_hex
         '''
-        n = VarInt.from_bytes(byte_string)
+        n = VarInt.from_bytes(byte_string, compact=True)
         item_start = len(n)
         item_end = item_start + n.number
         if item_end > len(byte_string):
@@ -367,7 +368,7 @@ class InputWitness(ByteData):
         '''
         Parse an InputWitness from a bytestring. Also available as from_hex
         '''
-        stack_items = VarInt.from_bytes(byte_string)
+        stack_items = VarInt.from_bytes(byte_string, compact=True)
         item_start = len(stack_items)
         items: List[WitnessStackItem] = []
         while len(items) < stack_items.number:
@@ -574,7 +575,8 @@ class Tx(ByteData):
 
         # Get the length of the tx_in vector
         tx_ins = []
-        tx_ins_num = VarInt.from_bytes(byte_string[tx_ins_num_loc:])
+        tx_ins_num = VarInt.from_bytes(
+            byte_string[tx_ins_num_loc:], compact=True)
 
         # `current` is the index of next read
         current = tx_ins_num_loc + len(tx_ins_num)
@@ -587,7 +589,8 @@ class Tx(ByteData):
 
         # Get the length of the tx_out vector
         tx_outs = []
-        tx_outs_num = VarInt.from_bytes(byte_string[current:])
+        tx_outs_num = VarInt.from_bytes(
+            byte_string[current:], compact=True)
 
         # Deserialize all outputs
         current += len(tx_outs_num)
-- 
2.43.0


From eadba32f320423c1b5a843354e6a719dac34199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 10/29] fix: Overwinter and Sapling parsing skips the right
 joinsplit count

The cursor moved by the size of the output count, so that transactions with
253 or more outputs and joinsplits were misparsed. An Overwinter transaction
cut short before the joinsplit count was accepted.
---
 riemann/tx/overwinter.py | 25 ++++++++++++-------------
 riemann/tx/sapling.py    |  2 +-
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 3e39d94..d67904e 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -235,22 +235,21 @@ class OverwinterTx(z.ZcashByteData):
         expiry_height = byte_string[current:current + 4]
         current += 4
 
-        tx_joinsplits: Sequence[z.SproutJoinsplit]
-        if current == len(byte_string):
-            # No joinsplits
-            tx_joinsplits = tuple()
+        tx_joinsplits = []
+        tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
+        current += len(tx_joinsplits_num)
+        for _ in range(tx_joinsplits_num.number):
+            tx_joinsplit = z.SproutJoinsplit.from_bytes(
+                byte_string[current:])
+            current += len(tx_joinsplit)
+            tx_joinsplits.append(tx_joinsplit)
+
+        joinsplit_pubkey: Optional[bytes]
+        joinsplit_sig: Optional[bytes]
+        if len(tx_joinsplits) == 0:
             joinsplit_pubkey = None
             joinsplit_sig = None
         else:
-            tx_joinsplits = []
-            tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-            current += len(tx_outs_num)
-            for _ in range(tx_joinsplits_num.number):
-                tx_joinsplit = z.SproutJoinsplit.from_bytes(
-                    byte_string[current:])
-                current += len(tx_joinsplit)
-                tx_joinsplits.append(tx_joinsplit)
-
             joinsplit_pubkey = byte_string[current:current + 32]
             current += 32
             joinsplit_sig = byte_string[current:current + 64]
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index c606300..dfcf1bb 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -561,7 +561,7 @@ class SaplingTx(z.ZcashByteData):
 
         tx_joinsplits = []
         tx_joinsplits_num = shared.VarInt.from_bytes(byte_string[current:])
-        current += len(tx_outs_num)
+        current += len(tx_joinsplits_num)
         for _ in range(tx_joinsplits_num.number):
             tx_joinsplit = SaplingJoinsplit.from_bytes(
                 byte_string[current:])
-- 
2.43.0


From 641916598eacc083eb77024e539791c5785d5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 11/29] fix: Sprout transactions without joinsplits

Version 1 transactions could not be parsed, version 2 ones without
joinsplits had to carry a joinsplit key and signature, which the protocol
leaves out, and neither could use SIGHASH_SINGLE or ANYONECANPAY.
---
 riemann/tx/sprout.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index cc34844..030bcb1 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -69,9 +69,10 @@ class SproutTx(z.ZcashByteData):
                         'Invalid Joinsplit. '
                         'Expected instance of SproutJoinsplit. Got {}'
                         .format(type(tx_joinsplit).__name__))
-            self.validate_bytes(joinsplit_pubkey, 32)
-            if joinsplit_sig is not None and joinsplit_sig != b'':
-                self.validate_bytes(joinsplit_sig, 64)
+            if len(tx_joinsplits) != 0:
+                self.validate_bytes(joinsplit_pubkey, 32)
+                if joinsplit_sig is not None and joinsplit_sig != b'':
+                    self.validate_bytes(joinsplit_sig, 64)
 
         if utils.le2i(version) not in [1, 2]:
             raise ValueError('Version must be 1 or 2. '
@@ -90,16 +91,18 @@ class SproutTx(z.ZcashByteData):
             self += shared.VarInt(len(tx_joinsplits))
             for tx_joinsplit in tx_joinsplits:
                 self += tx_joinsplit
-            self += cast(bytes, joinsplit_pubkey)
-            self += cast(bytes, joinsplit_sig)
+            if len(tx_joinsplits) != 0:
+                self += cast(bytes, joinsplit_pubkey)
+                self += cast(bytes, joinsplit_sig)
 
         self.version = version
         self.tx_ins = tuple(tx_in for tx_in in tx_ins)
         self.tx_outs = tuple(tx_out for tx_out in tx_outs)
-        self.tx_joinsplits = tuple(js for js in tx_joinsplits)
+        self.tx_joinsplits = (tuple(js for js in tx_joinsplits)
+                              if tx_joinsplits is not None else tuple())
         self.lock_time = lock_time
 
-        if version == utils.i2le_padded(2, 4):
+        if len(self.tx_joinsplits) != 0:
             self.joinsplit_pubkey = joinsplit_pubkey
             self.joinsplit_sig = joinsplit_sig
             # Zcash spec 5.4.1.4 Hsig hash function
@@ -195,9 +198,10 @@ class SproutTx(z.ZcashByteData):
                 joinsplit = z.SproutJoinsplit.from_bytes(byte_string[current:])
                 current += len(joinsplit)
                 tx_joinsplits.append(joinsplit)
-            joinsplit_pubkey = byte_string[current:current + 32]
-            current += 32
-            joinsplit_sig = byte_string[current:current + 64]
+            if len(tx_joinsplits) != 0:
+                joinsplit_pubkey = byte_string[current:current + 32]
+                current += 32
+                joinsplit_sig = byte_string[current:current + 64]
 
         return SproutTx(
             version=version,
@@ -300,7 +304,7 @@ class SproutTx(z.ZcashByteData):
         https://github.com/petertodd/python-bitcoinlib/blob/051ec4e28c1f6404fd46713c2810d4ebbed38de4/bitcoin/core/script.py#L913-L965
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError('Sighash single not permitted with joinsplits.')
 
         if index >= len(self.tx_outs):
@@ -344,7 +348,7 @@ class SproutTx(z.ZcashByteData):
         https://en.bitcoin.it/wiki/OP_CHECKSIG#Procedure_for_Hashtype_SIGHASH_ANYONECANPAY
         '''
 
-        if self.tx_joinsplits is not None:
+        if len(self.tx_joinsplits) != 0:
             raise ValueError(
                 'Sighash anyonecanpay not permitted with joinsplits.')
 
-- 
2.43.0


From d33f49695fc1634c452c278dd8260dede59832b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 12/29] fix: the Sprout digest blanks the joinsplit signature
 with zeros

The signature was left out of the digest. zcashd hashes 64 zero bytes in
its place, and the recorded transaction's joinsplit signature verifies
over that digest only.
---
 riemann/tx/sprout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riemann/tx/sprout.py b/riemann/tx/sprout.py
index 030bcb1..c5d6b87 100644
--- a/riemann/tx/sprout.py
+++ b/riemann/tx/sprout.py
@@ -260,7 +260,7 @@ class SproutTx(z.ZcashByteData):
         '''
 
         if len(self.tx_ins) == 0:
-            return self.copy(joinsplit_sig=b'')
+            return self.copy(joinsplit_sig=b'\x00' * 64)
         # 0 out scripts in tx_ins
         copy_tx_ins = [tx_in.copy(stack_script=b'', redeem_script=b'')
                        for tx_in in self.tx_ins]
@@ -271,7 +271,7 @@ class SproutTx(z.ZcashByteData):
         copy_tx_ins[index] = \
             copy_tx_ins[index].copy(redeem_script=script[len(to_strip):])
 
-        return self.copy(tx_ins=copy_tx_ins, joinsplit_sig=b'')
+        return self.copy(tx_ins=copy_tx_ins, joinsplit_sig=b'\x00' * 64)
 
     def sighash_all(self,
                     index: int,
-- 
2.43.0


From 1e1221abbde9aecf9fc8292c1ec941efcedcc941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 13/29] fix: make_tx and the output helpers work for Decred and
 Zcash

make_tx wrapped the Decred witnesses in another list, passed an integer
version to SproutTx, refused negative Sapling balances and absent Sapling
lists; Decred outputs could not be made by any helper, as none passes a
script version.
---
 riemann/tx/tx_builder.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/riemann/tx/tx_builder.py b/riemann/tx/tx_builder.py
index 77b34b6..2f769fa 100644
--- a/riemann/tx/tx_builder.py
+++ b/riemann/tx/tx_builder.py
@@ -3,7 +3,7 @@ from riemann import utils
 from riemann.script import serialization
 from riemann.tx import tx, decred, overwinter, sapling, sprout, zcash_shared
 
-from typing import cast, List, Optional, overload
+from typing import List, Optional, overload
 
 
 def make_sh_script_pubkey(script_bytes: bytes, witness: bool = False) -> bytes:
@@ -168,7 +168,7 @@ def _make_output(  # noqa: F811
     if 'decred' in riemann.get_current_network_name():
         return decred.DecredTxOut(
             value=value,
-            version=cast(int, version),
+            version=version if version is not None else b'\x00\x00',
             output_script=output_script)
     return tx.TxOut(value=value, output_script=output_script)
 
@@ -577,10 +577,10 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry=utils.i2le_padded(expiry, 4),
-            tx_witnesses=[tx_witnesses])
-    if 'sprout' in n and tx_joinsplits is not None:
+            tx_witnesses=tx_witnesses if tx_witnesses is not None else [])
+    if 'sprout' in n:
         return sprout.SproutTx(
-            version=version,
+            version=utils.i2le_padded(version, 4),
             tx_ins=tx_ins,
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
@@ -602,10 +602,12 @@ def make_tx(  # noqa: F811
             tx_outs=tx_outs,
             lock_time=utils.i2le_padded(lock_time, 4),
             expiry_height=utils.i2le_padded(expiry, 4),
-            value_balance=utils.i2le_padded(value_balance, 8),
-            tx_shielded_spends=tx_shielded_spends,
-            tx_shielded_outputs=tx_shielded_outputs,
-            tx_joinsplits=tx_joinsplits,
+            value_balance=value_balance.to_bytes(8, 'little', signed=True),
+            tx_shielded_spends=(tx_shielded_spends
+                                if tx_shielded_spends is not None else []),
+            tx_shielded_outputs=(tx_shielded_outputs
+                                 if tx_shielded_outputs is not None else []),
+            tx_joinsplits=tx_joinsplits if tx_joinsplits is not None else [],
             joinsplit_pubkey=joinsplit_pubkey,
             joinsplit_sig=joinsplit_sig,
             binding_sig=binding_sig)
-- 
2.43.0


From 9af067847562427ead1d3ee8140e5df01b723efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 14/29] fix: Overwinter and Sapling sighash_all and
 sighash_single pass on ANYONECANPAY

The argument was accepted and dropped, giving the digest that commits to
all inputs.
---
 riemann/tx/overwinter.py | 11 +++++++++--
 riemann/tx/sapling.py    | 10 ++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index d67904e..47a6bbd 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -267,10 +267,17 @@ class OverwinterTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(
+            sighash_type=shared.SIGHASH_ALL,
+            anyone_can_pay=anyone_can_pay,
+            **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
+        # Callers have passed a sighash type in place of the flag
+        return self.sighash(
+            sighash_type=shared.SIGHASH_SINGLE,
+            anyone_can_pay=anyone_can_pay is True,
+            **kwargs)
 
     def sighash(self,
                 sighash_type: int,
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index dfcf1bb..2d2b536 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -603,10 +603,16 @@ class SaplingTx(z.ZcashByteData):
         return False
 
     def sighash_all(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_ALL, **kwargs)
+        return self.sighash(
+            sighash_type=shared.SIGHASH_ALL,
+            anyone_can_pay=anyone_can_pay,
+            **kwargs)
 
     def sighash_single(self, anyone_can_pay: bool = False, **kwargs) -> bytes:
-        return self.sighash(sighash_type=shared.SIGHASH_SINGLE, **kwargs)
+        return self.sighash(
+            sighash_type=shared.SIGHASH_SINGLE,
+            anyone_can_pay=anyone_can_pay,
+            **kwargs)
 
     def sighash(self,
                 sighash_type: int,
-- 
2.43.0


From ee382655573429c50986b785050c8fb54d7106a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 15/29] fix: Overwinter and Sapling hash no sequences for
 SIGHASH_NONE

ZIP143 and ZIP243 want zeros there for SIGHASH_NONE as for SIGHASH_SINGLE.
SIGHASH_SINGLE with as many outputs as the index now gets the refusal meant
for it, instead of an IndexError.
---
 riemann/tx/overwinter.py | 6 ++++--
 riemann/tx/sapling.py    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/riemann/tx/overwinter.py b/riemann/tx/overwinter.py
index 47a6bbd..a3df644 100644
--- a/riemann/tx/overwinter.py
+++ b/riemann/tx/overwinter.py
@@ -335,7 +335,9 @@ class OverwinterTx(z.ZcashByteData):
             person=b'ZcashPrevoutHash')
 
     def _hash_sequence(self, sighash_type: int, anyone_can_pay: bool) -> bytes:
-        if anyone_can_pay or sighash_type == shared.SIGHASH_SINGLE:
+        if (anyone_can_pay
+                or sighash_type in [shared.SIGHASH_SINGLE,
+                                    shared.SIGHASH_NONE]):
             return b'\x00' * 32
 
         data = z.ZcashByteData()
@@ -358,7 +360,7 @@ class OverwinterTx(z.ZcashByteData):
                 data += tx_out
 
         if sighash_type == shared.SIGHASH_SINGLE:
-            if index > len(self.tx_outs):
+            if index >= len(self.tx_outs):
                 raise NotImplementedError(
                     'I refuse to implement the SIGHASH_SINGLE bug.')
             data += self.tx_outs[index]
diff --git a/riemann/tx/sapling.py b/riemann/tx/sapling.py
index 2d2b536..7025319 100644
--- a/riemann/tx/sapling.py
+++ b/riemann/tx/sapling.py
@@ -673,7 +673,9 @@ class SaplingTx(z.ZcashByteData):
             person=b'ZcashPrevoutHash')
 
     def _hash_sequence(self, sighash_type: int, anyone_can_pay: bool) -> bytes:
-        if anyone_can_pay or sighash_type == shared.SIGHASH_SINGLE:
+        if (anyone_can_pay
+                or sighash_type in [shared.SIGHASH_SINGLE,
+                                    shared.SIGHASH_NONE]):
             return b'\x00' * 32
 
         data = z.ZcashByteData()
@@ -696,7 +698,7 @@ class SaplingTx(z.ZcashByteData):
                 data += tx_out
 
         if sighash_type == shared.SIGHASH_SINGLE:
-            if index > len(self.tx_outs):
+            if index >= len(self.tx_outs):
                 raise NotImplementedError(
                     'I refuse to implement the SIGHASH_SINGLE bug.')
             data += self.tx_outs[index]
-- 
2.43.0


From d6831ee175ee246dadf1ffc3707de95449389d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 16/29] fix: no witness addresses on networks without segwit

On Bitcoin Cash a witness script or program was given a cashaddr with the
P2SH or P2PKH version, malformed or paying something else.
---
 riemann/encoding/addresses.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 94783fb..5c08c0b 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -19,6 +19,11 @@ def _hash_to_sh_address(
     Returns:
         The encoded address
     '''
+    if witness and not riemann.network.SEGWIT:
+        raise ValueError(
+            'Network {} does not support witness addresses.'
+            .format(riemann.get_current_network_name()))
+
     addr_bytes = bytearray()
     if riemann.network.CASHADDR_P2SH is not None and cashaddr:
         addr_bytes.extend(riemann.network.CASHADDR_P2SH)
@@ -141,6 +146,11 @@ def _make_pkh_address(
     Returns:
         The encoded address
     '''
+    if witness and not riemann.network.SEGWIT:
+        raise ValueError(
+            'Network {} does not support witness addresses.'
+            .format(riemann.get_current_network_name()))
+
     addr_bytes = bytearray()
     if riemann.network.CASHADDR_P2PKH is not None and cashaddr:
         addr_bytes.extend(riemann.network.CASHADDR_P2PKH)
-- 
2.43.0


From 3c488e67c2a0ce137de7f3a551eb70c1fae623be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 17/29] fix: from_output_script checks the end of the script

Scripts that only start like P2PKH or P2SH were given the address of the
standard script.
---
 riemann/encoding/addresses.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 5c08c0b..3457368 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -341,11 +341,13 @@ def from_output_script(output_script: bytes, cashaddr: bool = True) -> str:
     except TypeError:
         pass
 
-    if len(output_script) == 25 and output_script.find(b'\x76\xa9\x14') == 0:
+    if (len(output_script) == 25 and output_script.find(b'\x76\xa9\x14') == 0
+            and output_script[23:] == b'\x88\xac'):
         return _make_pkh_address(
             output_script[3:23], witness=False, cashaddr=cashaddr)
 
-    elif len(output_script) == 23 and output_script.find(b'\xa9\x14') == 0:
+    elif (len(output_script) == 23 and output_script.find(b'\xa9\x14') == 0
+            and output_script[22:] == b'\x87'):
         return _hash_to_sh_address(
             output_script[2:22], witness=False, cashaddr=cashaddr)
 
-- 
2.43.0


From 3a36497922ec270d646b477c2c5b3e19499e9c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 18/29] fix: addresses are read in the encoding they were given
 in

The bytes of an address were matched against the prefixes of all encodings:
a base58 string could pass for a segwit program, a foreign base58 address
for a cashaddr on Bitcoin Cash test networks, and a bech32 string of another
witness version for P2SH; parse_hash returned data of any length, one byte
too many for segwit addresses in base58, and failed on Groestlcoin's.
---
 riemann/encoding/addresses.py | 62 ++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/riemann/encoding/addresses.py b/riemann/encoding/addresses.py
index 3457368..4269716 100644
--- a/riemann/encoding/addresses.py
+++ b/riemann/encoding/addresses.py
@@ -2,6 +2,8 @@ import riemann
 from riemann import utils
 from riemann.script import serialization as script_ser
 
+from typing import Any, Tuple
+
 
 def _hash_to_sh_address(
         script_hash: bytes,
@@ -233,18 +235,33 @@ def parse(address: str) -> bytes:
     Returns:
         The raw bytestring encoded by the address
     '''
+    return _parse_with_encoder(address)[0]
+
+
+def _parse_with_encoder(address: str) -> Tuple[bytearray, Any]:
+    '''
+    Decode an address to the underlying raw bytes, and tell its encoding
+
+    Args:
+        address: The address to parse
+    Returns:
+        The raw bytestring encoded by the address, and the encoder module
+    '''
+    encoder = riemann.network.LEGACY_ENCODER
     try:
-        return bytearray(riemann.network.LEGACY_ENCODER.decode(address))
+        return bytearray(encoder.decode(address)), encoder
     except ValueError:
         pass
 
+    encoder = riemann.network.SEGWIT_ENCODER
     try:
-        return bytearray(riemann.network.SEGWIT_ENCODER.decode(address))
+        return bytearray(encoder.decode(address)), encoder
     except Exception:
         pass
 
+    encoder = riemann.network.CASHADDR_ENCODER
     try:
-        return bytearray(riemann.network.CASHADDR_ENCODER.decode(address))
+        return bytearray(encoder.decode(address)), encoder
     except Exception:
         pass
 
@@ -262,25 +279,31 @@ def to_output_script(address: str) -> bytes:
         The output script that corresponds to the address, suitable for
         inclusion in a TxOut
     '''
-    parsed = parse(address)
+    # A prefix only has its meaning in the encoding it belongs to
+    parsed, encoder = _parse_with_encoder(address)
+    witness = (riemann.network.SEGWIT
+               and encoder == riemann.network.SEGWIT_ENCODER)
     parsed_hash = b''
 
     try:
-        if (parsed.find(riemann.network.P2WPKH_PREFIX) == 0
+        if (witness
+                and parsed.find(riemann.network.P2WPKH_PREFIX) == 0
                 and len(parsed) == 22):
             return parsed
     except TypeError:
         pass
 
     try:
-        if (parsed.find(riemann.network.P2WSH_PREFIX) == 0
+        if (witness
+                and parsed.find(riemann.network.P2WSH_PREFIX) == 0
                 and len(parsed) == 34):
             return parsed
     except TypeError:
         pass
 
     try:
-        if (parsed.find(riemann.network.CASHADDR_P2SH) == 0
+        if (encoder == riemann.network.CASHADDR_ENCODER
+                and parsed.find(riemann.network.CASHADDR_P2SH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2SH) + 20):
             prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
             parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
@@ -289,7 +312,8 @@ def to_output_script(address: str) -> bytes:
         pass
 
     try:
-        if (parsed.find(riemann.network.CASHADDR_P2PKH) == 0
+        if (encoder == riemann.network.CASHADDR_ENCODER
+                and parsed.find(riemann.network.CASHADDR_P2PKH) == 0
                 and len(parsed) == len(riemann.network.CASHADDR_P2PKH) + 20):
             prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
             parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
@@ -297,13 +321,15 @@ def to_output_script(address: str) -> bytes:
     except TypeError:
         pass
 
-    if (parsed.find(riemann.network.P2PKH_PREFIX) == 0
+    if (encoder == riemann.network.LEGACY_ENCODER
+            and parsed.find(riemann.network.P2PKH_PREFIX) == 0
             and len(parsed) == len(riemann.network.P2PKH_PREFIX) + 20):
         prefix = b'\x76\xa9\x14'  # OP_DUP OP_HASH160 PUSH14
         parsed_hash = parsed[len(riemann.network.P2PKH_PREFIX):]
         suffix = b'\x88\xac'  # OP_EQUALVERIFY OP_CHECKSIG
 
-    if (parsed.find(riemann.network.P2SH_PREFIX) == 0
+    if (encoder == riemann.network.LEGACY_ENCODER
+            and parsed.find(riemann.network.P2SH_PREFIX) == 0
             and len(parsed) == len(riemann.network.P2SH_PREFIX) + 20):
         prefix = b'\xa9\x14'  # OP_HASH160 PUSH14
         parsed_hash = parsed[len(riemann.network.P2SH_PREFIX):]
@@ -363,11 +389,14 @@ def parse_hash(address: str) -> bytes:
     Returns:
         The 20 or 32 byte hash represented by the address
     '''
-    raw = parse(address)
+    raw, encoder = _parse_with_encoder(address)
+
+    # Refuse what pays to no hash on this network
+    to_output_script(address)
 
     # Cash addresses
     try:
-        if address.find(riemann.network.CASHADDR_PREFIX) == 0:
+        if encoder == riemann.network.CASHADDR_ENCODER:
             if raw.find(riemann.network.CASHADDR_P2SH) == 0:
                 return raw[len(riemann.network.CASHADDR_P2SH):]
             if raw.find(riemann.network.CASHADDR_P2PKH) == 0:
@@ -377,10 +406,13 @@ def parse_hash(address: str) -> bytes:
 
     # Segwit addresses
     try:
-        if address.find(riemann.network.BECH32_HRP) == 0:
-            if raw.find(riemann.network.P2WSH_PREFIX) == 0:
+        if (riemann.network.SEGWIT
+                and encoder == riemann.network.SEGWIT_ENCODER):
+            if (raw.find(riemann.network.P2WSH_PREFIX) == 0
+                    and len(raw) == 34):
                 return raw[len(riemann.network.P2WSH_PREFIX):]
-            if raw.find(riemann.network.P2WPKH_PREFIX) == 0:
+            if (raw.find(riemann.network.P2WPKH_PREFIX) == 0
+                    and len(raw) == 22):
                 return raw[len(riemann.network.P2WPKH_PREFIX):]
     except TypeError:
         pass
-- 
2.43.0


From 021efbc1624042302f6da28be9dfe11c9f9485d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 19/29] fix: cashaddr decoding strips the checksum exactly

Six bytes were cut from the converted payload and checksum together, which
took one byte too many from payloads whose length is a multiple of five, and
let nonzero padding through. A longer prefix that starts with the network's
was accepted as the network's.
---
 riemann/encoding/cashaddr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/riemann/encoding/cashaddr.py b/riemann/encoding/cashaddr.py
index 59b75f9..5cd3108 100644
--- a/riemann/encoding/cashaddr.py
+++ b/riemann/encoding/cashaddr.py
@@ -49,7 +49,7 @@ def decode(data: str) -> bytes:
     if riemann.network.CASHADDR_PREFIX is None:
         raise ValueError('Network {} does not support cashaddresses.'
                          .format(riemann.get_current_network_name()))
-    if data.find(riemann.network.CASHADDR_PREFIX) != 0:
+    if not data.startswith(riemann.network.CASHADDR_PREFIX + ':'):
         raise ValueError('Malformed cashaddr. Cannot locate prefix: {}'
                          .format(riemann.network.CASHADDR_PREFIX))
 
@@ -58,9 +58,12 @@ def decode(data: str) -> bytes:
     decoded = b32decode(data)
     if not verify_checksum(prefix, decoded):
         raise ValueError('Bad cash address checksum')
-    converted = convertbits(decoded, 5, 8)
+    # remove the checksum from the end
+    converted = convertbits(decoded[:-8], 5, 8, False)
+    if converted is None:
+        raise ValueError('Bad cash address padding')
 
-    return bytes(converted[:-6])  # remove the checksum from the end
+    return bytes(converted)
 
 
 def polymod(values):
-- 
2.43.0


From 50f6b26268f7703e4ba7d03f1dde57a3a4f823ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 20/29] fix: immutable objects own their fields

---
 riemann/tx/shared.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index 2afc085..7ae81f1 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -80,6 +80,11 @@ class ByteData():
             raise TypeError("%r cannot be written to." % self)
         object.__setattr__(self, key, value)
 
+    def __delattr__(self, key: str):
+        if self.__immutable:
+            raise TypeError("%r cannot be written to." % self)
+        object.__delattr__(self, key)
+
     def __format__(self, code):
         '''
         ByteData -> str
@@ -114,6 +119,12 @@ class ByteData():
         Prevents any future changes to the object
         '''
         self._bytes = bytes(self._bytes)
+        # The caller may still hold the bytearrays and lists we were given
+        for key, value in self.__dict__.items():
+            if isinstance(value, bytearray):
+                self.__dict__[key] = bytes(value)
+            elif isinstance(value, list):
+                self.__dict__[key] = tuple(value)
         self.__immutable = True
 
     def find(self, substring: Byteslike) -> int:
-- 
2.43.0


From 77addcc1369fdb24c4bc0b0123f8f73056c7ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 21/29] fix: BLAKE counts encoded bytes and pads short salts

---
 riemann/blake256.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riemann/blake256.py b/riemann/blake256.py
index 044e9c5..5c08235 100644
--- a/riemann/blake256.py
+++ b/riemann/blake256.py
@@ -347,7 +347,7 @@ class BLAKE(object):
         # if too short, prefix with null bytes.  if too long,
         # truncate high order bytes
         if len(salt) < saltsize:
-            salt = (chr(0)*(saltsize-len(salt)) + salt)
+            salt = (b'\x00'*(saltsize-len(salt)) + salt)
         else:
             salt = salt[-saltsize:]
         # prep the salt array
@@ -370,9 +370,6 @@ class BLAKE(object):
         BLKBYTES = self.BLKBYTES   # de-referenced for improved readability
         BLKBITS  = self.BLKBITS
 
-        datalen = len(data)
-        if not datalen:  return
-
         if type(data) == type(u''):
 
             # use either of the next two lines for a proper
@@ -390,6 +387,9 @@ class BLAKE(object):
             # that does nothing would at least allow
             # compatibility between Python2 and Python3.
 
+        datalen = len(data)
+        if not datalen:  return
+
         left = len(self.cache)
         fill = BLKBYTES - left
 
-- 
2.43.0


From e77ef90edff75f7218eca3c3701aba9c30c3397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 22/29] fix: is_push_only looks at whole tokens

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index a88034d..49ea6c0 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -53,7 +53,7 @@ def is_push_only(script_sig: bytes) -> bool:
         (bool): True if Push Only, otherwise False
     '''
     script = ser.deserialize(script_sig)
-    non_data_opcodes = [t for t in script if t[0:3] == 'OP_']
+    non_data_opcodes = [t for t in script.split() if t[0:3] == 'OP_']
     for token in non_data_opcodes:
         integer_opcode = opcodes.CODE_TO_INT[token]
         if (integer_opcode in [79, 80]
-- 
2.43.0


From 80ec729c59a04ee252aa2d038b762a324d461f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 23/29] fix: standardness of OP_RETURN, pubkey and multisig
 outputs

---
 riemann/networks/standard.py | 51 ++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 49ea6c0..4c60172 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -76,12 +76,13 @@ def check_is_standard(t: tx.Tx) -> bool:
             return False
 
         # 'dust'
-        if (rutils.le2i(o.value) < 550
+        if (not is_op_return(o)
+                and rutils.le2i(o.value) < 550
                 and o.output_script[:2] != b'\x00\x14'):
             return False
 
     # 'multi-op-return'
-    if len([is_op_return(o) for o in t.tx_outs]) > 1:
+    if len([o for o in t.tx_outs if is_op_return(o)]) > 1:
         return False
 
     return True
@@ -95,14 +96,15 @@ def is_op_return(o: tx.TxOut) -> bool:
     Returns:
         (bool): True if standard opreturn, otherwise false
     '''
-    script: str = ser.deserialize(o.output_script)
-    split_script = script.split()
-
-    # TX_NULL_DATA, up to 83 bytes (80 for safety)
-    if (rutils.le2i(o.value) == 0
-            and split_script[0] == 'OP_RETURN'
-            and len(script) < 80):
-        return True
+    # TX_NULL_DATA, up to 83 bytes
+    try:
+        if (rutils.le2i(o.value) == 0
+                and o.output_script[:1] == b'\x6a'  # OP_RETURN
+                and len(o.output_script) <= 83
+                and is_push_only(o.output_script[1:])):
+            return True
+    except Exception:
+        pass
     return False
 
 
@@ -124,18 +126,28 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     except ValueError:
         pass
 
-    script: str = ser.deserialize(o.output_script)
+    # TX_NULL_DATA
+    if is_op_return(o):
+        return True
+
+    try:
+        script: str = ser.deserialize(o.output_script)
+    except Exception:
+        return False
     split_script = script.split()
+    if len(split_script) == 0:
+        return False
 
     # TX_PUBKEY
     if (split_script[-1] == 'OP_CHECKSIG'
             and len(split_script) == 2
-            and len(bytes.fromhex(split_script[1])) in [33, 65]):
+            and _is_pubkey_push(split_script[0])):
         return True
 
     # TX_MULTISIG, up to x-of-3
     if (split_script[-1] == 'OP_CHECKMULTISIG'
-            and split_script[-2] in ['OP_1', 'OP_2', 'OP_3']):
+            and split_script[-2] in ['OP_1', 'OP_2', 'OP_3']
+            and split_script[0] in ['OP_1', 'OP_2', 'OP_3']):
 
         num_pubkeys = int(split_script[-2][-1])
         num_sigs = int(split_script[0][-1])
@@ -144,7 +156,7 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
                 or len(split_script) != num_pubkeys + 3):  # some junk script
             return False
         for pubkey in split_script[1:-2]:
-            if len(bytes.fromhex(pubkey)) not in [33, 65]:
+            if not _is_pubkey_push(pubkey):
                 return False
         return True
 
@@ -152,6 +164,17 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
     return False
 
 
+def _is_pubkey_push(token: str) -> bool:
+    '''
+    Args:
+        token (str): a token of a deserialized script
+    Returns:
+        (bool): True for data as long as a pubkey, otherwise False
+    '''
+    return (token[0:3] != 'OP_'
+            and len(bytes.fromhex(token)) in [33, 65])
+
+
 def check_tx_size_small(t: tx.Tx) -> bool:
     '''
     Args:
-- 
2.43.0


From 333ce962e2efbc32330612ec84df7d38dc961a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 24/29] fix: standardness checks the whole version field

---
 riemann/networks/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 4c60172..0c7ab10 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -17,7 +17,7 @@ def check_is_standard_tx(t: tx.Tx) -> bool:
         (bool): True for standard, false for non-standard
     '''
     # 'version'
-    if t.version[0] not in [1, 2]:
+    if rutils.le2i(t.version) not in [1, 2]:
         return False
 
     # 'tx-size'
-- 
2.43.0


From 8ec281791584f50fc870fd797e77a13fc746549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 25/29] fix: final sequences disable the lock time, time locks
 are strict

---
 riemann/networks/standard.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index 0c7ab10..ac04109 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -195,11 +195,14 @@ def check_final(
     Args:
         t               (tx.Tx): the transaction
         best_height     (int): best known Bitcoin height
-        best_timestamp  (int): best known Bitcoin timestamp
+        best_timestamp  (int): best known Bitcoin timestamp (median time past)
     '''
     lock = rutils.le2i(t.lock_time)
+    # Final sequence numbers on all inputs disable the lock time
+    if all(tx_in.sequence == b'\xff\xff\xff\xff' for tx_in in t.tx_ins):
+        return True
     if lock >= 500_000_000:  # timelocked
-        return lock <= best_timestamp
+        return lock < best_timestamp
     else:  # height-locked
         return lock <= best_height
 
-- 
2.43.0


From 30f6ac44ed741f81c5c3bdc4cc5f6c7eaea3da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 26/29] fix: cashaddr decoding refuses characters outside its
 charset

---
 riemann/encoding/cashaddr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riemann/encoding/cashaddr.py b/riemann/encoding/cashaddr.py
index 5cd3108..463acc1 100644
--- a/riemann/encoding/cashaddr.py
+++ b/riemann/encoding/cashaddr.py
@@ -102,6 +102,8 @@ def verify_checksum(prefix, payload):
 def b32decode(inputs):
     out = list()
     for letter in inputs:
+        if letter not in CHARSET:
+            raise ValueError('Bad cash address character: {}'.format(letter))
         out.append(CHARSET.find(letter))
     return out
 
-- 
2.43.0


From 34596787135a737113be3e9473fe7a877848153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 27/29] fix: immutable objects copy mutable ByteData fields

---
 riemann/tx/shared.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riemann/tx/shared.py b/riemann/tx/shared.py
index 7ae81f1..9bf6e51 100644
--- a/riemann/tx/shared.py
+++ b/riemann/tx/shared.py
@@ -119,12 +119,14 @@ class ByteData():
         Prevents any future changes to the object
         '''
         self._bytes = bytes(self._bytes)
-        # The caller may still hold the bytearrays and lists we were given
+        # The caller may still hold the mutable objects we were given
         for key, value in self.__dict__.items():
             if isinstance(value, bytearray):
                 self.__dict__[key] = bytes(value)
             elif isinstance(value, list):
                 self.__dict__[key] = tuple(value)
+            elif isinstance(value, ByteData) and not value.__immutable:
+                self.__dict__[key] = value.to_bytes()
         self.__immutable = True
 
     def find(self, substring: Byteslike) -> int:
-- 
2.43.0


From 45ef563711cbedc8590a4d135ed49df9397a0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 28/29] fix: i2le_script encodes -1 as ff, and numbers of 520
 bytes

Python converts -1 to no bytes at all at width 0, so the shortest encoding
was taken to be the empty string. The last width tried was 519.
---
 riemann/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riemann/utils.py b/riemann/utils.py
index 038c8c8..85a100e 100644
--- a/riemann/utils.py
+++ b/riemann/utils.py
@@ -41,7 +41,7 @@ def i2le_script(number: int) -> str:
     '''
     if number == 0:
         return '00'
-    for i in range(520):
+    for i in range(1, 521):
         try:  # this is stupid
             return number.to_bytes(
                 length=i,  # minimal bytes lol
-- 
2.43.0


From 4f3522cb247ebb2f1b61ee6a7c02c0c30d05b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 29/29] fix: an output script of OP_CHECKMULTISIG alone is
 non-standard, not an error

is_standard_output_type looked for the number of keys before the opcode
without asking whether anything stands there.
---
 riemann/networks/standard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riemann/networks/standard.py b/riemann/networks/standard.py
index ac04109..5935952 100644
--- a/riemann/networks/standard.py
+++ b/riemann/networks/standard.py
@@ -146,6 +146,7 @@ def is_standard_output_type(o: tx.TxOut) -> bool:
 
     # TX_MULTISIG, up to x-of-3
     if (split_script[-1] == 'OP_CHECKMULTISIG'
+            and len(split_script) > 1
             and split_script[-2] in ['OP_1', 'OP_2', 'OP_3']
             and split_script[0] in ['OP_1', 'OP_2', 'OP_3']):
 
-- 
2.43.0

