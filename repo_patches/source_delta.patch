From 6fc00c4545049705cf94c1ab53fda9547c8d6acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 01/34] fix: add the missing protobuf enum type so that Failure
 and other enum-carrying messages can be encoded

---
 monero_glue/protobuf.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 88b59c8..db23744 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -117,6 +117,19 @@ class BoolType:
     WIRE_TYPE = 0
 
 
+class EnumType:
+    WIRE_TYPE = 0
+
+    def __init__(self, enum_name, enum_values):
+        self.enum_name = enum_name
+        self.enum_values = enum_values
+
+    def validate(self, fvalue):
+        if fvalue in self.enum_values:
+            return fvalue
+        raise TypeError("Invalid enum value")
+
+
 class BytesType:
     WIRE_TYPE = 2
 
@@ -274,6 +287,8 @@ async def load_message(reader, msg_type):
             fvalue = uint_to_sint(ivalue)
         elif ftype is BoolType:
             fvalue = bool(ivalue)
+        elif isinstance(ftype, EnumType):
+            fvalue = ftype.validate(ivalue)
         elif ftype is BytesType:
             buf = bytearray(ivalue)
             reader.readinto(buf)
@@ -326,6 +341,9 @@ async def dump_message(writer, msg):
             elif ftype is BoolType:
                 dump_uvarint(writer, int(svalue))
 
+            elif isinstance(ftype, EnumType):
+                dump_uvarint(writer, ftype.validate(svalue))
+
             elif ftype is BytesType:
                 if isinstance(svalue, list):
                     dump_uvarint(writer, _count_bytes_list(svalue))
@@ -409,6 +427,9 @@ def format_message(
 
 
 def value_to_proto(ftype, value):
+    if isinstance(ftype, EnumType):
+        return ftype.validate(int(value))
+
     if issubclass(ftype, MessageType):
         raise TypeError("value_to_proto only converts simple values")
 
@@ -441,7 +462,7 @@ def dict_to_proto(message_type, d):
         if not repeated:
             value = [value]
 
-        if issubclass(ftype, MessageType):
+        if not isinstance(ftype, EnumType) and issubclass(ftype, MessageType):
             function = dict_to_proto
         else:
             function = value_to_proto
-- 
2.43.0


From 0c5a6888ee8ec1c07343527a5dfd140456dbc8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 02/34] fix: accept transfers whose only recipient is the own
 change address

The view key lookup returned the null key when all outputs belong to the change
address, so the (dummy) payment id could not be encrypted and the transaction
was refused.
---
 monero_glue/protocol/tsx_sign_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index d83f707..badecdb 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -573,6 +573,10 @@ class TTransactionBuilder(object):
         if not tsx_data.payment_id and count <= 1:
             tsx_data.payment_id = bytearray(8)
 
+        # All non-zero outputs go to the change address, i.e., transfer to self
+        if count == 0 and change_addr:
+            return change_addr.view_public_key
+
         return addr.view_public_key
 
     async def compute_sec_keys(self, tsx_data):
-- 
2.43.0


From 3170bc4b5d36467bc342957e56078bd07295c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 03/34] fix: do not skip the change ownership check when the
 change address is paid

A zero change amount made the device treat any two-output transaction as a sweep
with a dummy output, leaving the change address unverified even if it is the
address of the confirmed recipient, who then cannot receive the output.
---
 monero_glue/protocol/tsx_sign_builder.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index badecdb..8999c42 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -205,7 +205,17 @@ class TTransactionBuilder(object):
             self._mem_trace("No change" if __debug__ else None)
             return
 
-        if change_idx is None and self.output_change.amount == 0 and len(outputs) == 2:
+        pays_change = False
+        for out in outputs:
+            if out.amount and addr_eq(out.addr, change_addr):
+                pays_change = True
+
+        if (
+            change_idx is None
+            and self.output_change.amount == 0
+            and len(outputs) == 2
+            and not pays_change
+        ):
             self._mem_trace("Sweep tsx" if __debug__ else None)
             return  # sweep dummy tsx
 
-- 
2.43.0


From 839344966e2a30271a3194e70b14759a3e6a6c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 04/34] fix: reject an inputs permutation which is not a
 permutation of the inputs

Otherwise one input could be used twice and another one not at all.
---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 8999c42..7b10538 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -750,6 +750,9 @@ class TTransactionBuilder(object):
         Set permutation on the inputs - sorted by key image on host.
         """
         self.state.input_permutation()
+        if sorted(permutation) != list(range(self.num_inputs())):
+            raise ValueError("Invalid permutation")
+
         self.source_permutation = permutation
         self.inp_idx = -1
 
-- 
2.43.0


From 45e33772a23118a6f59738a2fbab961213888699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 05/34] fix: sign only with range proofs covering all outputs

The device trusted the range proof batching sent by the host and accepted the end
of the outputs phase before the last offloaded range proof was provided. In both
cases it signed a transaction with outputs not covered by any verified proof.
---
 monero_glue/protocol/tsx_sign_builder.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 7b10538..ccd1c81 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -441,6 +441,7 @@ class TTransactionBuilder(object):
         # Rsig data
         self.rsig_type = tsx_data.rsig_data.rsig_type
         self.rsig_grp = tsx_data.rsig_data.grouping
+        self._check_rsig_grouping()
         self.rsig_offload = self.rsig_type > 0 and self.output_count > 2
         self.use_bulletproof = self.rsig_type > 0
         self.use_simple_rct = self.input_count > 1 or self.rsig_type != 0
@@ -1381,6 +1382,15 @@ class TTransactionBuilder(object):
             )
         return derivation
 
+    def _check_rsig_grouping(self):
+        """
+        Range proof batches have to cover all outputs exactly
+        """
+        if not all(x > 0 for x in self.rsig_grp):
+            raise ValueError("Invalid rsig grouping batch")
+        if sum(self.rsig_grp) != self.output_count:
+            raise ValueError("Invalid rsig grouping")
+
     def _get_rsig_batch(self, idx):
         """
         Returns index of the current rsig batch
@@ -1439,6 +1449,14 @@ class TTransactionBuilder(object):
         if self.out_idx + 1 != self.num_dests():
             raise ValueError("Invalid out num")
 
+        # The last offloaded range proof has to be provided before going on
+        if (
+            self.rsig_offload
+            and self.is_det_mask()
+            and not self.is_processing_offloaded
+        ):
+            raise ValueError("Offloaded BP missing")
+
         # Fee test
         if self.fee != (self.summary_inputs_money - self.summary_outs_money):
             raise ValueError(
-- 
2.43.0


From 641723f23c46933ff349b7a0a46034738c38cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 06/34] fix: draw the Bulletproof blinding values from the
 system RNG instead of a generator with a constant seed

---
 monero_glue/xmr/bulletproof.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 7add744..37191f9 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -47,7 +47,8 @@ _PRINT_INT = False
 COUNT_STATE = False
 slot_sizes = None
 
-PRNG = crypto.prng(_ZERO)
+# Deterministic generator for testing, set by set_prng(). Scalars are drawn from the system RNG if not set.
+PRNG = None
 
 # Aliasing
 ubinascii = binascii
@@ -185,9 +186,11 @@ def _scalarmult_base(dst, x):
 
 def _sc_gen(dst=None):
     dst = _ensure_dst_key(dst)
-    buff = PRNG.next(32, bytearray(32))
-    crypto.decodeint_into(_tmp_sc_1, buff)
-    #crypto.random_scalar(_tmp_sc_1)
+    if PRNG is not None:
+        buff = PRNG.next(32, bytearray(32))
+        crypto.decodeint_into(_tmp_sc_1, buff)
+    else:
+        crypto.random_scalar_into(_tmp_sc_1)
     crypto.encodeint_into(dst, _tmp_sc_1)
     return dst
 
@@ -1965,9 +1968,13 @@ class BulletProofBuilder:
 
         return KeyVPrecomp(size, self.twoN, pow_two)
 
+    def _mask_seed(self, is_sL=True):
+        """sL / sR masking vector seed, derived from the proof specific secret"""
+        return crypto.cn_fast_hash(bytes(self.proof_sec) + (b"\x01" if is_sL else b"\x00"))
+
     def sL_vct(self, ln=_BP_N, allow_nonlinear=False):
         return (
-            KeyVPrngMask(ln, _ZERO, allow_nonlinear=allow_nonlinear) #crypto.random_bytes(32))
+            KeyVPrngMask(ln, self._mask_seed(True), allow_nonlinear=allow_nonlinear)
             # KeyVEval(ln, lambda i, dst: self._det_mask(i, True, dst))
             if self.use_det_masks
             else self.sX_gen(ln)
@@ -1975,7 +1982,7 @@ class BulletProofBuilder:
 
     def sR_vct(self, ln=_BP_N, allow_nonlinear=False):
         return (
-            KeyVPrngMask(ln, _ONE, allow_nonlinear=allow_nonlinear)  # crypto.random_bytes(32))
+            KeyVPrngMask(ln, self._mask_seed(False), allow_nonlinear=allow_nonlinear)
             # KeyVEval(ln, lambda i, dst: self._det_mask(i, False, dst))
             if self.use_det_masks
             else self.sX_gen(ln)
@@ -1987,8 +1994,6 @@ class BulletProofBuilder:
         buff_mv = memoryview(buff)
         sc = crypto.new_scalar()
         for i in range(ln):
-            buff0 = PRNG.next(32, bytearray(32))
-            crypto.decodeint_into(sc, buff0)
             crypto.random_scalar_into(sc)
             crypto.encodeint_into(buff_mv[i * 32 : (i + 1) * 32], sc)
             _gc_iter(i)
@@ -2343,7 +2348,7 @@ class BulletProofBuilder:
         self.assrt(len(sv) == len(gamma), "|sv| != |gamma|")
         self.assrt(len(sv) > 0, "sv empty")
 
-        self.proof_sec = b"\x00"*32  #crypto.random_bytes(64)
+        self.proof_sec = crypto.random_bytes(64)
         self._det_mask_init()
         gc.collect()
         self.sv = [crypto.encodeint(x) for x in sv]
-- 
2.43.0


From 1ba0826652b3e1a1202e7679c8dec0d0604d4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 07/34] fix: do not send an empty key image sync batch when the
 number of outputs is a multiple of ten

---
 monero_glue/xmr/common.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/monero_glue/xmr/common.py b/monero_glue/xmr/common.py
index 25ae2c0..23336d6 100644
--- a/monero_glue/xmr/common.py
+++ b/monero_glue/xmr/common.py
@@ -192,12 +192,9 @@ def defattr(obj, attr, default=None, take_none=True):
 def chunk(arr, size=1):
     res = []
     idx = 0
-    while True:
-        c = arr[idx : idx + size]
-        res.append(c)
+    while idx < len(arr):
+        res.append(arr[idx : idx + size])
         idx += size
-        if len(c) != size:
-            break
     return res
 
 
-- 
2.43.0


From c4f7b069fd4fa854f15ecb08dc7ae676ae8b6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 08/34] fix: encode the watch-only key as a scalar

---
 monero_glue/hwtoken/token.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/hwtoken/token.py b/monero_glue/hwtoken/token.py
index b14da3f..f7bbd6e 100644
--- a/monero_glue/hwtoken/token.py
+++ b/monero_glue/hwtoken/token.py
@@ -105,7 +105,7 @@ class TokenLite(object):
             return Failure(message="InvalidNetworkType")
 
         return MoneroWatchKey(
-            watch_key=crypto.encodepoint(self.creds.view_key_private),
+            watch_key=crypto.encodeint(self.creds.view_key_private),
             address=self.creds.address,
         )
 
-- 
2.43.0


From c3fa6f4c3726cedd4f92f6b83e515212acb4b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:50 +0000
Subject: [PATCH 09/34] fix: report the device's refusal of the address and
 watch-only exports to the caller

---
 monero_glue/agent/agent_lite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index 24a2b39..68219f6 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -761,6 +761,7 @@ class Agent(object):
 
         msg.payment_id = payment_id
         res = await self.trezor.call(msg)
+        self.handle_error(res)
         return res
 
     async def get_watch_only(self):
@@ -772,6 +773,7 @@ class Agent(object):
             address_n=self.address_n, network_type=self.network_type
         )
         res = await self.trezor.get_view_key(msg)
+        self.handle_error(res)
         return res
 
     async def import_outputs(self, outputs):
-- 
2.43.0


From 2592665f5bb366a393e70b307af0b326d6f582f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 10/34] fix: do not accept messages cut in the middle of a
 field

---
 monero_glue/protobuf.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index db23744..452824a 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -44,14 +44,25 @@ from typing import Any, Optional
 _UVARINT_BUFFER = bytearray(1)
 
 
+def load_exact(reader, buffer):
+    """Fills the whole buffer or raises EOFError, some readers return a short count instead"""
+    if reader.readinto(buffer) != len(buffer):
+        raise EOFError
+    return buffer
+
+
 def load_uvarint(reader):
     buffer = _UVARINT_BUFFER
     result = 0
     shift = 0
     byte = 0x80
     while byte & 0x80:
-        if reader.readinto(buffer) == 0:
-            raise EOFError
+        try:
+            load_exact(reader, buffer)
+        except EOFError:
+            if shift > 0:
+                raise ValueError("Truncated varint")
+            raise
         byte = buffer[0]
         result += (byte & 0x7F) << shift
         shift += 7
@@ -270,7 +281,7 @@ async def load_message(reader, msg_type):
                 load_uvarint(reader)
             elif wtype == 2:
                 ivalue = load_uvarint(reader)
-                reader.readinto(bytearray(ivalue))
+                load_exact(reader, bytearray(ivalue))
             else:
                 raise ValueError
             continue
@@ -290,15 +301,16 @@ async def load_message(reader, msg_type):
         elif isinstance(ftype, EnumType):
             fvalue = ftype.validate(ivalue)
         elif ftype is BytesType:
-            buf = bytearray(ivalue)
-            reader.readinto(buf)
+            buf = load_exact(reader, bytearray(ivalue))
             fvalue = bytes(buf)
         elif ftype is UnicodeType:
-            buf = bytearray(ivalue)
-            reader.readinto(buf)
+            buf = load_exact(reader, bytearray(ivalue))
             fvalue = buf.decode()
         elif issubclass(ftype, MessageType):
-            fvalue = await load_message(LimitedReader(reader, ivalue), ftype)
+            lreader = LimitedReader(reader, ivalue)
+            fvalue = await load_message(lreader, ftype)
+            if lreader.limit != 0:
+                raise EOFError  # the embedded message is cut
         else:
             raise TypeError  # field type is unknown
 
-- 
2.43.0


From 2540dc34e7e8685c185895831b831cc49e7c89d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 11/34] fix: reject key images with a small order component

---
 monero_glue/xmr/ring_ct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index 2a42643..459ea63 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -587,6 +587,12 @@ def check_ring_singature(prefix_hash, image, pubs, sig):
     image_unp = crypto.ge_frombytes_vartime(image)
     image_pre = crypto.ge_dsm_precomp(image_unp)
 
+    # Key image has to be in the prime order subgroup, (l-1) * I == -I
+    sc_minus_one = crypto.sc_sub(crypto.sc_0(), crypto.sc_init(1))
+    image_neg = crypto.scalarmult(image_unp, sc_minus_one)
+    if not crypto.point_eq(crypto.point_add(image_neg, image_unp), crypto.identity()):
+        return False
+
     buff_off = len(prefix_hash)
     buff = bytearray(buff_off + 2 * 32 * len(pubs))
     memcpy(buff, 0, prefix_hash, 0, buff_off)
-- 
2.43.0


From d41419d2340ba7783c2f4fda7ae85052ddb80dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 12/34] fix: the address of an account other than the first is
 a subaddress

---
 monero_glue/xmr/sub/addr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index 892d970..01231ac 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -49,7 +49,7 @@ class AddrInfo(object):
     def recompute_sub(self, spend_key, view_key, major=0, minor=0):
         self.spend_key = spend_key
         self.view_key = view_key
-        self.is_sub_address = major != 0 and minor != 0
+        self.is_sub_address = major != 0 or minor != 0
         self.recompute_addr()
 
 
-- 
2.43.0


From 89e00160bf7d7af0e0ccf00f0ee4c17005432bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 13/34] fix: parse amounts exactly, floats lose piconeros

---
 monero_poc/utils/misc.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 701ae0f..f5f0c3e 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -5,6 +5,7 @@
 import asyncio
 import binascii
 import collections
+import decimal
 import json
 import logging
 import os
@@ -130,7 +131,30 @@ def gen_simple_passwd(n):
 
 
 def amount_to_uint64(amount):
-    return int((10 ** DISPLAY_DECIMAL_POINT) * amount)
+    """
+    Converts amount in XMR to the atomic units, exactly.
+    :param amount: Decimal, int or str
+    :return:
+    """
+    sign, digits, exp = decimal.Decimal(str(amount)).as_tuple()
+    if not isinstance(exp, int):
+        raise ValueError("Format error, Amount not valid")
+
+    exp += DISPLAY_DECIMAL_POINT
+    atomic = int("".join(str(x) for x in digits))
+    if exp < 0 and atomic % 10 ** -exp != 0:
+        raise ValueError(
+            "Format error, Amount has more than %s decimal places"
+            % DISPLAY_DECIMAL_POINT
+        )
+
+    if exp > 40:
+        raise ValueError("Format error, Amount out of range")
+
+    atomic = atomic * 10 ** exp if exp >= 0 else atomic // 10 ** -exp
+    if (sign and atomic) or atomic >= 2 ** 64:
+        raise ValueError("Format error, Amount out of range")
+    return atomic
 
 
 class TransferArgs(object):
@@ -178,14 +202,14 @@ def cut_addr(parts):
 
 def cut_amount(parts):
     try:
-        return float(parts[0]), parts[1:]
+        return decimal.Decimal(parts[0]), parts[1:]
     except Exception as e:
         raise ValueError("Format error, Amount not valid") from e
 
 
 def cut_addr_amount(parts):
     try:
-        return parts[0], float(parts[1]), parts[2:]
+        return parts[0], decimal.Decimal(parts[1]), parts[2:]
     except Exception as e:
         return None, None, parts
 
-- 
2.43.0


From 88cc5fbb3a4a1412e9aba08fcb040519ea80124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 14/34] fix: show amounts exactly before they are confirmed

---
 monero_glue/xmr/wallet.py | 13 +++++++++++++
 monero_poc/agent.py       | 12 ++++++------
 monero_poc/trezor.py      |  8 ++++----
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index f27dc15..568b84e 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -289,6 +289,19 @@ def conv_disp_amount(amount):
     return amount / float(10 ** monero.DISPLAY_DECIMAL_POINT)
 
 
+def disp_amount(amount):
+    """
+    Monero uint64 to the exact decimal string, all decimal places
+    :param amount:
+    :return:
+    """
+    return "%d.%0*d" % (
+        amount // 10 ** monero.DISPLAY_DECIMAL_POINT,
+        monero.DISPLAY_DECIMAL_POINT,
+        amount % 10 ** monero.DISPLAY_DECIMAL_POINT,
+    )
+
+
 async def load_exported_outputs(priv_key, data):
     """
     Loads exported outputs file
diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 20ba79c..e908bce 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1308,9 +1308,9 @@ class HostAgent(cli.BaseCli):
         )
         fees = common.defvalkey(result, "fee_list", [common.defvalkey(result, "fee")])
         for idx in range(len(amounts)):
-            st = "Amount: %s" % wallet.conv_disp_amount(amounts[idx])
+            st = "Amount: %s" % wallet.disp_amount(amounts[idx])
             if idx < len(fees):
-                st += ", Fee: %s" % wallet.conv_disp_amount(fees[idx])
+                st += ", Fee: %s" % wallet.disp_amount(fees[idx])
             self.poutput(st)
 
         ask_res = self.ask_proceed_quit("Do you confirm (y/n) ? ")
@@ -1333,9 +1333,9 @@ class HostAgent(cli.BaseCli):
         )
         fees = common.defvalkey(result, "fee_list", [common.defvalkey(result, "fee")])
         for idx in range(len(amounts)):
-            st = "Amount: %s" % wallet.conv_disp_amount(amounts[idx])
+            st = "Amount: %s" % wallet.disp_amount(amounts[idx])
             if idx < len(fees):
-                st += ", Fee: %s" % wallet.conv_disp_amount(fees[idx])
+                st += ", Fee: %s" % wallet.disp_amount(fees[idx])
             self.poutput(st)
 
         ask_res = self.ask_proceed_quit("Do you confirm (y/n) ? ")
@@ -1610,8 +1610,8 @@ class HostAgent(cli.BaseCli):
 
         res = self.wallet_proxy.import_key_images(import_req)
         print("Height: %s" % res["result"]["height"])
-        print("Spent: %.5f" % wallet.conv_disp_amount(res["result"]["spent"]))
-        print("Unspent: %.5f" % wallet.conv_disp_amount(res["result"]["unspent"]))
+        print("Spent: %s" % wallet.disp_amount(res["result"]["spent"]))
+        print("Unspent: %s" % wallet.disp_amount(res["result"]["unspent"]))
 
     async def main(self):
         """
diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index ab46331..ee4b91d 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -456,7 +456,7 @@ class TrezorServer(cli.BaseCli):
         self.poutput("Key image sync procedure\nEnter K to start\n")
 
     def conv_disp_amount(self, amount):
-        return wallet.conv_disp_amount(amount)
+        return wallet.disp_amount(amount)
 
     def do_T(self, line):
         if not self.trez_iface.in_confirmation:
@@ -489,7 +489,7 @@ class TrezorServer(cli.BaseCli):
             )
             if addr != addr_chg:
                 self.poutput(
-                    "  Output %2d: %12.8f to %s, sub: %s"
+                    "  Output %2d: %s to %s, sub: %s"
                     % (
                         idx,
                         self.conv_disp_amount(out.amount),
@@ -499,7 +499,7 @@ class TrezorServer(cli.BaseCli):
                 )
             else:
                 self.poutput(
-                    "  Change:    %12.8f to %s, sub: %s"
+                    "  Change:    %s to %s, sub: %s"
                     % (
                         self.conv_disp_amount(out.amount),
                         addr.decode("utf8"),
@@ -507,7 +507,7 @@ class TrezorServer(cli.BaseCli):
                     )
                 )
 
-        self.poutput("  Fee: %.8f" % self.conv_disp_amount(tsx_data.fee))
+        self.poutput("  Fee: %s" % self.conv_disp_amount(tsx_data.fee))
         self.poutput("  Account: %s" % tsx_data.account)
 
         self.poutput("- " * 40)
-- 
2.43.0


From da1fe2227a5ae691484557a3dfcd7eddfcfa9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 15/34] fix: sweep_single parsed its arguments as sweep_below
 and could not be sent

---
 monero_poc/agent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index e908bce..043c093 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -356,7 +356,7 @@ class HostAgent(cli.BaseCli):
             )
             return
 
-        params = misc.parse_sweep_below(line)
+        params = misc.parse_sweep_single(line)
         self.sweep_cmd(params, is_single=True)
 
     def do_sign(self, line):
@@ -1282,12 +1282,12 @@ class HostAgent(cli.BaseCli):
             params["below_amount"] = misc.amount_to_uint64(parts.amount_threshold)
 
         if parts.key_image is not None:
-            params["key_image"] = parts.key_image
+            params["key_image"] = binascii.hexlify(parts.key_image).decode("ascii")
 
+        params["address"] = parts.address
         if not is_single:
             params["account_index"] = self.account_idx
             params["subaddr_indices"] = parts.indices
-            params["address"] = parts.address
 
         return params
 
-- 
2.43.0


From e0fd6d550ee7890a8ef43108172a369e7f102fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 16/34] fix: transfer sent the ring size as the mixin

---
 monero_poc/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 043c093..3dd7267 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1258,7 +1258,7 @@ class HostAgent(cli.BaseCli):
             params["priority"] = priority
 
         if mixin is not None:
-            params["mixin"] = mixin
+            params["ring_size"] = mixin
 
         if new_payment_id is not None:
             params["payment_id"] = binascii.hexlify(new_payment_id).decode("ascii")
-- 
2.43.0


From b5983d57affc95d9be86711fa82e0244a53623ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 17/34] fix: signed transaction sets were written in a version
 which cannot be read back

---
 monero_glue/xmr/wallet.py | 5 +++--
 monero_poc/agent.py       | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 568b84e..82ed897 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -230,16 +230,17 @@ async def dump_unsigned_tx(priv_key, unsigned_tx, hf=9):
     return UNSIGNED_TX_PREFIX + ciphertext
 
 
-async def dump_signed_tx(priv_key, signed_tx):
+async def dump_signed_tx(priv_key, signed_tx, hf=10):
     """
     Dumps signed_tx to a file as wallet produces
 
     :param priv_key:
     :param signed_tx:
+    :param hf:
     :return:
     """
     writer = xmrserialize.MemoryReaderWriter()
-    ar = xmrboost.Archive(writer, True)
+    ar = xmrboost.Archive(writer, True, xmrtypes.hf_versions(hf))
     try:
         await ar.root()
         await ar.message(signed_tx)
diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 3dd7267..2550c21 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1524,7 +1524,7 @@ class HostAgent(cli.BaseCli):
         unsigned_data.transfers = transfers if transfers is not None else []
 
         writer = xmrserialize.MemoryReaderWriter()
-        ar = xmrboost.Archive(writer, True)
+        ar = xmrboost.Archive(writer, True, xmrtypes.hf_versions(10))
         await ar.root()
         await ar.message(unsigned_data)
 
-- 
2.43.0


From 15d1475b8c5196b30b134babd0293ce512206567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 18/34] fix: an answer given while a dialog was being opened
 was lost

The console thread saw in_confirmation before the event it answers to was
created, the server then waited forever.
---
 monero_poc/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index f5f0c3e..309f670 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -65,9 +65,10 @@ class CliPrompt(object):
         self.conf_evt.set()
 
     def _init_wait(self):
-        self.in_confirmation = True
+        # The answer can come from another thread as soon as in_confirmation is set
         self.confirmed_result = False
         self.conf_evt = threading.Event()
+        self.in_confirmation = True
 
     def wait_confirmation(self):
         """
-- 
2.43.0


From c04bbd165566f82cb7e11244ca0f348a3c12b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 19/34] fix: a crash while an account or wallet file was
 written lost or truncated it

The next start then failed on the torn file; a wallet reported as generated
could be gone after a power failure.
---
 monero_glue/misc/files.py | 34 ++++++++++++++++++++++++++++++++++
 monero_glue/xmr/wallet.py |  4 ++--
 monero_poc/agent.py       | 22 +++++++++++-----------
 monero_poc/trezor.py      | 15 +++++++++------
 4 files changed, 56 insertions(+), 19 deletions(-)
 create mode 100644 monero_glue/misc/files.py

diff --git a/monero_glue/misc/files.py b/monero_glue/misc/files.py
new file mode 100644
index 0000000..72e0a03
--- /dev/null
+++ b/monero_glue/misc/files.py
@@ -0,0 +1,34 @@
+#!/usr/bin/env python
+# -*- coding: utf-8 -*-
+
+import os
+
+
+def write_file(path, data):
+    """
+    Writes the whole file so that after a crash there is either the old content or the complete new one.
+    Returns when the content is durable.
+
+    :param path:
+    :param data: bytes or text
+    :return:
+    """
+    path = os.path.realpath(path)
+    tmp = "%s.tmp" % path
+    try:
+        with open(tmp, "wb") as fh:
+            fh.write(data.encode("utf8") if isinstance(data, str) else data)
+            fh.flush()
+            os.fsync(fh.fileno())
+        os.replace(tmp, path)
+
+    except Exception:
+        if os.path.exists(tmp):
+            os.unlink(tmp)
+        raise
+
+    fd = os.open(os.path.dirname(path), os.O_RDONLY)
+    try:
+        os.fsync(fd)
+    finally:
+        os.close(fd)
diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 82ed897..f09dad4 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -7,6 +7,7 @@ import re
 import datetime
 import logging
 
+from monero_glue.misc.files import write_file
 from monero_glue.xmr import common, crypto, monero
 from monero_glue.xmr.enc import chacha
 from monero_serialize import xmrboost, xmrjson, xmrrpc, xmrserialize, xmrtypes
@@ -136,8 +137,7 @@ async def save_keys_file(file, password, wkeyfile):
     :return:
     """
     data = await gen_keys_file(password, wkeyfile)
-    with open(file, "wb") as fh:
-        fh.write(data)
+    write_file(file, data)
 
 
 async def gen_keys_file(password, wkeyfile):
diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 2550c21..349a225 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -23,6 +23,7 @@ import time
 from monero_glue.agent import agent_lite, agent_misc
 from monero_glue.agent.agent_lite import SignAuxData
 from monero_glue.messages import DebugMoneroDiagRequest, Entropy, GetEntropy
+from monero_glue.misc.files import write_file
 from monero_glue.xmr import common, crypto, daemon_rpc, monero, wallet, wallet_rpc
 from monero_glue.xmr.common import try_fnc
 from monero_glue.xmr.enc import chacha, chacha_poly
@@ -695,17 +696,16 @@ class HostAgent(cli.BaseCli):
             wallet_enc_key, crypto.encodeint(self.priv_view)
         )
 
-        with open(file, "w") as fh:
-            data = {
-                "view_key_enc": binascii.hexlify(ciphertext).decode("ascii"),
-                "address": self.address.decode("ascii"),
-                "network_type": self.network_type,
-                "wallet_salt": binascii.hexlify(self.wallet_salt).decode("ascii"),
-                "rpc_addr": self.rpc_addr,
-                "wallet_file": self.wallet_file,
-                "monero_bin": self.monero_bin,
-            }
-            json.dump(data, fh, indent=2)
+        data = {
+            "view_key_enc": binascii.hexlify(ciphertext).decode("ascii"),
+            "address": self.address.decode("ascii"),
+            "network_type": self.network_type,
+            "wallet_salt": binascii.hexlify(self.wallet_salt).decode("ascii"),
+            "rpc_addr": self.rpc_addr,
+            "wallet_file": self.wallet_file,
+            "monero_bin": self.monero_bin,
+        }
+        write_file(file, json.dumps(data, indent=2))
 
     async def check_existing_wallet_file(self, key_file):
         """
diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index ee4b91d..d839d20 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -25,6 +25,7 @@ from monero_glue import protobuf
 from monero_glue.hwtoken import iface, token
 from monero_glue.messages import MoneroWatchKey
 from monero_glue.misc.bip import bip32
+from monero_glue.misc.files import write_file
 from monero_glue.protocol_base import messages
 from monero_glue.xmr import crypto, monero, wallet
 from monero_glue.xmr.core import mnemonic
@@ -699,8 +700,9 @@ class TrezorServer(cli.BaseCli):
         )
 
         if self.args.account_file:
-            with open(self.args.account_file, "w+") as fh:
-                json.dump(self.account_data, fh, indent=2)
+            write_file(
+                self.args.account_file, json.dumps(self.account_data, indent=2)
+            )
         print("Wallet generated")
         self.update_prompt()
 
@@ -744,15 +746,16 @@ class TrezorServer(cli.BaseCli):
             priv_spend_key = crypto.b16_to_scalar(priv_spend)
 
             self.account_data = {"spend_key": priv_spend_key, "view_key": priv_view_key}
-            with open(self.args.account_file, "w") as fh:
-                json.dump(
+            write_file(
+                self.args.account_file,
+                json.dumps(
                     {
                         "spend_key": priv_spend.decode("ascii"),
                         "view_key": priv_view.decode("ascii"),
                     },
-                    fh,
                     indent=2,
-                )
+                ),
+            )
 
         if priv_spend_key and priv_view_key:
             self.init_with_keys(priv_spend_key, priv_view_key)
-- 
2.43.0


From 8da2de7e1387f6f15eb167294c111e68e9c7a4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 20/34] fix: the data of a submitted transaction could be lost
 or torn by a crash

---
 monero_poc/agent.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 349a225..49b0c5f 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1553,9 +1553,10 @@ class HostAgent(cli.BaseCli):
                 "tx_signed_hmac": binascii.hexlify(signed_tx_hmac).decode("ascii"),
             }
 
-            with open("transaction_%s.json" % prefix.decode("ascii"), "w") as fh:
-                json.dump(js, fh, indent=2)
-                fh.write("\n")
+            write_file(
+                "transaction_%s.json" % prefix.decode("ascii"),
+                json.dumps(js, indent=2) + "\n",
+            )
 
         except Exception as e:
             self.trace_logger.log(e)
-- 
2.43.0


From 1606cff6092f50b179d80120a913bbed0d8f01d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 21/34] fix: the device server did not start with a spend key
 but no account file

---
 monero_poc/trezor.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index d839d20..f1508c7 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -746,16 +746,17 @@ class TrezorServer(cli.BaseCli):
             priv_spend_key = crypto.b16_to_scalar(priv_spend)
 
             self.account_data = {"spend_key": priv_spend_key, "view_key": priv_view_key}
-            write_file(
-                self.args.account_file,
-                json.dumps(
-                    {
-                        "spend_key": priv_spend.decode("ascii"),
-                        "view_key": priv_view.decode("ascii"),
-                    },
-                    indent=2,
-                ),
-            )
+            if self.args.account_file:
+                write_file(
+                    self.args.account_file,
+                    json.dumps(
+                        {
+                            "spend_key": priv_spend.decode("ascii"),
+                            "view_key": priv_view.decode("ascii"),
+                        },
+                        indent=2,
+                    ),
+                )
 
         if priv_spend_key and priv_view_key:
             self.init_with_keys(priv_spend_key, priv_view_key)
-- 
2.43.0


From 3f1667f13855496305631a6bbdd9364754f34459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 22/34] fix: wallet key files whose binary key data contains
 '",' could not be loaded

---
 monero_glue/xmr/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index f09dad4..3ae25d4 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -109,7 +109,7 @@ async def load_keys_data(data, password):
     buff = bytes(msg.iv + msg.account_data)
     dec = chacha.decrypt(key, buff)
 
-    m = re.search(b'(.*)"key_data":"(.+?)",(.*)', dec)
+    m = re.search(rb'(.*)"key_data":"((?:[^"\\]|\\.)+)",(.*)', dec, re.DOTALL)
     key_data = m.group(2)
 
     dat = xmrjson.unescape_json_str(key_data)
-- 
2.43.0


From 8232906ed1d88ac739afdbbcecb79b9687e8e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 23/34] fix: writing wallet keys removed the key data from the
 wallet object, writing it again failed

---
 monero_glue/xmr/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 3ae25d4..85eb0e0 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -148,7 +148,7 @@ async def gen_keys_file(password, wkeyfile):
     :return:
     """
     key_data = wkeyfile.key_data  # type: WalletKeyData
-    js = wkeyfile.to_json()
+    js = dict(wkeyfile.to_json())
     del js["key_data"]
 
     # encode wallet key file wth classical json encoder, key data added later with monero encoding.
-- 
2.43.0


From d2f812470cf621563626ea273171bad27dc473f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 24/34] fix: arguments after the payment id of a transfer or
 sweep were silently ignored

---
 monero_poc/utils/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 309f670..0ba56e2 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -231,6 +231,8 @@ def cut_payment_id(parts):
     payment_id = parts[0]
     if len(payment_id) != 16 and len(payment_id) != 64:
         raise ValueError("Payment ID allowed only 8 and 32 B")
+    if len(parts) > 1:
+        raise ValueError("Format error, unexpected arguments after the Payment ID")
     return payment_id, parts[1:]
 
 
-- 
2.43.0


From 076f2d0b60035cf76890a986300fef3f5d420baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 25/34] fix: with an already running wallet RPC all commands
 were refused as not ready

---
 monero_poc/agent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 49b0c5f..afb05a4 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1140,6 +1140,7 @@ class HostAgent(cli.BaseCli):
             self.wallet_proxy.set_addr(self.args.wallet_rpc_addr)
             self.wallet_proxy.set_creds(self.args.wallet_rpc_creds)
             self.rpc_running = True
+            self.rpc_ready = True
             self.update_prompt()
             return
 
-- 
2.43.0


From d02319e43298134b6456963734c29c95f2eaa87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 26/34] fix: the path of the wallet RPC binary was not quoted
 for the shell

---
 monero_poc/agent.py      | 2 +-
 monero_poc/utils/misc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index afb05a4..027398a 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -976,7 +976,7 @@ class HostAgent(cli.BaseCli):
         def preexec_function():
             os.setpgrp()
 
-        cmd = "%s %s" % (rpc_cmd, " ".join(args))
+        cmd = "%s %s" % (misc.escape_shell(rpc_cmd), " ".join(args))
         feeder = misc.Feeder()
         p = misc.run(
             cmd,
diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 0ba56e2..b92a9f5 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -389,7 +389,7 @@ def escape_shell(inp):
     except:
         pass
 
-    quote(inp)
+    return quote(inp)
 
 
 def wallet_enc_key(salt, password):
-- 
2.43.0


From e34bcdb76a7f526f940386005f2c171d8987eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 27/34] fix: wallet RPC output cut within a character or not in
 UTF-8 ended the wallet supervision

---
 monero_poc/agent.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 027398a..6c0d994 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -11,6 +11,7 @@
 import argparse
 import asyncio
 import binascii
+import codecs
 import datetime
 import json
 import logging
@@ -993,6 +994,8 @@ class HostAgent(cli.BaseCli):
         ret_code = 1
         out_acc, err_acc = [], []
         out_cur, err_cur = [""], [""]
+        decoder = codecs.getincrementaldecoder("utf8")
+        out_dec, err_dec = decoder("replace"), decoder("replace")
         logline_pattern = re.compile(r"^([^\s]+)\s+([^\s]+)\s+\[(.+?)\]\s+([^\s]+?)\s+")
         passwd_set = False
 
@@ -1030,7 +1033,9 @@ class HostAgent(cli.BaseCli):
                 self.on_rpc_ready()
 
         def add_output(buffers, is_err=False):
-            buffers = [x.decode("utf8") for x in buffers]
+            # Output is read in chunks which can end in the middle of a character
+            dec = err_dec if is_err else out_dec
+            buffers = [dec.decode(x) for x in buffers]
             lines = [""]
 
             dst_cur = err_cur if is_err else out_cur
-- 
2.43.0


From 76dd79c48ea95de88cb65c959d9f85400c213fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 28/34] fix: the agent waited for ever for a wallet RPC which
 could not be started

---
 monero_poc/agent.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 6c0d994..d676f17 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1104,6 +1104,10 @@ class HostAgent(cli.BaseCli):
             logger.error("Exception in wallet RPC command: %s" % e)
             self.trace_logger.log(e)
 
+        finally:
+            self.rpc_running = False
+            self.update_prompt()
+
     def shutdown_rpc(self):
         """
         Waits for rpc shutdown
-- 
2.43.0


From 0115e1587434c817cbd9c6fc9bceb3b6698e169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 29/34] fix: a wallet RPC starting while the agent ended was
 left running

---
 monero_poc/agent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index d676f17..10221d3 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1116,6 +1116,7 @@ class HostAgent(cli.BaseCli):
         if self.args.wallet_rpc_addr:  # using already running rpc
             return
         if not self.rpc_running:
+            self.terminating = True  # may be just starting
             return
 
         # Gracegul stop with save
-- 
2.43.0


From 5b0cb7160f6bb232aaf3a2a0e71fe9d78c0bd7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 30/34] fix: the wallet RPC password was generated by a
 predictable random generator

---
 monero_poc/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index b92a9f5..c85feec 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -126,8 +126,9 @@ def gen_simple_passwd(n):
     :param n:
     :return:
     """
+    rng = random.SystemRandom()
     return "".join(
-        random.choice(string.ascii_uppercase + string.digits) for _ in range(n)
+        rng.choice(string.ascii_uppercase + string.digits) for _ in range(n)
     )
 
 
-- 
2.43.0


From 521e2a3a46627701d97e54ae0f329a65c6711e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 31/34] fix: the daemon asked for the restore height was not
 the one given by --rpc-addr

---
 monero_poc/agent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 10221d3..491a608 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -528,6 +528,7 @@ class HostAgent(cli.BaseCli):
             self.wallet_file = self.args.watch_wallet
         if self.args.monero_bin:
             self.monero_bin = self.args.monero_bin
+        self.daemon_rpc.set_addr(self.rpc_addr)
 
     def choose_trezor(self):
         from monero_glue.trezor import manager as tmanager
@@ -1146,7 +1147,7 @@ class HostAgent(cli.BaseCli):
         :return:
         """
         if self.args.wallet_rpc_addr:  # using existing RPC?
-            self.daemon_rpc.set_addr(self.args.rpc_addr)
+            self.daemon_rpc.set_addr(self.rpc_addr)
             self.wallet_proxy.set_addr(self.args.wallet_rpc_addr)
             self.wallet_proxy.set_creds(self.args.wallet_rpc_creds)
             self.rpc_running = True
-- 
2.43.0


From 0739ba8cdf40bef315e6b428e149dfbe8f727e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 32/34] fix: a date which was not resolved was offered as the
 restore height after another one was declined

---
 monero_poc/agent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 491a608..b32ec2b 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -752,6 +752,7 @@ class HostAgent(cli.BaseCli):
                     == self.PROCEED_YES
                 ):
                     break
+                sure_stage = False
 
             height = misc.py_raw_input("Restore height: ").strip().lower()
             if height == "-":
-- 
2.43.0


From 0ed7354b48ff4230dc8b94f115ff4eb57eb49ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 33/34] fix: outsourced Bulletproof client does not crash
 logging vectors kept in chunks

With a large in-memory threshold the client makes empty chunked vectors for
the vectors kept by the device; logging their last bytes raised a TypeError
and the proof was never finished.
---
 monero_glue/xmr/bulletproof_cl.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/monero_glue/xmr/bulletproof_cl.py b/monero_glue/xmr/bulletproof_cl.py
index 01fdd02..7d723cc 100644
--- a/monero_glue/xmr/bulletproof_cl.py
+++ b/monero_glue/xmr/bulletproof_cl.py
@@ -115,6 +115,11 @@ def dechunk_res(buffers, exp_res=1):
     return cres if exp_res > 1 else cres[0]
 
 
+def hex_tail(v):
+    """Last two elements, for logging. Large vectors are chunked, i.e., v.d is not one buffer"""
+    return ubinascii.hexlify(b"".join(bytes(v.to(i)) for i in range(max(0, len(v) - 2), len(v))))
+
+
 def vect_clone(dst, src):
     dst = bp.ensure_dst_keyvect(dst, len(src))
     for i in range(len(src)):
@@ -306,10 +311,10 @@ class BulletproofClient:
             aprime = bp.KeyV(self.MN // 2, app)
             bprime = bp.KeyV(self.MN // 2, bpp)
 
-        logger.debug('0PC r: %s, ap %s %s' % (0, len(aprime), ubinascii.hexlify(aprime.d[-64:])))
-        logger.debug('0PC r: %s, bp %s %s' % (0, len(bprime), ubinascii.hexlify(bprime.d[-64:])))
-        logger.debug('0PC r: %s, Gp %s %s' % (0, len(Gprime), ubinascii.hexlify(Gprime.d[-64:])))
-        logger.debug('0PC r: %s, Hp %s %s' % (0, len(Hprime), ubinascii.hexlify(Hprime.d[-64:])))
+        logger.debug('0PC r: %s, ap %s %s' % (0, len(aprime), hex_tail(aprime)))
+        logger.debug('0PC r: %s, bp %s %s' % (0, len(bprime), hex_tail(bprime)))
+        logger.debug('0PC r: %s, Gp %s %s' % (0, len(Gprime), hex_tail(Gprime)))
+        logger.debug('0PC r: %s, Hp %s %s' % (0, len(Hprime), hex_tail(Hprime)))
 
         # Loops:
         # - clcr part, compute blinded cL, cR, LcA, LcB, RcA, RcB
@@ -385,10 +390,10 @@ class BulletproofClient:
                     bprime = nf
                     nprime >>= 1
 
-            logger.debug('wPC r: %s, ap  %s %s' % (round, len(aprime), ubinascii.hexlify(aprime.d[-64:])))
-            logger.debug('wPC r: %s, bp  %s %s' % (round, len(bprime), ubinascii.hexlify(bprime.d[-64:])))
-            logger.debug('wPC r: %s, Gp  %s %s' % (round, len(Gprime), ubinascii.hexlify(Gprime.d[-64:])))
-            logger.debug('wPC r: %s, Hp  %s %s' % (round, len(Hprime), ubinascii.hexlify(Hprime.d[-64:])))
+            logger.debug('wPC r: %s, ap  %s %s' % (round, len(aprime), hex_tail(aprime)))
+            logger.debug('wPC r: %s, bp  %s %s' % (round, len(bprime), hex_tail(bprime)))
+            logger.debug('wPC r: %s, Gp  %s %s' % (round, len(Gprime), hex_tail(Gprime)))
+            logger.debug('wPC r: %s, Hp  %s %s' % (round, len(Hprime), hex_tail(Hprime)))
 
         proof = await self.bp_final()
         proof = await tmisc.parse_msg(proof[0], BulletproofFull())
-- 
2.43.0


From b6b91250a1025d0d7066aa41f98a232e0a1a698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:58 +0000
Subject: [PATCH 34/34] fix: --patch-client left the modules of trezorlib
 imported before with other messages

trezorlib.ui, client and others are imported at the top of the agent and
kept their reference to the replaced messages; every message to a Trezor
failed with a TypeError.
---
 monero_poc/agent.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index b32ec2b..062bc11 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -563,11 +563,20 @@ class HostAgent(cli.BaseCli):
             tprotobuf.BoolType = protobuf.BoolType
             tprotobuf.BytesType = protobuf.BytesType
             tprotobuf.UnicodeType = protobuf.UnicodeType
+            tprotobuf.EnumType = protobuf.EnumType
             tprotobuf.MessageType = protobuf.MessageType
-            trezorlib.messages = messages
 
+            # modules of trezorlib imported before keep their own reference
             from trezorlib import mapping
 
+            old_messages = trezorlib.messages
+            for name, mod in list(sys.modules.items()):
+                if (
+                    name.split(".")[0] == "trezorlib"
+                    and getattr(mod, "messages", None) is old_messages
+                ):
+                    mod.messages = messages
+
             trezorlib.mapping.map_type_to_class = {}
             trezorlib.mapping.map_class_to_type = {}
             trezorlib.mapping.build_map()
-- 
2.43.0

