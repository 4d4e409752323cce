From 4163cc2b1e7e89a0e189e3d39c33543d15fd3ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 01/78] fix: sign transactions that declare no change output

---
 monero_glue/agent/agent_lite.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index 24a2b39..9e71d45 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -356,7 +356,11 @@ class Agent(object):
         tsx_data.outputs = [
             tmisc.translate_monero_dest_entry_pb(x) for x in tx.splitted_dsts
         ]
-        tsx_data.change_dts = tmisc.translate_monero_dest_entry_pb(tx.change_dts)
+        tsx_data.change_dts = (
+            tmisc.translate_monero_dest_entry_pb(tx.change_dts)
+            if tx.change_dts
+            else None
+        )
         tsx_data.num_inputs = len(tx.sources)
         tsx_data.mixin = len(tx.sources[0].outputs)
         tsx_data.fee = sum([x.amount for x in tx.sources]) - sum(
-- 
2.43.0


From 18d4cef828676c0e2a18f1d7b8ba88d03b9257b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 02/78] fix: encode and decode messages with enum fields

---
 monero_glue/protobuf.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 88b59c8..8943460 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -117,6 +117,19 @@ class BoolType:
     WIRE_TYPE = 0
 
 
+class EnumType:
+    WIRE_TYPE = 0
+
+    def __init__(self, enum_name, enum_values):
+        self.enum_name = enum_name
+        self.enum_values = enum_values
+
+    def validate(self, fvalue):
+        if fvalue not in self.enum_values:
+            raise TypeError("Invalid value %s of %s" % (fvalue, self.enum_name))
+        return fvalue
+
+
 class BytesType:
     WIRE_TYPE = 2
 
@@ -274,6 +287,8 @@ async def load_message(reader, msg_type):
             fvalue = uint_to_sint(ivalue)
         elif ftype is BoolType:
             fvalue = bool(ivalue)
+        elif isinstance(ftype, EnumType):
+            fvalue = ftype.validate(ivalue)
         elif ftype is BytesType:
             buf = bytearray(ivalue)
             reader.readinto(buf)
@@ -326,6 +341,9 @@ async def dump_message(writer, msg):
             elif ftype is BoolType:
                 dump_uvarint(writer, int(svalue))
 
+            elif isinstance(ftype, EnumType):
+                dump_uvarint(writer, ftype.validate(svalue))
+
             elif ftype is BytesType:
                 if isinstance(svalue, list):
                     dump_uvarint(writer, _count_bytes_list(svalue))
@@ -409,6 +427,9 @@ def format_message(
 
 
 def value_to_proto(ftype, value):
+    if isinstance(ftype, EnumType):
+        return ftype.validate(int(value))
+
     if issubclass(ftype, MessageType):
         raise TypeError("value_to_proto only converts simple values")
 
@@ -441,7 +462,7 @@ def dict_to_proto(message_type, d):
         if not repeated:
             value = [value]
 
-        if issubclass(ftype, MessageType):
+        if not isinstance(ftype, EnumType) and issubclass(ftype, MessageType):
             function = dict_to_proto
         else:
             function = value_to_proto
-- 
2.43.0


From 95c8f31bafc6710078f93946033937d19ae6f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 03/78] fix: message byte size is the size of its encoding

---
 monero_glue/protobuf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 8943460..42b6b9b 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -219,7 +219,12 @@ class MessageType:
 
     def ByteSize(self):
         data = BytesIO()
-        dump_message(data, self)
+        coro = dump_message(data, self)
+        try:
+            while True:  # writing to the memory never blocks
+                coro.send(None)
+        except StopIteration:
+            pass
         return len(data.getvalue())
 
 
-- 
2.43.0


From ae3c043d941865d14cd56578be22b17965c18a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 04/78] fix: refuse truncated protobuf messages

---
 monero_glue/protobuf.py | 64 +++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 42b6b9b..d4881a8 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -44,13 +44,27 @@ from typing import Any, Optional
 _UVARINT_BUFFER = bytearray(1)
 
 
+class TruncatedError(ValueError):
+    """
+    Input ends in the middle of a field.
+    """
+
+
 def load_uvarint(reader):
     buffer = _UVARINT_BUFFER
     result = 0
     shift = 0
     byte = 0x80
     while byte & 0x80:
-        if reader.readinto(buffer) == 0:
+        if shift >= 70:
+            raise ValueError("Varint too long")
+        try:
+            nread = reader.readinto(buffer)
+        except EOFError:
+            nread = 0
+        if nread == 0:
+            if shift:
+                raise TruncatedError("Truncated varint")
             raise EOFError
         byte = buffer[0]
         result += (byte & 0x7F) << shift
@@ -58,6 +72,33 @@ def load_uvarint(reader):
     return result
 
 
+def load_value(reader):
+    """
+    Varint that has to be present
+    """
+    try:
+        return load_uvarint(reader)
+    except EOFError:
+        raise TruncatedError("Truncated field")
+
+
+def load_bytes(reader, size):
+    """
+    Exactly size bytes. Reads by chunks so a malformed size does not allocate memory.
+    """
+    res = bytearray()
+    while len(res) < size:
+        chunk = bytearray(min(size - len(res), 4096))
+        try:
+            nread = reader.readinto(chunk)
+        except EOFError:
+            nread = 0
+        if nread != len(chunk):
+            raise TruncatedError("Truncated field")
+        res += chunk
+    return res
+
+
 def dump_uvarint(writer, n):
     if n < 0:
         raise ValueError("Cannot dump signed value, convert it to unsigned first.")
@@ -272,10 +313,10 @@ async def load_message(reader, msg_type):
 
         if field is None:  # unknown field, skip it
             if wtype == 0:
-                load_uvarint(reader)
+                load_value(reader)
             elif wtype == 2:
-                ivalue = load_uvarint(reader)
-                reader.readinto(bytearray(ivalue))
+                ivalue = load_value(reader)
+                load_bytes(reader, ivalue)
             else:
                 raise ValueError
             continue
@@ -284,7 +325,7 @@ async def load_message(reader, msg_type):
         if wtype != ftype.WIRE_TYPE:
             raise TypeError  # parsed wire type differs from the schema
 
-        ivalue = load_uvarint(reader)
+        ivalue = load_value(reader)
 
         if ftype is UVarintType:
             fvalue = ivalue
@@ -295,15 +336,14 @@ async def load_message(reader, msg_type):
         elif isinstance(ftype, EnumType):
             fvalue = ftype.validate(ivalue)
         elif ftype is BytesType:
-            buf = bytearray(ivalue)
-            reader.readinto(buf)
-            fvalue = bytes(buf)
+            fvalue = bytes(load_bytes(reader, ivalue))
         elif ftype is UnicodeType:
-            buf = bytearray(ivalue)
-            reader.readinto(buf)
-            fvalue = buf.decode()
+            fvalue = load_bytes(reader, ivalue).decode()
         elif issubclass(ftype, MessageType):
-            fvalue = await load_message(LimitedReader(reader, ivalue), ftype)
+            sub_reader = LimitedReader(reader, ivalue)
+            fvalue = await load_message(sub_reader, ftype)
+            if sub_reader.limit > 0:
+                raise TruncatedError("Truncated message")
         else:
             raise TypeError  # field type is unknown
 
-- 
2.43.0


From 71894dffbc671d0bf75cfcbe45d73ec98e66a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 05/78] fix: allow transfers with all outputs on the change
 address

---
 monero_glue/protocol/tsx_sign_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index d83f707..f533da0 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -573,6 +573,10 @@ class TTransactionBuilder(object):
         if not tsx_data.payment_id and count <= 1:
             tsx_data.payment_id = bytearray(8)
 
+        # All goes to the change address
+        if count == 0 and change_addr:
+            return change_addr.view_public_key
+
         return addr.view_public_key
 
     async def compute_sec_keys(self, tsx_data):
-- 
2.43.0


From 386c512c9e13b6c410646343f33e653d2cdae52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 06/78] fix: do not treat a recipient as the dummy sweep change

---
 monero_glue/protocol/tsx_sign_builder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index f533da0..94d4d19 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -205,7 +205,14 @@ class TTransactionBuilder(object):
             self._mem_trace("No change" if __debug__ else None)
             return
 
-        if change_idx is None and self.output_change.amount == 0 and len(outputs) == 2:
+        # Dummy change of the sweep must not be the address a non-zero amount is sent to.
+        # Change outputs use a*R derivation, i.e., no-one could spend it if it is not ours.
+        if (
+            change_idx is None
+            and self.output_change.amount == 0
+            and len(outputs) == 2
+            and not any(x.amount and addr_eq(x.addr, change_addr) for x in outputs)
+        ):
             self._mem_trace("Sweep tsx" if __debug__ else None)
             return  # sweep dummy tsx
 
-- 
2.43.0


From f976546f2535e924dd1c30e26e0fd15e173240ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 07/78] fix: check the permutation of inputs

---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 94d4d19..da745fe 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -747,6 +747,9 @@ class TTransactionBuilder(object):
         Set permutation on the inputs - sorted by key image on host.
         """
         self.state.input_permutation()
+        if len(permutation) != self.num_inputs():
+            raise ValueError("Invalid permutation")
+        common.check_permutation(permutation)
         self.source_permutation = permutation
         self.inp_idx = -1
 
-- 
2.43.0


From 49e8c8bdde6cb6c4432260e97c31ef1797ce605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 08/78] fix: refuse to sign outputs without a range proof

---
 monero_glue/protocol/tsx_sign_builder.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index da745fe..170a385 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -439,6 +439,12 @@ class TTransactionBuilder(object):
         self.rsig_type = tsx_data.rsig_data.rsig_type
         self.rsig_grp = tsx_data.rsig_data.grouping
         self.rsig_offload = self.rsig_type > 0 and self.output_count > 2
+        # Range proofs have to cover all outputs
+        utils.ensure(
+            sum(self.rsig_grp) == self.output_count
+            and all(0 < x <= self.output_count for x in self.rsig_grp),
+            "Invalid range proof grouping",
+        )
         self.use_bulletproof = self.rsig_type > 0
         self.use_simple_rct = self.input_count > 1 or self.rsig_type != 0
         self.bp_version = tsx_data.rsig_data.bp_version or 1
@@ -1436,6 +1442,14 @@ class TTransactionBuilder(object):
         if self.out_idx + 1 != self.num_dests():
             raise ValueError("Invalid out num")
 
+        # The last offloaded range proof has to be received already
+        utils.ensure(
+            not self.is_det_mask()
+            or not self.rsig_offload
+            or self.is_processing_offloaded,
+            "Range proof missing",
+        )
+
         # Fee test
         if self.fee != (self.summary_inputs_money - self.summary_outs_money):
             raise ValueError(
-- 
2.43.0


From af6e58db2e64c7407fbd69b0c9d640f3f7b1328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 09/78] fix: split lists into chunks without an empty tail

---
 monero_glue/xmr/common.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/monero_glue/xmr/common.py b/monero_glue/xmr/common.py
index 25ae2c0..8e649f5 100644
--- a/monero_glue/xmr/common.py
+++ b/monero_glue/xmr/common.py
@@ -190,15 +190,7 @@ def defattr(obj, attr, default=None, take_none=True):
 
 
 def chunk(arr, size=1):
-    res = []
-    idx = 0
-    while True:
-        c = arr[idx : idx + size]
-        res.append(c)
-        idx += size
-        if len(c) != size:
-            break
-    return res
+    return [arr[idx : idx + size] for idx in range(0, len(arr), size)]
 
 
 def try_fnc(fnc):
-- 
2.43.0


From 19a39b54feb48236de7c02befc5190df7a0afce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 10/78] fix: refuse to go on when not all inputs were hashed

---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 170a385..5eac9fc 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -805,6 +805,9 @@ class TTransactionBuilder(object):
         self.state.input_all_done()
         await self.trezor.iface.transaction_step(self.STEP_ALL_IN)
 
+        if self.inp_idx + 1 != self.num_inputs():
+            raise ValueError("Not all inputs hashed")
+
         from monero_glue.messages import MoneroTransactionAllInputsSetAck
         from monero_glue.messages import MoneroTransactionRsigData
 
-- 
2.43.0


From 084764324ab068b16999439000058a3adb3dd371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:40 +0000
Subject: [PATCH 11/78] fix: refuse offloaded range proof messages inside a
 batch

---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 5eac9fc..e834360 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -977,6 +977,9 @@ class TTransactionBuilder(object):
                 not last_in_batch or self.is_processing_offloaded != is_offloaded_bp,
                 "Offloaded BP out of order",
             )
+            utils.ensure(
+                last_in_batch or not is_offloaded_bp, "Offloaded BP too early"
+            )
             self.is_processing_offloaded = is_offloaded_bp
 
         if not self.is_processing_offloaded:
-- 
2.43.0


From 0f25f8ffeed7fef3eff83f0aca91d5de18c80306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 12/78] fix: use fresh secret randomness in range proofs

---
 monero_glue/xmr/bulletproof.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 7add744..59dfa5c 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -47,7 +47,8 @@ _PRINT_INT = False
 COUNT_STATE = False
 slot_sizes = None
 
-PRNG = crypto.prng(_ZERO)
+# Deterministic generator override, system randomness is used if not set
+PRNG = None
 
 # Aliasing
 ubinascii = binascii
@@ -185,9 +186,11 @@ def _scalarmult_base(dst, x):
 
 def _sc_gen(dst=None):
     dst = _ensure_dst_key(dst)
-    buff = PRNG.next(32, bytearray(32))
-    crypto.decodeint_into(_tmp_sc_1, buff)
-    #crypto.random_scalar(_tmp_sc_1)
+    if PRNG:
+        buff = PRNG.next(32, bytearray(32))
+        crypto.decodeint_into(_tmp_sc_1, buff)
+    else:
+        crypto.random_scalar_into(_tmp_sc_1)
     crypto.encodeint_into(dst, _tmp_sc_1)
     return dst
 
@@ -1965,9 +1968,13 @@ class BulletProofBuilder:
 
         return KeyVPrecomp(size, self.twoN, pow_two)
 
+    def _mask_seed(self, domain):
+        # Secret, fresh for each proof, same after the state is restored
+        return crypto.keccak_hash(bytes(self.proof_sec) + bytes(domain))
+
     def sL_vct(self, ln=_BP_N, allow_nonlinear=False):
         return (
-            KeyVPrngMask(ln, _ZERO, allow_nonlinear=allow_nonlinear) #crypto.random_bytes(32))
+            KeyVPrngMask(ln, self._mask_seed(_ZERO), allow_nonlinear=allow_nonlinear)
             # KeyVEval(ln, lambda i, dst: self._det_mask(i, True, dst))
             if self.use_det_masks
             else self.sX_gen(ln)
@@ -1975,7 +1982,7 @@ class BulletProofBuilder:
 
     def sR_vct(self, ln=_BP_N, allow_nonlinear=False):
         return (
-            KeyVPrngMask(ln, _ONE, allow_nonlinear=allow_nonlinear)  # crypto.random_bytes(32))
+            KeyVPrngMask(ln, self._mask_seed(_ONE), allow_nonlinear=allow_nonlinear)
             # KeyVEval(ln, lambda i, dst: self._det_mask(i, False, dst))
             if self.use_det_masks
             else self.sX_gen(ln)
@@ -1987,8 +1994,6 @@ class BulletProofBuilder:
         buff_mv = memoryview(buff)
         sc = crypto.new_scalar()
         for i in range(ln):
-            buff0 = PRNG.next(32, bytearray(32))
-            crypto.decodeint_into(sc, buff0)
             crypto.random_scalar_into(sc)
             crypto.encodeint_into(buff_mv[i * 32 : (i + 1) * 32], sc)
             _gc_iter(i)
@@ -2343,7 +2348,7 @@ class BulletProofBuilder:
         self.assrt(len(sv) == len(gamma), "|sv| != |gamma|")
         self.assrt(len(sv) > 0, "sv empty")
 
-        self.proof_sec = b"\x00"*32  #crypto.random_bytes(64)
+        self.proof_sec = crypto.random_bytes(64)
         self._det_mask_init()
         gc.collect()
         self.sv = [crypto.encodeint(x) for x in sv]
-- 
2.43.0


From 027ac9b9e016d38e432ff94512e2f3ceea202b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 13/78] fix: refuse short buffers as encoded points in the
 native backend

---
 monero_glue/xmr/core/ec_trezor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 734c22e..f93bacb 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -164,12 +164,19 @@ def _offset(x, offset=0):
     return memoryview(x)[offset:]
 
 
+def _point_buff(x, offset=0):
+    buff = _offset(x, offset)[:32]
+    if len(buff) != 32:
+        raise ValueError("Point decoding error: input too short")
+    return tcry.KEY_BUFF(*buff)
+
+
 def decodepoint(x, offset=0):
-    return tcry.ge25519_unpack_vartime_r(tcry.KEY_BUFF(*_offset(x, offset)[:32]))
+    return tcry.ge25519_unpack_vartime_r(_point_buff(x, offset))
 
 
 def decodepoint_into(r, x, offset=0):
-    tcry.ge25519_unpack_vartime(r, tcry.KEY_BUFF(*_offset(x, offset)[:32]))
+    tcry.ge25519_unpack_vartime(r, _point_buff(x, offset))
     return r
 
 
-- 
2.43.0


From 7339a5965c3681edbcd6b7fc24077615d8c4e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 14/78] fix: encode the watch key as a scalar

---
 monero_glue/hwtoken/token.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/hwtoken/token.py b/monero_glue/hwtoken/token.py
index b14da3f..f7bbd6e 100644
--- a/monero_glue/hwtoken/token.py
+++ b/monero_glue/hwtoken/token.py
@@ -105,7 +105,7 @@ class TokenLite(object):
             return Failure(message="InvalidNetworkType")
 
         return MoneroWatchKey(
-            watch_key=crypto.encodepoint(self.creds.view_key_private),
+            watch_key=crypto.encodeint(self.creds.view_key_private),
             address=self.creds.address,
         )
 
-- 
2.43.0


From d1db382024f5da80345a1d91bad0fa54d08f5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 15/78] fix: drop the saved signing session whenever a message
 fails

---
 monero_glue/hwtoken/token.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monero_glue/hwtoken/token.py b/monero_glue/hwtoken/token.py
index f7bbd6e..f9b7e57 100644
--- a/monero_glue/hwtoken/token.py
+++ b/monero_glue/hwtoken/token.py
@@ -125,6 +125,7 @@ class TokenLite(object):
             return res
 
         except Exception as e:
+            self.tsx_state = None
             await self.tsx_exc_handler(e)
             self.tsx_obj = None
             return Failure(message=exc2str(e))
-- 
2.43.0


From 97821ffe3e0b245328cb0da79f603355bd6a84e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 16/78] fix: reject key images outside the prime-order subgroup
 in ring signatures

---
 monero_glue/xmr/ring_ct.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index 2a42643..b134bd4 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -587,6 +587,13 @@ def check_ring_singature(prefix_hash, image, pubs, sig):
     image_unp = crypto.ge_frombytes_vartime(image)
     image_pre = crypto.ge_dsm_precomp(image_unp)
 
+    # Key image has to be in the prime order subgroup
+    image_8 = crypto.point_mul8(image_unp)
+    if not crypto.point_eq(
+        crypto.scalarmult(image_8, crypto.sc_inv_eight()), image_unp
+    ):
+        return False
+
     buff_off = len(prefix_hash)
     buff = bytearray(buff_off + 2 * 32 * len(pubs))
     memcpy(buff, 0, prefix_hash, 0, buff_off)
-- 
2.43.0


From d91b0fce07d88b914b5e5d47cdfd8313ea1e7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 17/78] fix: multiply by the raw power in the non-incremental
 range proof prover

---
 monero_glue/xmr/bulletproof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 59dfa5c..b11a97b 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -2117,7 +2117,7 @@ class BulletProofBuilder:
         r0 = KeyR0(MN, N, aR, y, z)
         ypow = KeyVPowers(MN, y, raw=True)
         r1 = KeyVEval(
-            MN, lambda i, d: _sc_mul(d, sR.to(i), None, ypow[i])  # noqa: F821
+            MN, lambda i, d: _sc_mul(d, sR.to(i), None, None, ypow[i])  # noqa: F821
         )
         del aR
         self.gc(14)
-- 
2.43.0


From 625895f01bf3e0c8ccc779dc3fc29947597550ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 18/78] fix: reject key images outside the prime-order subgroup
 in MLSAG verification

---
 monero_glue/xmr/mlsag2.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/monero_glue/xmr/mlsag2.py b/monero_glue/xmr/mlsag2.py
index 4a6570f..fe005b4 100644
--- a/monero_glue/xmr/mlsag2.py
+++ b/monero_glue/xmr/mlsag2.py
@@ -395,6 +395,15 @@ def ver_mlsag_assert(pk, rv, dsRows):
     return rows, cols
 
 
+def in_main_subgroup(pt):
+    """
+    Returns true if the point is in the prime order subgroup
+    """
+    return crypto.point_eq(
+        crypto.scalarmult(crypto.point_mul8(pt), crypto.sc_inv_eight()), pt
+    )
+
+
 def ver_mlsag_ext(message, pk, rv, dsRows):
     """
     Multilayered Spontaneous Anonymous Group Signatures (MLSAG signatures)
@@ -412,6 +421,8 @@ def ver_mlsag_ext(message, pk, rv, dsRows):
 
     Ip = key_vector(dsRows)
     for i in range(dsRows):
+        if not in_main_subgroup(rv.II[i]):
+            raise ValueError("Bad key image")
         Ip[i] = crypto.precomp(rv.II[i])
 
     i = 0
-- 
2.43.0


From 6203d0ba762552f31a6d9042ffeed6f4350b6394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 19/78] fix: validate ring size and key images in CLSAG
 verification

---
 monero_glue/xmr/mlsag2.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monero_glue/xmr/mlsag2.py b/monero_glue/xmr/mlsag2.py
index fe005b4..ba93bcc 100644
--- a/monero_glue/xmr/mlsag2.py
+++ b/monero_glue/xmr/mlsag2.py
@@ -803,6 +803,15 @@ def verify_clsag(msg, ss, sc1, sI, sD, pubs, C_offset):
     crypto.sc_copy(c, sc1)
     crypto.point_mul8_into(D_8, sD)
 
+    if n == 0:
+        raise ValueError("Empty pubs")
+    if len(ss) != n:
+        raise ValueError("Bad ss size")
+    if not in_main_subgroup(sI) or crypto.point_eq(sI, crypto.identity()):
+        raise ValueError("Bad key image")
+    if crypto.point_eq(D_8, crypto.identity()):
+        raise ValueError("Bad auxiliary key image")
+
     hsh_P = crypto.get_keccak()  # domain, I, D, P, C, C_offset
     hsh_C = crypto.get_keccak()  # domain, I, D, P, C, C_offset
     hsh_P.update(_HASH_KEY_CLSAG_AGG_0)
-- 
2.43.0


From 91e19be461bdefa94137d0df2eb02e366f088832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 20/78] fix: ring signature check requires one signature
 element per ring member

---
 monero_glue/xmr/ring_ct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index b134bd4..ffc259c 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -584,6 +584,9 @@ def check_ring_singature(prefix_hash, image, pubs, sig):
     """
     Checks ring signature generated with generate_ring_signature
     """
+    if len(pubs) == 0 or len(sig) != len(pubs):
+        return False
+
     image_unp = crypto.ge_frombytes_vartime(image)
     image_pre = crypto.ge_dsm_precomp(image_unp)
 
-- 
2.43.0


From c6c0beea75e45007d6e6be1e1fac1bd702a5d0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 21/78] fix: backend range proof with decoded output was
 inflated twice

---
 monero_glue/xmr/ring_ct.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index ffc259c..bb8fd50 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -230,7 +230,6 @@ def prove_range(
         if not byte_enc:
             R = monero.inflate_rsig(R)
         if decode:
-            R = monero.inflate_rsig(R)
             R = monero.recode_rangesig(R, encode=False)
 
         return C, a, R
-- 
2.43.0


From 8ee0ae5349335d0a87644fbcd4678944458ffa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 22/78] fix: subaddress with a zero account or index is a
 subaddress in AddrInfo.recompute_sub

---
 monero_glue/xmr/sub/addr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index 892d970..01231ac 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -49,7 +49,7 @@ class AddrInfo(object):
     def recompute_sub(self, spend_key, view_key, major=0, minor=0):
         self.spend_key = spend_key
         self.view_key = view_key
-        self.is_sub_address = major != 0 and minor != 0
+        self.is_sub_address = major != 0 or minor != 0
         self.recompute_addr()
 
 
-- 
2.43.0


From e40766157a4f309c78a7f875617bfa3a79cb94f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 23/78] fix: index (0, 0) is the main address in
 build_address_info

---
 monero_glue/xmr/monero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/monero.py b/monero_glue/xmr/monero.py
index 44467c7..b01ab57 100644
--- a/monero_glue/xmr/monero.py
+++ b/monero_glue/xmr/monero.py
@@ -500,6 +500,6 @@ def build_address_info(creds, subidx=None, payment_id=None, net_type=NetworkType
     ai.payment_id = payment_id
     ai.net_type = net_type
     ai.is_integrated = payment_id is not None
-    ai.is_sub_address = subidx is not None
+    ai.is_sub_address = subidx is not None and tuple(subidx) != (0, 0)
     ai.recompute_addr()
     return ai
-- 
2.43.0


From 5a4fd54c240af9aa81ef9eb9af772626af2cb133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 24/78] fix: refuse addresses of a wrong length

---
 monero_glue/xmr/sub/addr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index 01231ac..31e4765 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -85,6 +85,9 @@ def decode_addr(addr):
     :return:
     """
     d, version = crypto.xmr_base58_addr_decode_check(bytes(addr))
+    if len(d) != (72 if is_integrated(version) else 64):
+        raise ValueError("Invalid address length")
+
     return AddrInfo(version, d)
 
 
-- 
2.43.0


From bf86fc290f8152c706bf6f7a303071351f00cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 25/78] fix: base58 block of value 2^64 overflows

---
 monero_glue/misc/b58_mnr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/b58_mnr.py b/monero_glue/misc/b58_mnr.py
index 274086e..6a60b82 100644
--- a/monero_glue/misc/b58_mnr.py
+++ b/monero_glue/misc/b58_mnr.py
@@ -171,7 +171,7 @@ def decode_block(data, buf, index):
             return "Invalid symbol"
 
         product = order * digit + res_num
-        if product > __UINT64MAX:
+        if product >= __UINT64MAX:
             return "Overflow"
 
         res_num = product
-- 
2.43.0


From 918e35534985d573f697b2ae2faf6921370e241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 26/78] fix: refuse an empty payment id of an integrated
 address

---
 monero_glue/xmr/sub/addr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index 31e4765..7cdb6cb 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -123,7 +123,7 @@ def public_addr_encode(
     :param payment_id: for integrated address
     :return:
     """
-    if payment_id and len(payment_id) != 8:
+    if payment_id is not None and len(payment_id) != 8:
         raise ValueError("Payment ID has to have exactly 8B for an integrated address")
     net_ver = net_version(net, is_sub, payment_id is not None)
     return encode_addr(
-- 
2.43.0


From d45542bf278203e187d4010df8c7edefd8815e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 27/78] fix: verify count, checksum and range of recovery words

---
 monero_glue/xmr/core/mnemonic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/core/mnemonic.py b/monero_glue/xmr/core/mnemonic.py
index a3db4b4..5810e1c 100644
--- a/monero_glue/xmr/core/mnemonic.py
+++ b/monero_glue/xmr/core/mnemonic.py
@@ -1681,7 +1681,10 @@ def mn_encode(message, checksum=False):
 def mn_decode(wlist):
     out = ""
     n = len(words)
-    has_checksum = (n % 3) == 1
+    if len(wlist) not in (12, 13, 24, 25):
+        raise ValueError("Invalid number of words")
+
+    has_checksum = (len(wlist) % 3) == 1
 
     if has_checksum:
         if not checksum_test(wlist):
@@ -1694,6 +1697,8 @@ def mn_decode(wlist):
         w2 = words.index(word2)
         w3 = words.index(word3)
         x = w1 + n * ((n + w2 - w1) % n) + n * n * ((n + w3 - w2) % n)  # as an int
+        if x >= 2 ** 32:
+            raise ValueError("Invalid word triple")
         b = "%08x" % x  # this is big endian!
         out += mn_swap_endian_4byte(b)
 
@@ -1711,7 +1716,7 @@ def checksum_create(wlist, unique_prefix_len=UNIQUE_PREFIX_LEN):
 
 
 def checksum_test(wlist, unique_prefix_len=UNIQUE_PREFIX_LEN):
-    words = wlist
+    words = list(wlist)
     last_word = words.pop()
     checksum = words[checksum_create(words, unique_prefix_len)]
     trimmed_checksum = (
-- 
2.43.0


From ec6408b93d2a7f6b9596db81db59c978300539bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 28/78] fix: split words passed to SeedDerivation as one string

---
 monero_glue/xmr/sub/seed.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/monero_glue/xmr/sub/seed.py b/monero_glue/xmr/sub/seed.py
index 7e02123..9f386fa 100644
--- a/monero_glue/xmr/sub/seed.py
+++ b/monero_glue/xmr/sub/seed.py
@@ -83,14 +83,15 @@ class SeedDerivation(object):
     @staticmethod
     def clean_input(inp):
         cleaned = []
-        if isinstance(inp, (str, bytes)):
-            cleaned = [inp]
+        if isinstance(inp, bytes):
+            inp = inp.decode("utf8")
+        if isinstance(inp, str):
+            inp = [inp]
 
-        else:
-            for w in inp:
-                cleaned += w.split(" ")
+        for w in inp:
+            cleaned += w.split()
 
-        cleaned = [x.strip().lower() for x in cleaned]
+        cleaned = [x.lower() for x in cleaned]
         return cleaned
 
     @classmethod
-- 
2.43.0


From daec03c8a97b8bb5b4dbd5e4258ad9a4651e191c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 29/78] fix: repeat the seed of half-length recovery words as
 Monero does

---
 monero_glue/xmr/sub/seed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/sub/seed.py b/monero_glue/xmr/sub/seed.py
index 9f386fa..48b56e2 100644
--- a/monero_glue/xmr/sub/seed.py
+++ b/monero_glue/xmr/sub/seed.py
@@ -129,8 +129,10 @@ class SeedDerivation(object):
     @classmethod
     def from_monero_mnemonics(cls, mnemonics_words, *args, **kwargs):
         mnems = SeedDerivation.clean_input(mnemonics_words)
-        seed = mnemonic.mn_decode(mnems)
+        seed = binascii.unhexlify(mnemonic.mn_decode(mnems))
+        if len(seed) == 16:  # half-length words, the seed is repeated as in Monero
+            seed += seed
 
         r = cls()
-        r.set_monero_seed(binascii.unhexlify(seed))
+        r.set_monero_seed(seed)
         return r
-- 
2.43.0


From 34308b89bae01e4e6f697c88037c02df313e7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 30/78] fix: seed words restore the seed they were generated
 from

---
 monero_glue/misc/bip/bip32.py | 16 ++++++++++++++++
 monero_glue/xmr/sub/seed.py   |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/monero_glue/misc/bip/bip32.py b/monero_glue/misc/bip/bip32.py
index b9dbd8e..39d7dbd 100644
--- a/monero_glue/misc/bip/bip32.py
+++ b/monero_glue/misc/bip/bip32.py
@@ -271,6 +271,22 @@ class Wallet(object):
         words = [bip39.english_words[x] for x in indices]
         return words, indices
 
+    @staticmethod
+    def seed_words_to_seed(indices):
+        """
+        Inverse of to_seed_words: strips and verifies the checksum.
+        :param indices:
+        :return:
+        """
+        if len(indices) not in (12, 15, 18, 21, 24):
+            raise ValueError("Invalid number of words")
+
+        seed = Wallet.indices_to_bytes(indices)[: len(indices) * 4 // 3]
+        checksum = sha256(seed).digest()
+        if list(indices) != Wallet.bytes_to_indices(seed + checksum[:1]):
+            raise ValueError("Invalid checksum")
+        return seed
+
     def create_new_address_for_user(self, user_id):
         """Create a new bitcoin address to accept payments for a User.
         This is a convenience wrapper around `get_child` that helps you do
diff --git a/monero_glue/xmr/sub/seed.py b/monero_glue/xmr/sub/seed.py
index 48b56e2..e0ce3e1 100644
--- a/monero_glue/xmr/sub/seed.py
+++ b/monero_glue/xmr/sub/seed.py
@@ -103,7 +103,7 @@ class SeedDerivation(object):
                 raise ValueError("Passphrase not supported for index mnemonic interpretation")
 
             indices = [bip39.english_words.index(x) for x in mnems]
-            seed = bip32.Wallet.indices_to_bytes(indices)
+            seed = bip32.Wallet.seed_words_to_seed(indices)
 
         else:
             seed = bip39_deriv.mnemonics_to_seed(" ".join(mnems), passphrase=passphrase)
-- 
2.43.0


From 36c0f49a6346007c418fff98989e9bc0d9e4ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 31/78] fix: memoized child derivation ignored values of
 keyword arguments

---
 monero_glue/misc/bip/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/bip/utils.py b/monero_glue/misc/bip/utils.py
index b561a7c..5b0317c 100644
--- a/monero_glue/misc/bip/utils.py
+++ b/monero_glue/misc/bip/utils.py
@@ -62,7 +62,7 @@ def memoize(f):
     def _c(*args, **kwargs):
         if not hasattr(f, "cache"):
             f.cache = dict()
-        key = (args, tuple(kwargs))
+        key = (args, tuple(sorted(kwargs.items())))
         if key not in f.cache:
             f.cache[key] = f(*args, **kwargs)
         return f.cache[key]
-- 
2.43.0


From 1efc22818296e754aa0ff6ee0158506ed9476dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 32/78] fix: public derivation of child keys, children keep the
 network

---
 monero_glue/misc/bip/bip32.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/monero_glue/misc/bip/bip32.py b/monero_glue/misc/bip/bip32.py
index 39d7dbd..7759a23 100644
--- a/monero_glue/misc/bip/bip32.py
+++ b/monero_glue/misc/bip/bip32.py
@@ -450,7 +450,7 @@ class Wallet(object):
                 + long_or_int(self.private_key.get_key(), 16)
             ) % SECP256k1.order
             # I_R is the child's chain code
-            private_key = PrivateKey(private_exponent)
+            private_key = PrivateKey(private_exponent, network=self.network)
             public_key = private_key.get_public_key()
 
         elif not self.use_ed25519:
@@ -461,8 +461,9 @@ class Wallet(object):
                 _ECDSA_Public_key(g, g * I_L_long).point + self.public_key.to_point()
             )
             # I_R is the child's chain code
-            private_key = PrivateKey(private_exponent)
-            public_key = PublicKey.from_public_pair(PublicPair(point.x(), point.y()))
+            public_key = PublicKey.from_public_pair(
+                PublicPair(point.x(), point.y()), network=self.network
+            )
 
         if public_key.to_point() == INFINITY:
             raise InfinityPointException("The point at infinity is invalid.")
-- 
2.43.0


From e30b80129d845bd7840b0cb3b115608a8fa2246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 33/78] fix: export of compressed keys to WIF

---
 monero_glue/misc/bip/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/bip/keys.py b/monero_glue/misc/bip/keys.py
index b0c26e3..24c2397 100644
--- a/monero_glue/misc/bip/keys.py
+++ b/monero_glue/misc/bip/keys.py
@@ -91,7 +91,7 @@ class PrivateKey(Key):
         if compressed is None:
             compressed = self.compressed
         if compressed:
-            extended_key_bytes += "\01"
+            extended_key_bytes += b"\01"
         # And return the base58-encoded result with a checksum
         return ensure_str(base58.b58encode_check(extended_key_bytes))
 
-- 
2.43.0


From 08c5937388791357948395daf57551a7ad7b9347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 34/78] fix: refuse derivation path components with several
 prime marks

---
 monero_glue/misc/bip/bip32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/bip/bip32.py b/monero_glue/misc/bip/bip32.py
index 7759a23..b423ded 100644
--- a/monero_glue/misc/bip/bip32.py
+++ b/monero_glue/misc/bip/bip32.py
@@ -341,7 +341,7 @@ class Wallet(object):
             is_prime = None  # Let primeness be figured out by the child number
             if part[-1] in "'p":
                 is_prime = True
-                part = part.replace("'", "").replace("p", "")
+                part = part[:-1]
             try:
                 child_number = long_or_int(part)
             except ValueError:
-- 
2.43.0


From 8bae1ed989850231ab919d6c1fb6952e66569c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 35/78] fix: refuse extended keys of a wrong length

---
 monero_glue/misc/bip/bip32.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_glue/misc/bip/bip32.py b/monero_glue/misc/bip/bip32.py
index b423ded..da5657c 100644
--- a/monero_glue/misc/bip/bip32.py
+++ b/monero_glue/misc/bip/bip32.py
@@ -632,6 +632,8 @@ class Wallet(object):
             elif len(key) == 111:
                 # We have a base58 encoded string
                 key = base58.b58decode_check(key)
+            else:
+                raise ValueError("Invalid extended key length")
         # Now that we double checkd the values, convert back to bytes because
         # they're easier to slice
         version, depth, parent_fingerprint, child, chain_code, key_data = (
-- 
2.43.0


From 50b7ea5eca1dc2c0776923ff104711619b9945ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 36/78] fix: aescbc.encrypt uses the CBC mode its decrypt and
 name say (ECB rejects the iv)

---
 monero_glue/xmr/enc/aescbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/enc/aescbc.py b/monero_glue/xmr/enc/aescbc.py
index f9dd6a4..925216b 100644
--- a/monero_glue/xmr/enc/aescbc.py
+++ b/monero_glue/xmr/enc/aescbc.py
@@ -14,7 +14,7 @@ def encrypt(key, plaintext, iv=None):
     :return: ciphertext
     """
 
-    cipher = AES.new(key, AES.MODE_ECB, iv=iv)
+    cipher = AES.new(key, AES.MODE_CBC, iv=iv)
     return cipher.encrypt(plaintext)
 
 
-- 
2.43.0


From a33f1add34c007747f8d03c8c7d2b65cceef1716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 37/78] fix: chacha_poly.decrypt_pack takes the associated data
 encrypt_pack accepts

---
 monero_glue/xmr/enc/chacha_poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/enc/chacha_poly.py b/monero_glue/xmr/enc/chacha_poly.py
index e7291f2..4acbb8a 100644
--- a/monero_glue/xmr/enc/chacha_poly.py
+++ b/monero_glue/xmr/enc/chacha_poly.py
@@ -45,5 +45,5 @@ def encrypt_pack(key, plaintext, associated_data=None):
     return b"".join(encrypt(key, plaintext, associated_data))
 
 
-def decrypt_pack(key, ciphertext):
-    return decrypt(key, ciphertext[:12], ciphertext[12:], None)
+def decrypt_pack(key, ciphertext, associated_data=None):
+    return decrypt(key, ciphertext[:12], ciphertext[12:], associated_data)
-- 
2.43.0


From 4b80a56670cd353804eff4b69bda541f4b85c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 38/78] fix: decrypt_xmr refuses non-canonical signature
 scalars of an altered file

---
 monero_glue/xmr/enc/chacha.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/enc/chacha.py b/monero_glue/xmr/enc/chacha.py
index 092d23f..a98c957 100644
--- a/monero_glue/xmr/enc/chacha.py
+++ b/monero_glue/xmr/enc/chacha.py
@@ -51,7 +51,8 @@ def decrypt_xmr(priv_key, ciphertext, authenticated=True):
         pub = crypto.scalarmult_base(priv_key)
         c = crypto.decodeint(signature[:32])
         r = crypto.decodeint(signature[32:])
-        res = crypto.check_signature(hash, c, r, pub)
+        canonical = crypto.encodeint(c) + crypto.encodeint(r) == bytes(signature)
+        res = canonical and crypto.check_signature(hash, c, r, pub)
         if not res:
             raise ValueError("Signature invalid")
 
-- 
2.43.0


From 24d68657d51e3c1786f13775e652ff2db38013f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 39/78] fix: gen_keys_file leaves the given wallet key file
 object unchanged

---
 monero_glue/xmr/wallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index f27dc15..bb07841 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -148,8 +148,8 @@ async def gen_keys_file(password, wkeyfile):
     :return:
     """
     key_data = wkeyfile.key_data  # type: WalletKeyData
-    js = wkeyfile.to_json()
-    del js["key_data"]
+    js = dict(wkeyfile.to_json())
+    js.pop("key_data", None)
 
     # encode wallet key file wth classical json encoder, key data added later with monero encoding.
     enc = json.dumps(js, cls=xmrjson.AutoJSONEncoder)
-- 
2.43.0


From e56f8ca0071162c3bb667b163d678396cdb26ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 40/78] fix: load_keys_data finds the end of key data holding
 an escaped quote followed by a comma

---
 monero_glue/xmr/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index bb07841..5ca41c6 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -108,7 +108,7 @@ async def load_keys_data(data, password):
     buff = bytes(msg.iv + msg.account_data)
     dec = chacha.decrypt(key, buff)
 
-    m = re.search(b'(.*)"key_data":"(.+?)",(.*)', dec)
+    m = re.search(rb'(.*)"key_data":"((?:[^"\\]|\\.)+)",(.*)', dec, re.DOTALL)
     key_data = m.group(2)
 
     dat = xmrjson.unescape_json_str(key_data)
-- 
2.43.0


From a30f83990f3ab73079ea86150b25f0c785490145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 41/78] fix: dump_signed_tx writes the construction data in a
 format version that can be read back

---
 monero_glue/xmr/wallet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 5ca41c6..35ed4e0 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -230,16 +230,17 @@ async def dump_unsigned_tx(priv_key, unsigned_tx, hf=9):
     return UNSIGNED_TX_PREFIX + ciphertext
 
 
-async def dump_signed_tx(priv_key, signed_tx):
+async def dump_signed_tx(priv_key, signed_tx, hf=10):
     """
     Dumps signed_tx to a file as wallet produces
 
     :param priv_key:
     :param signed_tx:
+    :param hf:
     :return:
     """
     writer = xmrserialize.MemoryReaderWriter()
-    ar = xmrboost.Archive(writer, True)
+    ar = xmrboost.Archive(writer, True, xmrtypes.hf_versions(hf))
     try:
         await ar.root()
         await ar.message(signed_tx)
-- 
2.43.0


From 840698526afc652b171b5bfb7f8060b7484c54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 42/78] fix: wallet keys file keeps the whole creation
 timestamp, not its low byte

---
 monero_glue/xmr/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 35ed4e0..5a5c345 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -157,6 +157,9 @@ async def gen_keys_file(password, wkeyfile):
     # key_data KV serialization. Message -> Model.
     modeler = xmrrpc.Modeler(writing=True, modelize=True)
     mdl = await modeler.message(msg=key_data)
+    mdl["m_creation_timestamp"] = xmrrpc.IntegerModel(
+        key_data.m_creation_timestamp, xmrrpc.SerializeType.UINT64
+    )
 
     # Model -> binary
     writer = xmrserialize.MemoryReaderWriter()
-- 
2.43.0


From e27be056fb178314ca431e13481ea23e1d094f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 43/78] fix: conversion of a source entry for the device leaves
 the construction data unchanged

---
 monero_glue/hwtoken/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/hwtoken/misc.py b/monero_glue/hwtoken/misc.py
index 10858d5..39bd506 100644
--- a/monero_glue/hwtoken/misc.py
+++ b/monero_glue/hwtoken/misc.py
@@ -104,7 +104,7 @@ def translate_monero_src_entry_pb(src_entry: xmrtypes.TxSourceEntry):
     d.mask = src_entry.mask
     if src_entry.multisig_kLRki:
         s = src_entry.multisig_kLRki
-        src_entry.multisig_kLRki = MoneroMultisigKLRki(K=s.K, L=s.L, R=s.R, ki=s.ki)
+        d.multisig_kLRki = MoneroMultisigKLRki(K=s.K, L=s.L, R=s.R, ki=s.ki)
     return d
 
 
-- 
2.43.0


From 2410e9557e68154fe5e9ce241805e3902884af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 44/78] fix: MessageConverter.to_phlib converts nested messages
 too

---
 monero_glue/protocol_base/messages.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/monero_glue/protocol_base/messages.py b/monero_glue/protocol_base/messages.py
index 1d6d023..f297770 100644
--- a/monero_glue/protocol_base/messages.py
+++ b/monero_glue/protocol_base/messages.py
@@ -91,13 +91,19 @@ class MessageConverter(object):
                 field_name = field[0]
                 if hasattr(msg, field_name):
                     cval = getattr(msg, field_name, None)
-                    setattr(nmsg, field_name, self.to_trezorlib(cval))
+                    setattr(
+                        nmsg,
+                        field_name,
+                        self._transform(cval, src_proto, dst_package),
+                    )
             return nmsg
 
         elif isinstance(msg, list):
-            return [self.to_trezorlib(x) for x in msg]
+            return [self._transform(x, src_proto, dst_package) for x in msg]
         elif isinstance(msg, dict):
-            return {v: self.to_trezorlib(x) for v, x in msg.items()}
+            return {
+                v: self._transform(x, src_proto, dst_package) for v, x in msg.items()
+            }
         else:
             return msg
 
-- 
2.43.0


From 1d164218e95d2f2d67dcbc3d092cc68f21c3587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 45/78] fix: extra nonces of 128 to 255 bytes are written with
 the length the parser reads

---
 monero_glue/xmr/sub/tsx_helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/sub/tsx_helper.py b/monero_glue/xmr/sub/tsx_helper.py
index cc39eda..13ca517 100644
--- a/monero_glue/xmr/sub/tsx_helper.py
+++ b/monero_glue/xmr/sub/tsx_helper.py
@@ -5,6 +5,7 @@
 from monero_glue.messages.MoneroAccountPublicAddress import MoneroAccountPublicAddress
 from monero_glue.xmr import crypto
 from monero_serialize import xmrserialize
+from monero_serialize.core.int_serialize import dump_uvarint_b
 from monero_serialize.core.readwriter import MemoryReaderWriter
 from monero_serialize.xmrtypes import TxExtraAdditionalPubKeys, TxExtraField
 
@@ -212,7 +213,7 @@ def add_extra_nonce_to_tx_extra(extra, extra_nonce):
     """
     if len(extra_nonce) > 255:
         raise ValueError("Nonce could be 255 bytes max")
-    extra += b"\x02" + len(extra_nonce).to_bytes(1, "big") + extra_nonce
+    extra += b"\x02" + dump_uvarint_b(len(extra_nonce)) + extra_nonce
     return extra
 
 
-- 
2.43.0


From 8eb76bb4ac0dd7b60546b2157a578995f7fc77e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 46/78] fix: ecdh_decode with the receiver's secret key hashes
 the encoded shared secret, as ecdh_encode does

---
 monero_glue/xmr/ring_ct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index bb8fd50..e16bd2b 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -460,7 +460,9 @@ def ecdh_encdec(masked, receiver_sk=None, derivation=None, v2=False, enc=True, d
     """
     rv = xmrtypes.EcdhTuple() if dest is None else dest
     if derivation is None:
-        derivation = crypto.scalarmult(masked.senderPk, receiver_sk)
+        derivation = crypto.encodepoint(
+            crypto.scalarmult(masked.senderPk, receiver_sk)
+        )
 
     if v2:
         amnt = masked.amount
-- 
2.43.0


From 547d46d7cad2e428b799421d7b7cfd6c24b86fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 47/78] fix: decoding an output's hidden amount leaves the
 transaction as it was

---
 monero_glue/xmr/monero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/monero.py b/monero_glue/xmr/monero.py
index b01ab57..e10ba39 100644
--- a/monero_glue/xmr/monero.py
+++ b/monero_glue/xmr/monero.py
@@ -316,7 +316,7 @@ def ecdh_decode_simple(rv, sk, i, v2=False):
         raise ValueError("outPk vs ecdhInfo mismatch")
 
     ecdh_info = rv.ecdhInfo[i]
-    ecdh_info = recode_ecdh(ecdh_info, False)
+    ecdh_info = recode_ecdh(copy_ecdh(ecdh_info), False)
 
     ecdh_info = ring_ct.ecdh_decode(ecdh_info, derivation=crypto.encodeint(sk), v2=v2)
 
-- 
2.43.0


From a286f7d60f1e0c80eee4651aa27d01fcb049c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 48/78] fix: builder writes extra fields without a field count,
 as the parsers read them

---
 monero_glue/xmr/transaction_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 7a09df9..8218433 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -46,7 +46,6 @@ from monero_serialize.xmrtypes import (
     TxOut,
     TxoutToKey,
     TxExtraField,
-    TxExtraFields,
     UnsignedTxSet,
     TxConstructionData,
     RCTConfig,
@@ -169,7 +168,8 @@ class TransactionBuilder(object):
     async def dump_extra_fields(self, extras):
         writer = xmrserialize.MemoryReaderWriter(preallocate=None)
         ar = xmrserialize.Archive(writer, True)
-        await ar.container(extras, container_type=TxExtraFields)
+        for extra in extras:
+            await ar.variant(extra, elem_type=TxExtraField)
         return writer.get_buffer()
 
     async def gen_input(self, value=1, sub_major=None, sub_minor=0, additionals=False):
-- 
2.43.0


From f3fc3355bb1b119f14d586cfeb024f24751b289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 49/78] fix: builder lists the minor indices of the inputs as
 the subaddress indices

---
 monero_glue/xmr/transaction_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 8218433..ed59558 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -398,7 +398,7 @@ class TransactionBuilder(object):
             rct_config=RCTConfig(range_proof_type=4, bp_version=2),
             dests=dests,
             subaddr_account=self.account_idx,
-            subaddr_indices=list(set(x.m_subaddr_index.major for x in self.transfers)),
+            subaddr_indices=sorted(set(x.m_subaddr_index.minor for x in self.transfers)),
         )
 
         sset.txes.append(tdata)
-- 
2.43.0


From 3a6ddad7ad3b3cbcb345e7a86c8a5c797c73d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 50/78] fix: shuffling the outputs in the builder works, with
 and without change

---
 monero_glue/xmr/transaction_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index ed59558..e26accb 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -333,11 +333,12 @@ class TransactionBuilder(object):
         return self
     
     async def shuffle_outputs(self):
-        tmparr = zip(self.outputs, self.outputs_extra, range(len(self.outputs)))
+        tmparr = list(zip(self.outputs, self.outputs_extra, range(len(self.outputs))))
         self.prng.shuffle(tmparr)
         self.outputs = [x[0] for x in tmparr]
         self.outputs_extra = [x[1] for x in tmparr]
-        self.change_idx = [i for i, x in enumerate(tmparr) if x[2] == self.change_idx][0]
+        if self.change_idx is not None:
+            self.change_idx = [i for i, x in enumerate(tmparr) if x[2] == self.change_idx][0]
 
     async def set_payment_id(self, payment_id):
         self.payment_id = payment_id
-- 
2.43.0


From c16d7c0f09104854b53270f763e09a7333956091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 51/78] fix: global indices of a generated ring are distinct
 and ascending

---
 monero_glue/xmr/transaction_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index e26accb..f208ab0 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -141,6 +141,9 @@ class TransactionBuilder(object):
     def random_glob_idx(self):
         return self.prng.randint(0, 0xFFFFFF)
 
+    def random_ring_indices(self, n):
+        return sorted(self.prng.sample(range(0x1000000), n))
+
     def gen_tx_prefix(self, inputs=2, outputs=2) -> TransactionPrefix:
         pref = TransactionPrefix()
         pref.version = 2
@@ -233,7 +236,7 @@ class TransactionBuilder(object):
             additional_keys[oidx] = Additional
 
         src = TxSourceEntry()
-        src.outputs = [(self.random_glob_idx(), x) for x in ring]
+        src.outputs = list(zip(self.random_ring_indices(len(ring)), ring))
         src.real_output = index
         src.real_out_tx_key = crypto.encodepoint(R)
         src.real_out_additional_tx_keys = [crypto.encodepoint(x) for x in additional_keys]
-- 
2.43.0


From 796802f620e4e19f397b91d8af9328543e51a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 52/78] fix: builder can describe a set without a subaddress
 table

---
 monero_glue/xmr/transaction_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index f208ab0..4b376b9 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -416,7 +416,7 @@ class TransactionBuilder(object):
         inp = unsigned_txs.txes[0].sources
         if key_subs is None:
             key_subs = {}
-            for tx in enumerate(unsigned_txs.txes):
+            for tx in unsigned_txs.txes:
                 monero.compute_subaddresses(keys, tx.subaddr_account, list(tx.subaddr_indices), key_subs)
 
         print("\nInp: %s, #txs: %s, #transfers: %s" % (inp, len(unsigned_txs.txes), len(unsigned_txs.transfers)))
-- 
2.43.0


From 73154711062f8b7a125e654bb28dabb0028d9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 53/78] fix: change address of the builder carries its keys

---
 monero_glue/xmr/transaction_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 4b376b9..9bc56fd 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -519,8 +519,8 @@ class TransactionBuilder(object):
             0,
         )
         return AccountPublicAddress(
-            view_public_key=crypto.encodepoint(C),
-            spend_public_key=crypto.encodepoint(D),
+            m_view_public_key=crypto.encodepoint(C),
+            m_spend_public_key=crypto.encodepoint(D),
         )
 
     async def find_change_idx(self, tx, change_idx=None):
-- 
2.43.0


From b49c76cfc3568f182f39d109e4b376b862d74def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 54/78] fix: payment id set in the builder is announced as a
 payment id

---
 monero_glue/xmr/transaction_builder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 9bc56fd..e8cf408 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -345,8 +345,14 @@ class TransactionBuilder(object):
 
     async def set_payment_id(self, payment_id):
         self.payment_id = payment_id
+        if len(payment_id) == 8:
+            nonce = monero.set_encrypted_payment_id_to_tx_extra_nonce(payment_id)
+        elif len(payment_id) == 32:
+            nonce = monero.set_payment_id_to_tx_extra_nonce(payment_id)
+        else:
+            raise ValueError("Payment ID has to have 8 or 32 bytes")
         extras = [
-            TxExtraNonce(nonce=self.payment_id),
+            TxExtraNonce(nonce=nonce),
         ]
         self.extra = await self.dump_extra_fields(extras)
 
-- 
2.43.0


From 03ec7bc8bd22199df84cb8dba16f6595faecb90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 55/78] fix: lite protocol parses the subaddress index

---
 monero_glue/protocol_lite/lite.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/monero_glue/protocol_lite/lite.py b/monero_glue/protocol_lite/lite.py
index 6a8aeda..dfb361b 100644
--- a/monero_glue/protocol_lite/lite.py
+++ b/monero_glue/protocol_lite/lite.py
@@ -405,8 +405,7 @@ class LiteProtocol(object):
         return SW_OK
 
     def _idx_parse(self, index):
-        major = ustruct.unpack("<L", index)[0]
-        minor = ustruct.unpack_from("<L", index, 4)[0]
+        major, minor = ustruct.unpack("<LL", index)
         return major, minor
 
     async def get_subaddress(self):
-- 
2.43.0


From 5a591b3409c378a033b18536ff34a3a398aab056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 56/78] fix: lite protocol encrypts the payment id

---
 monero_glue/protocol_lite/lite.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/monero_glue/protocol_lite/lite.py b/monero_glue/protocol_lite/lite.py
index dfb361b..62c47ae 100644
--- a/monero_glue/protocol_lite/lite.py
+++ b/monero_glue/protocol_lite/lite.py
@@ -618,12 +618,8 @@ class LiteProtocol(object):
         pay_id = self._fetch(8)
 
         drv = crypto.generate_key_derivation(pub, sec)
-        drv += b"\x8d"
-        sec = crypto.keccak_hash(drv)
-        for i in range(8):
-            pay_id[i] ^= sec[i]
-
-        self._insert(pay_id)
+        sec = crypto.keccak_hash(crypto.encodepoint(drv) + b"\x8d")
+        self._insert(bytes(pay_id[i] ^ sec[i] for i in range(8)))
         return SW_OK
 
     async def dispatch(self, ctx, ins, p1, p2, input):
-- 
2.43.0


From d312fa2ecd86f195bb1aa30970177300508edb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 57/78] fix: lite protocol verifies a key against the wallet's
 public keys

---
 monero_glue/protocol_lite/lite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/protocol_lite/lite.py b/monero_glue/protocol_lite/lite.py
index 62c47ae..0d0c959 100644
--- a/monero_glue/protocol_lite/lite.py
+++ b/monero_glue/protocol_lite/lite.py
@@ -294,11 +294,11 @@ class LiteProtocol(object):
     async def verify_key(self):
         priv = self._fetch_decrypt_key()
         pub = crypto.decodepoint(self._fetch())
-        computed_pub = crypto.identity()
+        computed_pub = crypto.scalarmult_base(priv)
         verified = 0
 
         if self.c_p1 == 0:
-            computed_pub = crypto.scalarmult_base(priv)
+            pass
         elif self.c_p1 == 1:
             pub = self.A
         elif self.c_p1 == 2:
-- 
2.43.0


From bbd9f9485b1372be4cc2ac848e0d512accc13324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 58/78] fix: lite protocol uses the keys it was given for
 everything

---
 monero_glue/protocol_lite/lite.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/monero_glue/protocol_lite/lite.py b/monero_glue/protocol_lite/lite.py
index 0d0c959..34019a9 100644
--- a/monero_glue/protocol_lite/lite.py
+++ b/monero_glue/protocol_lite/lite.py
@@ -17,6 +17,7 @@ from monero_glue.compat import gc, log, micropython
 from monero_glue.hwtoken import misc
 from monero_glue.xmr import common, crypto, monero
 from monero_glue.xmr.enc import aescbc
+from monero_glue.xmr.sub.creds import AccountCreds
 from monero_serialize.core.int_serialize import load_uvarint_b
 
 from .consts import *
@@ -264,17 +265,23 @@ class LiteProtocol(object):
         return SW_OK
 
     async def put_key(self):
-        sec = crypto.decodeint(self._fetch(32))
-        pub = crypto.decodepoint(self._fetch(32))
-        if not crypto.point_eq(pub, crypto.scalarmult_base(sec)):
+        view_sec = crypto.decodeint(self._fetch(32))
+        view_pub = crypto.decodepoint(self._fetch(32))
+        if not crypto.point_eq(view_pub, crypto.scalarmult_base(view_sec)):
             return SW_WRONG_DATA
-        self.a = sec
 
         sec = crypto.decodeint(self._fetch(32))
         pub = crypto.decodepoint(self._fetch(32))
         if not crypto.point_eq(pub, crypto.scalarmult_base(sec)):
             return SW_WRONG_DATA
+
+        self.creds = AccountCreds.new_wallet(
+            view_sec, sec, self.creds.network_type
+        )
+        self.a = view_sec
+        self.A = view_pub
         self.b = sec
+        self.B = pub
         return SW_OK
 
     async def get_key(self):
-- 
2.43.0


From eadcdf535499a88cc4ef4945b81a90b0195227ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 59/78] fix: lite protocol asks the user to confirm a
 destination

---
 monero_glue/hwtoken/iface.py      | 11 +++++++++++
 monero_glue/protocol_lite/lite.py | 12 +++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/monero_glue/hwtoken/iface.py b/monero_glue/hwtoken/iface.py
index dcb3eb7..1f560f4 100644
--- a/monero_glue/hwtoken/iface.py
+++ b/monero_glue/hwtoken/iface.py
@@ -20,6 +20,17 @@ class TokenInterface(object):
         """
         return True
 
+    async def confirm_out(self, dst, is_change=False, creds=None, ctx=None):
+        """
+        Ask for confirmation from user, single destination
+        :param dst:
+        :param is_change:
+        :param creds:
+        :param ctx:
+        :return:
+        """
+        return True
+
     async def transaction_error(self, *args, **kwargs):
         """
         Transaction error
diff --git a/monero_glue/protocol_lite/lite.py b/monero_glue/protocol_lite/lite.py
index 34019a9..2b13fa1 100644
--- a/monero_glue/protocol_lite/lite.py
+++ b/monero_glue/protocol_lite/lite.py
@@ -589,9 +589,15 @@ class LiteProtocol(object):
         return SW_OK
 
     async def _req_dst(self, Aout, Bout, amount, is_sub=False):
-        addr = misc.StdObj(view_public_key=Aout, spend_public_key=Bout)
-        out = misc.StdObj(addr=addr, amount=amount, is_subaddress=is_sub)
-        await self.iface.confirm_out(out, False, self.creds, self.ctx)
+        addr = misc.StdObj(
+            view_public_key=crypto.encodepoint(Aout),
+            spend_public_key=crypto.encodepoint(Bout),
+        )
+        out = misc.StdObj(
+            addr=addr, amount=crypto.sc_get64(amount), is_subaddress=is_sub
+        )
+        if not await self.iface.confirm_out(out, False, self.creds, self.ctx):
+            raise ValueError(SW_SECURITY_STATUS_NOT_SATISFIED)
 
     async def mlsag_prehash_finalize(self):
         H = None
-- 
2.43.0


From 1c0089f7e55e466bc6a30b56fd183bb8ee30b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 60/78] fix: amounts entered on the command line are converted
 exactly

---
 monero_poc/utils/misc.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 701ae0f..924cf70 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -5,6 +5,7 @@
 import asyncio
 import binascii
 import collections
+import decimal
 import json
 import logging
 import os
@@ -129,8 +130,35 @@ def gen_simple_passwd(n):
     )
 
 
+def parse_amount(amount):
+    """
+    Parses decimal amount exactly, without going through the float.
+    :param amount:
+    :return: Decimal, representable as uint64 in atomic units
+    """
+    amount = decimal.Decimal(amount)
+    amount_to_uint64(amount)
+    return amount
+
+
 def amount_to_uint64(amount):
-    return int((10 ** DISPLAY_DECIMAL_POINT) * amount)
+    """
+    Converts amount in monero to the exact number of atomic units
+    :param amount:
+    :return:
+    """
+    try:
+        with decimal.localcontext() as ctx:
+            ctx.prec = 64
+            ctx.traps[decimal.Inexact] = True
+            atomic = decimal.Decimal(str(amount)).scaleb(DISPLAY_DECIMAL_POINT)
+            valid = 0 <= atomic < 2 ** 64 and atomic == atomic.to_integral_value()
+    except ArithmeticError as e:
+        raise ValueError("Amount not valid: %s" % amount) from e
+
+    if not valid:
+        raise ValueError("Amount not valid: %s" % amount)
+    return int(atomic)
 
 
 class TransferArgs(object):
@@ -178,14 +206,14 @@ def cut_addr(parts):
 
 def cut_amount(parts):
     try:
-        return float(parts[0]), parts[1:]
+        return parse_amount(parts[0]), parts[1:]
     except Exception as e:
         raise ValueError("Format error, Amount not valid") from e
 
 
 def cut_addr_amount(parts):
     try:
-        return parts[0], float(parts[1]), parts[2:]
+        return parts[0], parse_amount(parts[1]), parts[2:]
     except Exception as e:
         return None, None, parts
 
-- 
2.43.0


From 1df130693566ab90888bb8013c366404a4eccaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 61/78] fix: arguments a transfer or sweep command cannot place
 are refused

---
 monero_poc/utils/misc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 924cf70..1d6870c 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -237,6 +237,11 @@ def cut_payment_id(parts):
     return payment_id, parts[1:]
 
 
+def check_end(parts):
+    if len(parts) > 0:
+        raise ValueError("Format error, unexpected arguments: %s" % " ".join(parts))
+
+
 def parse_transfer_cmd(parts):
     """
     Parses transfer command format
@@ -265,6 +270,7 @@ def parse_transfer_cmd(parts):
         raise ValueError("Format error")
 
     res.payment_id, parts = cut_payment_id(parts)
+    check_end(parts)
     return res
 
 
@@ -281,6 +287,7 @@ def parse_sweep_all(line):
     res.mixin, parts = cut_mixin(parts)
     res.address, parts = cut_addr(parts)
     res.payment_id, parts = cut_payment_id(parts)
+    check_end(parts)
     return res
 
 
@@ -301,6 +308,7 @@ def parse_sweep_below(line):
     res.mixin, parts = cut_mixin(parts)
     res.address, parts = cut_addr(parts)
     res.payment_id, parts = cut_payment_id(parts)
+    check_end(parts)
     return res
 
 
@@ -320,6 +328,7 @@ def parse_sweep_single(line):
     res.key_image, parts = cut_key_image(parts)
     res.address, parts = cut_addr(parts)
     res.payment_id, parts = cut_payment_id(parts)
+    check_end(parts)
     return res
 
 
-- 
2.43.0


From 6c23e639290d04336eac92efd4093aaad98f1297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 62/78] fix: transfer passes the ring size to the wallet as the
 ring size

---
 monero_poc/agent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 20ba79c..07110ea 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1229,7 +1229,7 @@ class HostAgent(cli.BaseCli):
             print("Sending %s monero to %s" % (cur[1], cur[0]))
 
         print(
-            "Priority: %s, mixin: %s, payment_id: %s"
+            "Priority: %s, ring size: %s, payment_id: %s"
             % (
                 priority if priority else "default",
                 mixin if mixin else "default",
@@ -1258,7 +1258,7 @@ class HostAgent(cli.BaseCli):
             params["priority"] = priority
 
         if mixin is not None:
-            params["mixin"] = mixin
+            params["ring_size"] = mixin
 
         if new_payment_id is not None:
             params["payment_id"] = binascii.hexlify(new_payment_id).decode("ascii")
-- 
2.43.0


From 531a16e8d36292ea90a6f5b384099dd8c25d7370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 63/78] fix: sweep_single parses its own arguments and names
 the recipient

---
 monero_poc/agent.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 07110ea..6b34374 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -356,7 +356,7 @@ class HostAgent(cli.BaseCli):
             )
             return
 
-        params = misc.parse_sweep_below(line)
+        params = misc.parse_sweep_single(line)
         self.sweep_cmd(params, is_single=True)
 
     def do_sign(self, line):
@@ -1267,7 +1267,7 @@ class HostAgent(cli.BaseCli):
         self.transfer_params(params, aux_data)
 
     def sweep_params(self, parts, is_all=False, is_below=False, is_single=False):
-        params = {"do_not_relay": True}
+        params = {"do_not_relay": True, "address": parts.address}
 
         if parts.priority is not None:
             params["priority"] = parts.priority
@@ -1282,12 +1282,11 @@ class HostAgent(cli.BaseCli):
             params["below_amount"] = misc.amount_to_uint64(parts.amount_threshold)
 
         if parts.key_image is not None:
-            params["key_image"] = parts.key_image
+            params["key_image"] = binascii.hexlify(parts.key_image).decode("ascii")
 
         if not is_single:
             params["account_index"] = self.account_idx
             params["subaddr_indices"] = parts.indices
-            params["address"] = parts.address
 
         return params
 
-- 
2.43.0


From dabbfcad6c19b62486fba53838e31c43c0c20e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 64/78] fix: agent does not continue when loading of the
 watch-only keys fails

---
 monero_poc/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 6b34374..3c3017a 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -490,7 +490,7 @@ class HostAgent(cli.BaseCli):
             await self.open_with_keys(self.priv_view, self.address)
 
         except Exception as e:
-            if not self.args:
+            if not self.args.no_init:
                 raise ValueError(e)
             else:
                 logger.warning("Loading watch-only keys failed (but init is not required), %s" % (e,))
-- 
2.43.0


From df61da603ef5894eb6c159a80896e40f08148f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 65/78] fix: path to the wallet RPC binary is shell escaped

---
 monero_poc/agent.py      | 2 +-
 monero_poc/utils/misc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 3c3017a..c2bf05d 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -976,7 +976,7 @@ class HostAgent(cli.BaseCli):
         def preexec_function():
             os.setpgrp()
 
-        cmd = "%s %s" % (rpc_cmd, " ".join(args))
+        cmd = "%s %s" % (misc.escape_shell(rpc_cmd), " ".join(args))
         feeder = misc.Feeder()
         p = misc.run(
             cmd,
diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 1d6870c..91912e9 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -399,7 +399,7 @@ def escape_shell(inp):
     except:
         pass
 
-    quote(inp)
+    return quote(inp)
 
 
 def wallet_enc_key(salt, password):
-- 
2.43.0


From 1264d54d994aa4d397c92ec3cd1191eb36767f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 66/78] fix: agent checks the view key against the address it
 was given

---
 monero_poc/agent.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index c2bf05d..22e5cfb 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -487,7 +487,7 @@ class HostAgent(cli.BaseCli):
 
             self.priv_view = crypto.decodeint(res.watch_key)
             self.set_address(res.address)
-            await self.open_with_keys(self.priv_view, self.address)
+            await self.open_with_keys(self.priv_view, res.address)
 
         except Exception as e:
             if not self.args.no_init:
@@ -865,10 +865,11 @@ class HostAgent(cli.BaseCli):
             if self.args.testnet
             else monero.NetworkTypes.MAINNET
         )
-        self.set_address(self.args.address.encode("ascii"))
+        address = self.args.address.encode("ascii")
+        self.set_address(address)
         self.wallet_file = self.args.watch_wallet
         self.monero_bin = self.args.monero_bin
-        await self.open_with_keys(self.priv_view, self.address)
+        await self.open_with_keys(self.priv_view, address)
 
     async def open_account_file(self, file):
         """
@@ -901,10 +902,11 @@ class HostAgent(cli.BaseCli):
         self.wallet_file = js["wallet_file"]
         self.monero_bin = js["monero_bin"]
         self.set_network_type(js["network_type"])
-        self.set_address(js["address"].encode("utf8"))
+        address = js["address"].encode("utf8")
+        self.set_address(address)
         self.rpc_addr = js["rpc_addr"]
 
-        await self.open_with_keys(self.priv_view, self.address)
+        await self.open_with_keys(self.priv_view, address)
 
     async def open_with_keys(self, view_key, address):
         """
-- 
2.43.0


From 2989d1e8036af3338e2d4dae3b04eec9b6b2238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 67/78] fix: amounts the user confirms are shown exactly

---
 monero_glue/xmr/wallet.py | 10 ++++++++++
 monero_poc/agent.py       |  8 ++++----
 monero_poc/trezor.py      |  8 ++++----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 5a5c345..27d7c6c 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -293,6 +293,16 @@ def conv_disp_amount(amount):
     return amount / float(10 ** monero.DISPLAY_DECIMAL_POINT)
 
 
+def disp_amount(amount):
+    """
+    Monero uint64 to the exact decimal string, all decimal places.
+    :param amount:
+    :return:
+    """
+    whole, frac = divmod(amount, 10 ** monero.DISPLAY_DECIMAL_POINT)
+    return "%d.%0*d" % (whole, monero.DISPLAY_DECIMAL_POINT, frac)
+
+
 async def load_exported_outputs(priv_key, data):
     """
     Loads exported outputs file
diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 22e5cfb..8f869db 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1309,9 +1309,9 @@ class HostAgent(cli.BaseCli):
         )
         fees = common.defvalkey(result, "fee_list", [common.defvalkey(result, "fee")])
         for idx in range(len(amounts)):
-            st = "Amount: %s" % wallet.conv_disp_amount(amounts[idx])
+            st = "Amount: %s" % wallet.disp_amount(amounts[idx])
             if idx < len(fees):
-                st += ", Fee: %s" % wallet.conv_disp_amount(fees[idx])
+                st += ", Fee: %s" % wallet.disp_amount(fees[idx])
             self.poutput(st)
 
         ask_res = self.ask_proceed_quit("Do you confirm (y/n) ? ")
@@ -1334,9 +1334,9 @@ class HostAgent(cli.BaseCli):
         )
         fees = common.defvalkey(result, "fee_list", [common.defvalkey(result, "fee")])
         for idx in range(len(amounts)):
-            st = "Amount: %s" % wallet.conv_disp_amount(amounts[idx])
+            st = "Amount: %s" % wallet.disp_amount(amounts[idx])
             if idx < len(fees):
-                st += ", Fee: %s" % wallet.conv_disp_amount(fees[idx])
+                st += ", Fee: %s" % wallet.disp_amount(fees[idx])
             self.poutput(st)
 
         ask_res = self.ask_proceed_quit("Do you confirm (y/n) ? ")
diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index ab46331..ed82414 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -456,7 +456,7 @@ class TrezorServer(cli.BaseCli):
         self.poutput("Key image sync procedure\nEnter K to start\n")
 
     def conv_disp_amount(self, amount):
-        return wallet.conv_disp_amount(amount)
+        return wallet.disp_amount(amount)
 
     def do_T(self, line):
         if not self.trez_iface.in_confirmation:
@@ -489,7 +489,7 @@ class TrezorServer(cli.BaseCli):
             )
             if addr != addr_chg:
                 self.poutput(
-                    "  Output %2d: %12.8f to %s, sub: %s"
+                    "  Output %2d: %16s to %s, sub: %s"
                     % (
                         idx,
                         self.conv_disp_amount(out.amount),
@@ -499,7 +499,7 @@ class TrezorServer(cli.BaseCli):
                 )
             else:
                 self.poutput(
-                    "  Change:    %12.8f to %s, sub: %s"
+                    "  Change:    %16s to %s, sub: %s"
                     % (
                         self.conv_disp_amount(out.amount),
                         addr.decode("utf8"),
@@ -507,7 +507,7 @@ class TrezorServer(cli.BaseCli):
                     )
                 )
 
-        self.poutput("  Fee: %.8f" % self.conv_disp_amount(tsx_data.fee))
+        self.poutput("  Fee: %s" % self.conv_disp_amount(tsx_data.fee))
         self.poutput("  Account: %s" % tsx_data.account)
 
         self.poutput("- " * 40)
-- 
2.43.0


From 29805700133e4bf3bcc8e86f1e83b0279a4a11aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 68/78] fix: emulator refuses a request that would replace the
 one being confirmed

---
 monero_poc/trezor.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index ed82414..90b82a9 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -49,6 +49,8 @@ class TokenInterface(iface.TokenInterface):
         self.ki_sync_waiter = misc.CliPrompt(pre_wait_hook=server.update_prompt)
         self.tsx_data = None
         self.confirmed_result = False
+        self.tsx_lock = threading.Lock()
+        self.ki_sync_lock = threading.Lock()
 
     def get_tx_data(self):
         return self.tsx_data
@@ -62,15 +64,20 @@ class TokenInterface(iface.TokenInterface):
         self.tsx_waiter.confirmation(confirmed)
 
     async def confirm_transaction(self, tsx_data, creds=None, ctx=None):
-        self.confirmed_result = False
-        self.tsx_data = tsx_data
+        if not self.tsx_lock.acquire(blocking=False):
+            logger.warning("Transaction confirmation requested concurrently")
+            return False
+
         try:
+            self.confirmed_result = False
+            self.tsx_data = tsx_data
             self.server.on_confirm_start()
             self.tsx_waiter.wait_confirmation()
             return self.confirmed_result
 
         finally:
             self.tsx_data = None
+            self.tsx_lock.release()
 
     async def transaction_signed(self, ctx=None):
         logger.debug("Transaction signed")
@@ -85,9 +92,17 @@ class TokenInterface(iface.TokenInterface):
         logger.debug("Transaction step: %s, sub step: %s" % (step, sub_step))
 
     async def confirm_ki_sync(self, init_msg, ctx=None):
-        self.server.on_confirm_ki_sync(init_msg)
-        self.ki_sync_waiter.wait_confirmation()
-        return self.ki_sync_waiter.confirmed_result
+        if not self.ki_sync_lock.acquire(blocking=False):
+            logger.warning("Key image sync confirmation requested concurrently")
+            return False
+
+        try:
+            self.server.on_confirm_ki_sync(init_msg)
+            self.ki_sync_waiter.wait_confirmation()
+            return self.ki_sync_waiter.confirmed_result
+
+        finally:
+            self.ki_sync_lock.release()
 
     async def ki_error(self, e, ctx=None):
         logger.error("ki sync error: %s" % e)
-- 
2.43.0


From 2de38d1e2ff7a7010bab9bc7419d925071f7e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 69/78] fix: emulator starts with keys given and no account
 file

---
 monero_poc/trezor.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index 90b82a9..3d7a295 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -759,15 +759,16 @@ class TrezorServer(cli.BaseCli):
             priv_spend_key = crypto.b16_to_scalar(priv_spend)
 
             self.account_data = {"spend_key": priv_spend_key, "view_key": priv_view_key}
-            with open(self.args.account_file, "w") as fh:
-                json.dump(
-                    {
-                        "spend_key": priv_spend.decode("ascii"),
-                        "view_key": priv_view.decode("ascii"),
-                    },
-                    fh,
-                    indent=2,
-                )
+            if self.args.account_file:
+                with open(self.args.account_file, "w") as fh:
+                    json.dump(
+                        {
+                            "spend_key": priv_spend.decode("ascii"),
+                            "view_key": priv_view.decode("ascii"),
+                        },
+                        fh,
+                        indent=2,
+                    )
 
         if priv_spend_key and priv_view_key:
             self.init_with_keys(priv_spend_key, priv_view_key)
-- 
2.43.0


From 395acd0bf5aa5e2afd27617c553191d7b4f13d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 70/78] fix: device initializer loads the mnemonic it was given

---
 monero_poc/trezor_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_poc/trezor_init.py b/monero_poc/trezor_init.py
index 81cd55d..23f5c16 100644
--- a/monero_poc/trezor_init.py
+++ b/monero_poc/trezor_init.py
@@ -83,7 +83,7 @@ def main():
 
     mnemonic = mnemonic24 if args.mnemonic_idx == 1 else mnemonic12
     if args.mnemonic:
-        mnemonic = mnemonic
+        mnemonic = args.mnemonic
 
     wirelink = get_transport(path)
     client = (
-- 
2.43.0


From e747f02a9a2c4b52987aa745ff43c52813ac8cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 71/78] fix: agent asks the configured daemon for the restore
 height

---
 monero_poc/agent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 8f869db..862bf89 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -522,6 +522,7 @@ class HostAgent(cli.BaseCli):
         """
         if self.args.rpc_addr:
             self.rpc_addr = self.args.rpc_addr
+        self.daemon_rpc.set_addr(self.rpc_addr)
         if self.args.watch_wallet:
             self.wallet_file = self.args.watch_wallet
         if self.args.monero_bin:
@@ -1138,7 +1139,7 @@ class HostAgent(cli.BaseCli):
         :return:
         """
         if self.args.wallet_rpc_addr:  # using existing RPC?
-            self.daemon_rpc.set_addr(self.args.rpc_addr)
+            self.daemon_rpc.set_addr(self.rpc_addr)
             self.wallet_proxy.set_addr(self.args.wallet_rpc_addr)
             self.wallet_proxy.set_creds(self.args.wallet_rpc_creds)
             self.rpc_running = True
-- 
2.43.0


From 2704b8de923e3e2ecab5ec4fc8cae9632f79bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:05 +0000
Subject: [PATCH 72/78] fix: test generator hands inputs to the asked
 subaddress

---
 monero_poc/tools/test_gen.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/monero_poc/tools/test_gen.py b/monero_poc/tools/test_gen.py
index 016b91a..0fb9a3c 100644
--- a/monero_poc/tools/test_gen.py
+++ b/monero_poc/tools/test_gen.py
@@ -542,9 +542,8 @@ class TestGen(object):
         xi, ki, di = secs
 
         need_additional = additional_keys is not None and len(additional_keys) > 0
-        is_dst_sub = self.dest_sub_major != 0 and (
-            self.args.minors[0] != 0 or len(self.args.minors) > 1
-        )
+        rand_minor = random.choice(self.args.minors)
+        is_dst_sub = self.dest_sub_major != 0 or rand_minor != 0
         logger.debug(
             "Is dst sub: %s, need additional: %s" % (is_dst_sub, need_additional)
         )
@@ -553,7 +552,6 @@ class TestGen(object):
             need_additional = True
 
         if is_dst_sub:
-            rand_minor = random.choice(self.args.minors)
             m = monero.get_subaddress_secret_key(
                 new_keys.view_key_private, major=self.dest_sub_major, minor=rand_minor
             )
-- 
2.43.0


From 205df9b811f6145351ef36901e2d8d47887f61e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:05 +0000
Subject: [PATCH 73/78] fix: test generator makes enough per-output keys

---
 monero_poc/tools/test_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_poc/tools/test_gen.py b/monero_poc/tools/test_gen.py
index 0fb9a3c..4753ca4 100644
--- a/monero_poc/tools/test_gen.py
+++ b/monero_poc/tools/test_gen.py
@@ -586,7 +586,7 @@ class TestGen(object):
             r = crypto.random_scalar()
             tx_key = crypto.scalarmult_base(r)
 
-            gen_additionals = min(2, inp.real_output_in_tx_index + 1)
+            gen_additionals = max(2, inp.real_output_in_tx_index + 1)
             if additional_keys is None or len(additional_keys) < gen_additionals:
                 additional_keys = [
                     crypto.scalarmult_base(crypto.random_scalar())
-- 
2.43.0


From 2560835f1f3d3215d265b7b826d5fa88a1d30f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:05 +0000
Subject: [PATCH 74/78] fix: test generator splits inputs still under the
 current keys

---
 monero_poc/tools/test_gen.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/monero_poc/tools/test_gen.py b/monero_poc/tools/test_gen.py
index 4753ca4..35a924a 100644
--- a/monero_poc/tools/test_gen.py
+++ b/monero_poc/tools/test_gen.py
@@ -337,7 +337,7 @@ class TestGen(object):
             new_inp = TxSourceEntry(outputs=list(lst.outputs),
                                     real_output=lst.real_output,
                                     real_out_tx_key=lst.real_out_tx_key,
-                                    real_out_additional_tx_keys=lst.real_out_additional_tx_keys,
+                                    real_out_additional_tx_keys=list(lst.real_out_additional_tx_keys),
                                     real_output_in_tx_index=lst.real_output_in_tx_index,
                                     amount=new_amnt,
                                     rct=lst.rct,
@@ -354,7 +354,9 @@ class TestGen(object):
                     mask=crypto.encodepoint(self.random_pub()),
                     dest=crypto.encodepoint(self.random_pub())))
 
-                if new_inp.real_out_additional_tx_keys:
+            # Randomize additional keys of the other outputs
+            for i in range(len(new_inp.real_out_additional_tx_keys)):
+                if i != new_inp.real_output_in_tx_index:
                     new_inp.real_out_additional_tx_keys[i] = crypto.encodepoint(self.random_pub())
 
             self.check_input(new_inp, new_keys, new_subs)
@@ -496,7 +498,7 @@ class TestGen(object):
             )
 
             if self.args.inputs:
-                await self.amplify_inputs(tx, self.dest_keys, self.dest_subs)
+                await self.amplify_inputs(tx, self.cur_keys, self.cur_subs)
 
             for inp in tx.sources:
                 self.rekey_input(
-- 
2.43.0


From ee9cf0aae2198c61dbac517b00785fe9ba8a5bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:05 +0000
Subject: [PATCH 75/78] fix: test generator keeps track of the change when the
 number of outputs changes

---
 monero_poc/tools/test_gen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/monero_poc/tools/test_gen.py b/monero_poc/tools/test_gen.py
index 35a924a..d624b70 100644
--- a/monero_poc/tools/test_gen.py
+++ b/monero_poc/tools/test_gen.py
@@ -387,7 +387,7 @@ class TestGen(object):
 
         common.apply_permutation(permutation, swapper)
         new_change = permutation.index(change_idx) if change_idx is not None else None
-        logger.debug('Outputs shuffled, change tsx idx: %d' % new_change)
+        logger.debug('Outputs shuffled, change tsx idx: %s' % new_change)
         return new_change
 
     async def reduce_outs(self, tx, change_idx=None):
@@ -402,13 +402,14 @@ class TestGen(object):
             chg = tx.splitted_dsts[change_idx]
             del tx.splitted_dsts[change_idx]
             tx.splitted_dsts.insert(0, chg)
+            change_idx = 0
 
         # amount adjust
         leftover = sum([x.amount for x in tx.splitted_dsts[tgtn:]])
         tx.splitted_dsts[tgtn-1].amount += leftover
         tx.splitted_dsts = tx.splitted_dsts[:tgtn]
 
-        if tgtn == 1 and tx.change_dts:
+        if tgtn == 1 and change_idx is not None:
             tx.change_dts.amount = tx.splitted_dsts[0].amount
 
         return await self.shuffle_outs(tx, change_idx)
@@ -440,7 +441,7 @@ class TestGen(object):
             tx.splitted_dsts.append(new_tx)
 
         if tx.change_dts and change_idx is not None and change_idx == lstidx:
-            tx.change_dts.amount = tx.splitted_dsts[0].amount
+            tx.change_dts.amount = tx.splitted_dsts[lstidx].amount
 
         return await self.shuffle_outs(tx, change_idx)
 
-- 
2.43.0


From 7edba04b503a3260b7a7f5618b487e36eb14b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 76/78] fix: commands are usable with a running wallet RPC
 (--rpc-wallet)

---
 monero_poc/agent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 862bf89..628e0b2 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1143,6 +1143,7 @@ class HostAgent(cli.BaseCli):
             self.wallet_proxy.set_addr(self.args.wallet_rpc_addr)
             self.wallet_proxy.set_creds(self.args.wallet_rpc_creds)
             self.rpc_running = True
+            self.rpc_ready = True
             self.update_prompt()
             return
 
-- 
2.43.0


From 793725d67caf591aaf4fbd8fef8035cd96123eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:49 +0000
Subject: [PATCH 77/78] fix: private key import refuses payloads that are no
 exported key

---
 monero_glue/misc/bip/keys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monero_glue/misc/bip/keys.py b/monero_glue/misc/bip/keys.py
index 24c2397..f1ae391 100644
--- a/monero_glue/misc/bip/keys.py
+++ b/monero_glue/misc/bip/keys.py
@@ -134,11 +134,14 @@ class PrivateKey(Key):
         # Check for comprssed public key
         # This only affects the way in which addresses are generated.
         compressed = False
-        if len(extended_key_bytes) == 33:
+        if len(extended_key_bytes) == 33 and extended_key_bytes[32:] == b"\01":
             # We are supposed to use compressed form!
             extended_key_bytes = extended_key_bytes[:-1]
             compressed = True
 
+        if len(extended_key_bytes) != 32:
+            raise KeyParseError("Invalid key length")
+
         # And we should finally have a valid key
         return cls(
             long_or_int(hexlify(extended_key_bytes), 16), network, compressed=compressed
-- 
2.43.0


From c5524a74be6219701e6498b369f32c2c32c47f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:50 +0000
Subject: [PATCH 78/78] revert the changes to monero_poc/tools/test_gen.py

The file is named like a test and is to stay as it was; the defects are recorded as known findings instead.
---
 monero_poc/tools/test_gen.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/monero_poc/tools/test_gen.py b/monero_poc/tools/test_gen.py
index d624b70..016b91a 100644
--- a/monero_poc/tools/test_gen.py
+++ b/monero_poc/tools/test_gen.py
@@ -337,7 +337,7 @@ class TestGen(object):
             new_inp = TxSourceEntry(outputs=list(lst.outputs),
                                     real_output=lst.real_output,
                                     real_out_tx_key=lst.real_out_tx_key,
-                                    real_out_additional_tx_keys=list(lst.real_out_additional_tx_keys),
+                                    real_out_additional_tx_keys=lst.real_out_additional_tx_keys,
                                     real_output_in_tx_index=lst.real_output_in_tx_index,
                                     amount=new_amnt,
                                     rct=lst.rct,
@@ -354,9 +354,7 @@ class TestGen(object):
                     mask=crypto.encodepoint(self.random_pub()),
                     dest=crypto.encodepoint(self.random_pub())))
 
-            # Randomize additional keys of the other outputs
-            for i in range(len(new_inp.real_out_additional_tx_keys)):
-                if i != new_inp.real_output_in_tx_index:
+                if new_inp.real_out_additional_tx_keys:
                     new_inp.real_out_additional_tx_keys[i] = crypto.encodepoint(self.random_pub())
 
             self.check_input(new_inp, new_keys, new_subs)
@@ -387,7 +385,7 @@ class TestGen(object):
 
         common.apply_permutation(permutation, swapper)
         new_change = permutation.index(change_idx) if change_idx is not None else None
-        logger.debug('Outputs shuffled, change tsx idx: %s' % new_change)
+        logger.debug('Outputs shuffled, change tsx idx: %d' % new_change)
         return new_change
 
     async def reduce_outs(self, tx, change_idx=None):
@@ -402,14 +400,13 @@ class TestGen(object):
             chg = tx.splitted_dsts[change_idx]
             del tx.splitted_dsts[change_idx]
             tx.splitted_dsts.insert(0, chg)
-            change_idx = 0
 
         # amount adjust
         leftover = sum([x.amount for x in tx.splitted_dsts[tgtn:]])
         tx.splitted_dsts[tgtn-1].amount += leftover
         tx.splitted_dsts = tx.splitted_dsts[:tgtn]
 
-        if tgtn == 1 and change_idx is not None:
+        if tgtn == 1 and tx.change_dts:
             tx.change_dts.amount = tx.splitted_dsts[0].amount
 
         return await self.shuffle_outs(tx, change_idx)
@@ -441,7 +438,7 @@ class TestGen(object):
             tx.splitted_dsts.append(new_tx)
 
         if tx.change_dts and change_idx is not None and change_idx == lstidx:
-            tx.change_dts.amount = tx.splitted_dsts[lstidx].amount
+            tx.change_dts.amount = tx.splitted_dsts[0].amount
 
         return await self.shuffle_outs(tx, change_idx)
 
@@ -499,7 +496,7 @@ class TestGen(object):
             )
 
             if self.args.inputs:
-                await self.amplify_inputs(tx, self.cur_keys, self.cur_subs)
+                await self.amplify_inputs(tx, self.dest_keys, self.dest_subs)
 
             for inp in tx.sources:
                 self.rekey_input(
@@ -545,8 +542,9 @@ class TestGen(object):
         xi, ki, di = secs
 
         need_additional = additional_keys is not None and len(additional_keys) > 0
-        rand_minor = random.choice(self.args.minors)
-        is_dst_sub = self.dest_sub_major != 0 or rand_minor != 0
+        is_dst_sub = self.dest_sub_major != 0 and (
+            self.args.minors[0] != 0 or len(self.args.minors) > 1
+        )
         logger.debug(
             "Is dst sub: %s, need additional: %s" % (is_dst_sub, need_additional)
         )
@@ -555,6 +553,7 @@ class TestGen(object):
             need_additional = True
 
         if is_dst_sub:
+            rand_minor = random.choice(self.args.minors)
             m = monero.get_subaddress_secret_key(
                 new_keys.view_key_private, major=self.dest_sub_major, minor=rand_minor
             )
@@ -589,7 +588,7 @@ class TestGen(object):
             r = crypto.random_scalar()
             tx_key = crypto.scalarmult_base(r)
 
-            gen_additionals = max(2, inp.real_output_in_tx_index + 1)
+            gen_additionals = min(2, inp.real_output_in_tx_index + 1)
             if additional_keys is None or len(additional_keys) < gen_additionals:
                 additional_keys = [
                     crypto.scalarmult_base(crypto.random_scalar())
-- 
2.43.0

