From 52db8ba00cb548d758a970e48bf87b7539d1aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 01/58] fix: chunk() no longer yields a trailing empty piece

---
 monero_glue/xmr/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/common.py b/monero_glue/xmr/common.py
index 25ae2c0..29ec46d 100644
--- a/monero_glue/xmr/common.py
+++ b/monero_glue/xmr/common.py
@@ -194,10 +194,10 @@ def chunk(arr, size=1):
     idx = 0
     while True:
         c = arr[idx : idx + size]
+        if len(c) == 0:
+            break
         res.append(c)
         idx += size
-        if len(c) != size:
-            break
     return res
 
 
-- 
2.43.0


From 5a6a3c0c0f397cb69427fd04d3431c41b2455c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 02/58] fix: in-place operations of the native backend accept a
 missing destination

---
 monero_glue/xmr/core/ec_trezor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 734c22e..547a7b4 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -169,6 +169,7 @@ def decodepoint(x, offset=0):
 
 
 def decodepoint_into(r, x, offset=0):
+    r = r if r else new_point()
     tcry.ge25519_unpack_vartime(r, tcry.KEY_BUFF(*_offset(x, offset)[:32]))
     return r
 
@@ -192,6 +193,7 @@ def decodeint_noreduce(x, offset=0):
 
 
 def decodeint_into(r, x, offset=0):
+    r = r if r else new_scalar()
     bb = _offset(x, offset)[:32]
     tcry.expand256_modm(r, tcry.KEY_BUFF(*bb), 32)
     return r
@@ -277,6 +279,7 @@ def sc_0_into(r):
     Sets 0 to the scalar value Zmod(m)
     :return:
     """
+    r = r if r else new_scalar()
     tcry.init256_modm(r, 0)
     return r
 
@@ -691,6 +694,7 @@ def hash_to_scalar_into(r, data, length=None):
     :param length:
     :return:
     """
+    r = r if r else new_scalar()
     dt = data[:length] if length else data
     tcry.xmr_hash_to_scalar(r, bytes(dt))
     return r
@@ -717,6 +721,7 @@ def hash_to_point_into(r, buf):
     :param key:
     :return:
     """
+    r = r if r else new_point()
     bf = tcry.KEY_BUFF.from_buffer_copy(buf)
     tcry.xmr_hash_to_ec(r, bf)
     return r
@@ -760,6 +765,7 @@ def add_keys2_into(r, a, b, B):
     :param B:
     :return:
     """
+    r = r if r else new_point()
     tcry.xmr_add_keys2_vartime(r, a, b, B)
     return r
 
@@ -786,6 +792,7 @@ def add_keys3_into(r, a, A, b, B):
     :param B:
     :return:
     """
+    r = r if r else new_point()
     tcry.xmr_add_keys3_vartime(r, a, A, b, B)
     return r
 
-- 
2.43.0


From f6cd8edd6f8d33a3675525d5f69558ecad88b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 03/58] fix: hash size argument of the native backend behaves
 as in the Python one

---
 monero_glue/xmr/core/ec_trezor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 547a7b4..f796fd9 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -89,12 +89,12 @@ def get_keccak(*args, **kwargs):
     return k
 
 
-def keccak_hash(inp):
+def keccak_hash(inp, size=None):
     """
     Hashesh input in one call
     :return:
     """
-    return tcry.xmr_fast_hash_r(bytes(inp))
+    return tcry.xmr_fast_hash_r(bytes(inp if size is None else inp[:size]))
 
 
 def keccak_hash_into(r, inp, size=None):
@@ -103,7 +103,7 @@ def keccak_hash_into(r, inp, size=None):
     :return:point_add
     """
     bf = tcry.KEY_BUFF.from_buffer(r)
-    tcry.cl().xmr_fast_hash(bf, bytes(inp), size if size else len(inp))
+    tcry.cl().xmr_fast_hash(bf, bytes(inp), len(inp) if size is None else size)
     return r
 
 
-- 
2.43.0


From eec23a18a2121172dcc6048b8b88d836f4c0c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 04/58] fix: both backends use the same default PBKDF2 function

---
 monero_glue/xmr/core/ec_trezor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index f796fd9..6191a58 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -3,6 +3,7 @@
 # Author: Dusan Klinec, ph4r05, 2018
 
 import ctypes as ct
+import hashlib
 import hmac
 
 from Crypto.Protocol.KDF import PBKDF2
@@ -139,7 +140,7 @@ def compute_hmac(key, msg=None):
 
 def pbkdf2(inp, salt, length=32, count=1000, prf=None):
     """
-    PBKDF2 with default PRF as HMAC-KECCAK-256
+    PBKDF2 with default PRF as HMAC-SHA256
     :param inp:
     :param salt:
     :param length:
@@ -149,7 +150,7 @@ def pbkdf2(inp, salt, length=32, count=1000, prf=None):
     """
 
     if prf is None:
-        prf = lambda p, s: hmac.new(p, msg=s, digestmod=get_keccak).digest()
+        prf = lambda p, s: hmac.new(p, msg=s, digestmod=hashlib.sha256).digest()
     return PBKDF2(inp, salt, length, count, prf)
 
 
-- 
2.43.0


From f2f4192db6d6efbce5f07fa4547a3b2331066a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 05/58] fix: recompute_sub recognises subaddresses with one
 zero index component

---
 monero_glue/xmr/sub/addr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index 892d970..01231ac 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -49,7 +49,7 @@ class AddrInfo(object):
     def recompute_sub(self, spend_key, view_key, major=0, minor=0):
         self.spend_key = spend_key
         self.view_key = view_key
-        self.is_sub_address = major != 0 and minor != 0
+        self.is_sub_address = major != 0 or minor != 0
         self.recompute_addr()
 
 
-- 
2.43.0


From f52cee705272bd7a29d1d935f00be85aabdc5016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 06/58] fix: build_address_info gives the primary address for
 index (0, 0)

---
 monero_glue/xmr/monero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/monero.py b/monero_glue/xmr/monero.py
index 44467c7..b01ab57 100644
--- a/monero_glue/xmr/monero.py
+++ b/monero_glue/xmr/monero.py
@@ -500,6 +500,6 @@ def build_address_info(creds, subidx=None, payment_id=None, net_type=NetworkType
     ai.payment_id = payment_id
     ai.net_type = net_type
     ai.is_integrated = payment_id is not None
-    ai.is_sub_address = subidx is not None
+    ai.is_sub_address = subidx is not None and tuple(subidx) != (0, 0)
     ai.recompute_addr()
     return ai
-- 
2.43.0


From a73e0ecc012bd5bece77c7b576909859519c6e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 07/58] fix: base58 decoding refuses block values of 2^64

---
 monero_glue/misc/b58_mnr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/b58_mnr.py b/monero_glue/misc/b58_mnr.py
index 274086e..6a60b82 100644
--- a/monero_glue/misc/b58_mnr.py
+++ b/monero_glue/misc/b58_mnr.py
@@ -171,7 +171,7 @@ def decode_block(data, buf, index):
             return "Invalid symbol"
 
         product = order * digit + res_num
-        if product > __UINT64MAX:
+        if product >= __UINT64MAX:
             return "Overflow"
 
         res_num = product
-- 
2.43.0


From 647ff9ad269e2c7653ad54634b6f77ed30428f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 08/58] fix: base58 coding of the empty byte string

---
 monero_glue/misc/b58_mnr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/monero_glue/misc/b58_mnr.py b/monero_glue/misc/b58_mnr.py
index 6a60b82..aa0923e 100644
--- a/monero_glue/misc/b58_mnr.py
+++ b/monero_glue/misc/b58_mnr.py
@@ -116,11 +116,11 @@ def b58encode(data_hex=None, data_bin=None):
     :param data_bin:
     :return:
     """
-    data = bytearray(data_bin) if data_bin else _hexToBin(data_hex)
+    data = bytearray(data_bin) if data_bin is not None else _hexToBin(data_hex)
     l_data = len(data)
 
     if l_data == 0:
-        return ""
+        return b""
 
     full_block_count = l_data // __fullBlockSize
     last_block_size = l_data % __fullBlockSize
@@ -195,11 +195,11 @@ def b58decode(data_hex=None, data_bin=None):
     :param data_bin:
     :return:
     """
-    enc = bytearray(data_bin) if data_bin else _strToBin(data_hex)
+    enc = bytearray(data_bin) if data_bin is not None else _strToBin(data_hex)
     l_enc = len(enc)
 
     if l_enc == 0:
-        return ""
+        return b""
 
     full_block_count = l_enc // __fullEncodedBlockSize
     last_block_size = l_enc % __fullEncodedBlockSize
-- 
2.43.0


From 3f4262796ca6cfe339f884d147e84992453dd5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 09/58] fix: native range proof can be returned decoded

---
 monero_glue/xmr/ring_ct.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index 2a42643..683844d 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -230,7 +230,6 @@ def prove_range(
         if not byte_enc:
             R = monero.inflate_rsig(R)
         if decode:
-            R = monero.inflate_rsig(R)
             R = monero.recode_rangesig(R, encode=False)
 
         return C, a, R
-- 
2.43.0


From a22d811692be489f1330fbc8165804f18672106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 10/58] fix: input permutation has to be a bijection on the
 declared inputs

---
 monero_glue/protocol/tsx_sign_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index d83f707..5111620 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -736,6 +736,9 @@ class TTransactionBuilder(object):
         Set permutation on the inputs - sorted by key image on host.
         """
         self.state.input_permutation()
+        if len(permutation) != self.num_inputs():
+            raise ValueError("Invalid permutation size")
+        common.check_permutation(permutation)
         self.source_permutation = permutation
         self.inp_idx = -1
 
@@ -758,7 +761,7 @@ class TTransactionBuilder(object):
             self.STEP_VINI, self.inp_idx + 1, self.num_inputs()
         )
 
-        if self.inp_idx >= self.num_inputs():
+        if self.inp_idx + 1 >= self.num_inputs():
             raise ValueError("Too many inputs")
 
         self.state.input_vins()
-- 
2.43.0


From 16b6f46b2a2869f63459734e2e476592823b87d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 11/58] fix: device checks that pinned key images strictly
 descend

---
 monero_glue/protocol/tsx_sign_builder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 5111620..210f5e2 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -75,6 +75,7 @@ class TTransactionBuilder(object):
         self.subaddresses = {}
         self.tx = None
         self.source_permutation = []  # sorted by key images
+        self.last_ki = None  # last key image pinned, for the sorting check
         self.tx_prefix_hasher = None
         self.tx_prefix_hash = None
         self.full_message_hasher = None
@@ -774,6 +775,12 @@ class TTransactionBuilder(object):
         if not common.ct_equal(hmac_vini, hmac):
             raise ValueError("HMAC is not correct")
 
+        # Key image (last 32 B of TxinToKey) sorting check, strictly descending
+        k_image = bytes(vini_bin[-32:])
+        if self.inp_idx > 0 and self.last_ki <= k_image:
+            raise ValueError("Key image order invalid")
+        self.last_ki = k_image
+
         await self.tx_prefix_hasher.buffer(vini_bin)
         if not self.use_bulletproof:
             raise ValueError("HF <= 8 not supported")
-- 
2.43.0


From 3b4cffa5ce065b86ed9ce3e4de1cb0467d955907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 12/58] fix: range proof grouping has to cover the outputs
 exactly

---
 monero_glue/protocol/tsx_sign_builder.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 210f5e2..b798736 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -225,6 +225,17 @@ class TTransactionBuilder(object):
 
         return True
 
+    def check_grouping(self):
+        """
+        Range proof groups have to cover each output exactly once.
+        """
+        if not self.use_bulletproof:
+            return
+        if any(x <= 0 for x in self.rsig_grp):
+            raise ValueError("Invalid grouping batch")
+        if sum(self.rsig_grp) != self.output_count:
+            raise ValueError("Invalid grouping")
+
     def num_inputs(self):
         return self.input_count
 
@@ -436,6 +447,7 @@ class TTransactionBuilder(object):
         self.use_bulletproof = self.rsig_type > 0
         self.use_simple_rct = self.input_count > 1 or self.rsig_type != 0
         self.bp_version = tsx_data.rsig_data.bp_version or 1
+        self.check_grouping()
 
         # Additional keys w.r.t. subaddress destinations
         class_res = classify_subaddresses(tsx_data.outputs, self.change_address())
-- 
2.43.0


From ffc49163788b15787af1205016953c0e7ad4b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 13/58] fix: transaction is not closed before the last
 offloaded range proof is verified

---
 monero_glue/protocol/tsx_sign_builder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index b798736..71c9296 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -1444,6 +1444,14 @@ class TTransactionBuilder(object):
         if self.out_idx + 1 != self.num_dests():
             raise ValueError("Invalid out num")
 
+        # The last offloaded range proof has to be processed already
+        if (
+            self.rsig_offload
+            and self.is_det_mask()
+            and not self.is_processing_offloaded
+        ):
+            raise ValueError("Offloaded range proof missing")
+
         # Fee test
         if self.fee != (self.summary_inputs_money - self.summary_outs_money):
             raise ValueError(
-- 
2.43.0


From 9f179cffa4c4ce731f660eb39b31de880f439a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 14/58] fix: offloaded range proof is refused unless its batch
 is complete

---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 71c9296..f87dfac 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -976,6 +976,9 @@ class TTransactionBuilder(object):
                 not last_in_batch or self.is_processing_offloaded != is_offloaded_bp,
                 "Offloaded BP out of order",
             )
+            utils.ensure(
+                last_in_batch or not is_offloaded_bp, "Offloaded BP out of order"
+            )
             self.is_processing_offloaded = is_offloaded_bp
 
         if not self.is_processing_offloaded:
-- 
2.43.0


From 6988e5624f7d9949a1a7c5553f62dc60cc03117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 15/58] fix: change address among the outputs is always checked
 to be ours

---
 monero_glue/protocol/tsx_sign_builder.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index f87dfac..00617b6 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -206,16 +206,21 @@ class TTransactionBuilder(object):
             self._mem_trace("No change" if __debug__ else None)
             return
 
-        if change_idx is None and self.output_change.amount == 0 and len(outputs) == 2:
-            self._mem_trace("Sweep tsx" if __debug__ else None)
-            return  # sweep dummy tsx
-
         found = False
         for out in outputs:
             if addr_eq(out.addr, change_addr):
                 found = True
                 break
 
+        if (
+            not found
+            and change_idx is None
+            and self.output_change.amount == 0
+            and len(outputs) == 2
+        ):
+            self._mem_trace("Sweep tsx" if __debug__ else None)
+            return  # sweep dummy tsx
+
         if not found:
             raise misc.TrezorChangeAddressError("Change address not found in outputs")
 
-- 
2.43.0


From 8bdae96919b265c1533e63b8b8cda9cdc42e7050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:22 +0000
Subject: [PATCH 16/58] fix: host advances the range proof batch when
 offloading with the first client version

---
 monero_glue/agent/agent_lite.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index 24a2b39..fb5360b 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -602,6 +602,10 @@ class Agent(object):
         if offload_res:
             msg.rsig_data = offload_res
 
+            # batch state advance
+            self.ct.cur_batch_idx += 1
+            self.ct.cur_output_in_batch_idx = 0
+
         return msg
 
     async def _rct_offload(self, idx, dst):
-- 
2.43.0


From 0c8321666744f424733b04d0a21c2b34e86d64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 17/58] fix: inputs are closed only after each of them was
 pinned

---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 00617b6..a105602 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -812,6 +812,9 @@ class TTransactionBuilder(object):
         self.state.input_all_done()
         await self.trezor.iface.transaction_step(self.STEP_ALL_IN)
 
+        if self.inp_idx + 1 != self.num_inputs():
+            raise ValueError("Input count mismatch")
+
         from monero_glue.messages import MoneroTransactionAllInputsSetAck
         from monero_glue.messages import MoneroTransactionRsigData
 
-- 
2.43.0


From 6c8912e2e3669fd20a566ca099a257ef05688bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 18/58] fix: Keccak digest can be read repeatedly with the
 native backend, hexdigest works

---
 monero_glue/xmr/core/backend/keccak2.py | 3 ++-
 monero_glue/xmr/core/ec_trezor.py       | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/monero_glue/xmr/core/backend/keccak2.py b/monero_glue/xmr/core/backend/keccak2.py
index acddc0c..a9e7a8c 100644
--- a/monero_glue/xmr/core/backend/keccak2.py
+++ b/monero_glue/xmr/core/backend/keccak2.py
@@ -1,3 +1,4 @@
+import binascii
 import functools
 from copy import deepcopy
 from math import log
@@ -345,7 +346,7 @@ class KeccakHash(object):
         return res
 
     def hexdigest(self):
-        return self.digest().encode("hex")
+        return binascii.hexlify(bytes(self.digest())).decode("ascii")
 
     @staticmethod
     def preset(bitrate_bits, capacity_bits, output_bits):
diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 6191a58..34fc505 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 # Author: Dusan Klinec, ph4r05, 2018
 
+import binascii
 import ctypes as ct
 import hashlib
 import hmac
@@ -67,16 +68,16 @@ class KeccakWrapper(object):
         tcry.xmr_hasher_update(self.h, bytes(s))
 
     def digest(self, buff=None):
-        r = tcry.xmr_hasher_final_r(self.h)
+        # finalization destroys the context, the digest is taken of a copy
+        r = tcry.xmr_hasher_final_r(tcry.xmr_hasher_copy_r(self.h))
         if buff:
             for i in range(len(r)):
                 buff[i] = r[i]
             r = buff
-        self.h = None
         return r
 
     def hexdigest(self):
-        return self.digest().encode("hex")
+        return binascii.hexlify(self.digest()).decode("ascii")
 
 
 def get_keccak(*args, **kwargs):
-- 
2.43.0


From 28f9cbbd5a91f52e43413a837f2f8ff9c39d0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 19/58] fix: key image export hashes only 32-byte keys, so that
 the commitment names the outputs unambiguously

---
 monero_glue/xmr/key_image.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_glue/xmr/key_image.py b/monero_glue/xmr/key_image.py
index 9adf531..5226006 100644
--- a/monero_glue/xmr/key_image.py
+++ b/monero_glue/xmr/key_image.py
@@ -52,6 +52,10 @@ def compute_hash(rr):
     :type rr: TransferDetails
     :return:
     """
+    for key in (rr.out_key, rr.tx_pub_key, *(rr.additional_tx_pub_keys or [])):
+        if len(key) != 32:
+            raise ValueError("Invalid key length")
+
     kck = crypto.get_keccak()
     kck.update(rr.out_key)
     kck.update(rr.tx_pub_key)
-- 
2.43.0


From 4b1b55a23d57b3b958d47e52f29c2b1c9f24f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 20/58] fix: protobuf loading refuses input that ends in the
 middle of a field

---
 monero_glue/protobuf.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 88b59c8..f4b06c8 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -50,7 +50,13 @@ def load_uvarint(reader):
     shift = 0
     byte = 0x80
     while byte & 0x80:
-        if reader.readinto(buffer) == 0:
+        try:
+            nread = reader.readinto(buffer)
+        except EOFError:
+            nread = 0
+        if nread == 0:
+            if shift:
+                raise ValueError("Truncated varint")
             raise EOFError
         byte = buffer[0]
         result += (byte & 0x7F) << shift
@@ -237,6 +243,13 @@ class CountingWriter:
 FLAG_REPEATED = 1
 
 
+def _read_exact(reader, size):
+    buf = bytearray(size)
+    if size and reader.readinto(buf) != size:
+        raise EOFError
+    return buf
+
+
 async def load_message(reader, msg_type):
     fields = msg_type.get_fields()
     msg = msg_type()
@@ -257,7 +270,7 @@ async def load_message(reader, msg_type):
                 load_uvarint(reader)
             elif wtype == 2:
                 ivalue = load_uvarint(reader)
-                reader.readinto(bytearray(ivalue))
+                _read_exact(reader, ivalue)
             else:
                 raise ValueError
             continue
@@ -275,15 +288,14 @@ async def load_message(reader, msg_type):
         elif ftype is BoolType:
             fvalue = bool(ivalue)
         elif ftype is BytesType:
-            buf = bytearray(ivalue)
-            reader.readinto(buf)
-            fvalue = bytes(buf)
+            fvalue = bytes(_read_exact(reader, ivalue))
         elif ftype is UnicodeType:
-            buf = bytearray(ivalue)
-            reader.readinto(buf)
-            fvalue = buf.decode()
+            fvalue = _read_exact(reader, ivalue).decode()
         elif issubclass(ftype, MessageType):
-            fvalue = await load_message(LimitedReader(reader, ivalue), ftype)
+            sub_reader = LimitedReader(reader, ivalue)
+            fvalue = await load_message(sub_reader, ftype)
+            if sub_reader.limit != 0:
+                raise EOFError  # embedded message is incomplete
         else:
             raise TypeError  # field type is unknown
 
-- 
2.43.0


From 571cc70b33481624208b5eee6df175faf7345e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 21/58] fix: enumeration fields of messages (Failure and
 others) can be serialized

---
 monero_glue/protobuf.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index f4b06c8..0be8bfd 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -123,6 +123,14 @@ class BoolType:
     WIRE_TYPE = 0
 
 
+class EnumType:
+    WIRE_TYPE = 0
+
+    def __init__(self, enum_name, enum_values):
+        self.enum_name = enum_name
+        self.enum_values = enum_values
+
+
 class BytesType:
     WIRE_TYPE = 2
 
@@ -281,7 +289,7 @@ async def load_message(reader, msg_type):
 
         ivalue = load_uvarint(reader)
 
-        if ftype is UVarintType:
+        if ftype is UVarintType or isinstance(ftype, EnumType):
             fvalue = ivalue
         elif ftype is SVarintType:
             fvalue = uint_to_sint(ivalue)
@@ -329,7 +337,7 @@ async def dump_message(writer, msg):
         for svalue in fvalue:
             dump_uvarint(writer, fkey)
 
-            if ftype is UVarintType:
+            if ftype is UVarintType or isinstance(ftype, EnumType):
                 dump_uvarint(writer, svalue)
 
             elif ftype is SVarintType:
@@ -421,6 +429,9 @@ def format_message(
 
 
 def value_to_proto(ftype, value):
+    if isinstance(ftype, EnumType):
+        return int(value)
+
     if issubclass(ftype, MessageType):
         raise TypeError("value_to_proto only converts simple values")
 
@@ -453,7 +464,7 @@ def dict_to_proto(message_type, d):
         if not repeated:
             value = [value]
 
-        if issubclass(ftype, MessageType):
+        if not isinstance(ftype, EnumType) and issubclass(ftype, MessageType):
             function = dict_to_proto
         else:
             function = value_to_proto
-- 
2.43.0


From 0a4a6001a52c83253a6f1163a6fedc76eee868ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 22/58] fix: ByteSize of a message counts its bytes

---
 monero_glue/protobuf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 0be8bfd..e3728f3 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -38,7 +38,6 @@ required:
 '''
 
 import binascii
-from io import BytesIO
 from typing import Any, Optional
 
 _UVARINT_BUFFER = bytearray(1)
@@ -219,9 +218,12 @@ class MessageType:
         self.__dict__ = obj.__dict__.copy()
 
     def ByteSize(self):
-        data = BytesIO()
-        dump_message(data, self)
-        return len(data.getvalue())
+        counter = CountingWriter()
+        try:
+            dump_message(counter, self).send(None)
+        except StopIteration:
+            pass
+        return counter.size
 
 
 class LimitedReader:
-- 
2.43.0


From f04b2de2c97faee97702b688783ae1d440adad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 23/58] fix: aescbc.encrypt encrypts in CBC mode (it always
 failed)

---
 monero_glue/xmr/enc/aescbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/enc/aescbc.py b/monero_glue/xmr/enc/aescbc.py
index f9dd6a4..925216b 100644
--- a/monero_glue/xmr/enc/aescbc.py
+++ b/monero_glue/xmr/enc/aescbc.py
@@ -14,7 +14,7 @@ def encrypt(key, plaintext, iv=None):
     :return: ciphertext
     """
 
-    cipher = AES.new(key, AES.MODE_ECB, iv=iv)
+    cipher = AES.new(key, AES.MODE_CBC, iv=iv)
     return cipher.encrypt(plaintext)
 
 
-- 
2.43.0


From 6fc95b43a35076739b134f2e2f0f8d0a247ee1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 24/58] fix: packed ciphertexts with associated data can be
 decrypted

---
 monero_glue/xmr/enc/chacha_poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/enc/chacha_poly.py b/monero_glue/xmr/enc/chacha_poly.py
index e7291f2..4acbb8a 100644
--- a/monero_glue/xmr/enc/chacha_poly.py
+++ b/monero_glue/xmr/enc/chacha_poly.py
@@ -45,5 +45,5 @@ def encrypt_pack(key, plaintext, associated_data=None):
     return b"".join(encrypt(key, plaintext, associated_data))
 
 
-def decrypt_pack(key, ciphertext):
-    return decrypt(key, ciphertext[:12], ciphertext[12:], None)
+def decrypt_pack(key, ciphertext, associated_data=None):
+    return decrypt(key, ciphertext[:12], ciphertext[12:], associated_data)
-- 
2.43.0


From ef60d7510ce8a234a2ee938c7eb704c545039654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 25/58] fix: decrypt_xmr refuses signatures with scalars that
 are not reduced

---
 monero_glue/xmr/enc/chacha.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_glue/xmr/enc/chacha.py b/monero_glue/xmr/enc/chacha.py
index 092d23f..5a8b7d2 100644
--- a/monero_glue/xmr/enc/chacha.py
+++ b/monero_glue/xmr/enc/chacha.py
@@ -51,6 +51,8 @@ def decrypt_xmr(priv_key, ciphertext, authenticated=True):
         pub = crypto.scalarmult_base(priv_key)
         c = crypto.decodeint(signature[:32])
         r = crypto.decodeint(signature[32:])
+        if crypto.encodeint(c) + crypto.encodeint(r) != signature:
+            raise ValueError("Signature invalid")  # scalars not reduced
         res = crypto.check_signature(hash, c, r, pub)
         if not res:
             raise ValueError("Signature invalid")
-- 
2.43.0


From 81005d6d25d920b9b5ad799eb2ba2e60a1186d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 26/58] fix: seed word decoding verifies the checksum word and
 refuses incomplete or impossible words

---
 monero_glue/xmr/core/mnemonic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/core/mnemonic.py b/monero_glue/xmr/core/mnemonic.py
index a3db4b4..1ad3ed7 100644
--- a/monero_glue/xmr/core/mnemonic.py
+++ b/monero_glue/xmr/core/mnemonic.py
@@ -1681,12 +1681,14 @@ def mn_encode(message, checksum=False):
 def mn_decode(wlist):
     out = ""
     n = len(words)
-    has_checksum = (n % 3) == 1
+    has_checksum = (len(wlist) % 3) == 1
 
     if has_checksum:
         if not checksum_test(wlist):
             raise ValueError("Electrum checksum incorrect")
         wlist = wlist[:-1]
+    elif len(wlist) % 3:
+        raise ValueError("Invalid number of words")
 
     for i in range(len(wlist) // 3):  # note 24 / 3 = 8... 12 / 3 = 4..
         word1, word2, word3 = wlist[3 * i : 3 * i + 3]
@@ -1694,6 +1696,8 @@ def mn_decode(wlist):
         w2 = words.index(word2)
         w3 = words.index(word3)
         x = w1 + n * ((n + w2 - w1) % n) + n * n * ((n + w3 - w2) % n)  # as an int
+        if x >> 32:
+            raise ValueError("Invalid words")
         b = "%08x" % x  # this is big endian!
         out += mn_swap_endian_4byte(b)
 
@@ -1711,8 +1715,9 @@ def checksum_create(wlist, unique_prefix_len=UNIQUE_PREFIX_LEN):
 
 
 def checksum_test(wlist, unique_prefix_len=UNIQUE_PREFIX_LEN):
-    words = wlist
-    last_word = words.pop()
+    if len(wlist) < 2:
+        return False
+    words, last_word = wlist[:-1], wlist[-1]
     checksum = words[checksum_create(words, unique_prefix_len)]
     trimmed_checksum = (
         checksum[:unique_prefix_len] if len(checksum) > unique_prefix_len else checksum
-- 
2.43.0


From d820277fae4522383bf76ea3c4768ec14badaa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 27/58] fix: a phrase given as one string is split into words

---
 monero_glue/xmr/sub/seed.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/monero_glue/xmr/sub/seed.py b/monero_glue/xmr/sub/seed.py
index 7e02123..9c30dc9 100644
--- a/monero_glue/xmr/sub/seed.py
+++ b/monero_glue/xmr/sub/seed.py
@@ -84,14 +84,12 @@ class SeedDerivation(object):
     def clean_input(inp):
         cleaned = []
         if isinstance(inp, (str, bytes)):
-            cleaned = [inp]
+            inp = [inp]
 
-        else:
-            for w in inp:
-                cleaned += w.split(" ")
+        for w in inp:
+            cleaned += w.split()
 
-        cleaned = [x.strip().lower() for x in cleaned]
-        return cleaned
+        return [x.lower() for x in cleaned]
 
     @classmethod
     def from_mnemonics(cls, mnemonics, as_index=False, passphrase=b"", *args, **kwargs):
-- 
2.43.0


From 6cfdf6ed510acfe4f3fa497f205e81330fea2be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 28/58] fix: short lengths of the compact protocol are read as
 written

---
 monero_glue/protocol_lite/lite.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/monero_glue/protocol_lite/lite.py b/monero_glue/protocol_lite/lite.py
index 6a8aeda..4b9e44e 100644
--- a/monero_glue/protocol_lite/lite.py
+++ b/monero_glue/protocol_lite/lite.py
@@ -176,12 +176,12 @@ class LiteProtocol(object):
         l = self._fetch_u8()
         if l & 0x80 != 0:
             l &= 0x7F
-        if l == 1:
-            l = self._fetch_u8()
-        elif l == 2:
-            l = self._fetch_u16()
-        else:
-            l = -1
+            if l == 1:
+                l = self._fetch_u8()
+            elif l == 2:
+                l = self._fetch_u16()
+            else:
+                l = -1
         return l
 
     def _insert(self, buff, ln=None):
-- 
2.43.0


From 280eec8f9e997f044f58da0ab24b19f733e97fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 29/58] fix: subaddress indices of the compact protocol can be
 parsed

---
 monero_glue/protocol_lite/lite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/protocol_lite/lite.py b/monero_glue/protocol_lite/lite.py
index 4b9e44e..db64da2 100644
--- a/monero_glue/protocol_lite/lite.py
+++ b/monero_glue/protocol_lite/lite.py
@@ -405,7 +405,7 @@ class LiteProtocol(object):
         return SW_OK
 
     def _idx_parse(self, index):
-        major = ustruct.unpack("<L", index)[0]
+        major = ustruct.unpack_from("<L", index, 0)[0]
         minor = ustruct.unpack_from("<L", index, 4)[0]
         return major, minor
 
-- 
2.43.0


From 90db8562e5447c4fe26fc4b1412bb9a98dea1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 30/58] fix: the stealth command of the compact protocol works
 on bytes

---
 monero_glue/protocol_lite/lite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protocol_lite/lite.py b/monero_glue/protocol_lite/lite.py
index db64da2..f9e777f 100644
--- a/monero_glue/protocol_lite/lite.py
+++ b/monero_glue/protocol_lite/lite.py
@@ -619,8 +619,9 @@ class LiteProtocol(object):
         pay_id = self._fetch(8)
 
         drv = crypto.generate_key_derivation(pub, sec)
-        drv += b"\x8d"
+        drv = crypto.encodepoint(drv) + b"\x8d"
         sec = crypto.keccak_hash(drv)
+        pay_id = bytearray(pay_id)
         for i in range(8):
             pay_id[i] ^= sec[i]
 
-- 
2.43.0


From 7cf472b80516cbd1a17daba60a56fadf925ed948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 31/58] fix: verify_key compares the computed public key with
 the account keys

---
 monero_glue/protocol_lite/lite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/protocol_lite/lite.py b/monero_glue/protocol_lite/lite.py
index f9e777f..fcec08a 100644
--- a/monero_glue/protocol_lite/lite.py
+++ b/monero_glue/protocol_lite/lite.py
@@ -294,11 +294,11 @@ class LiteProtocol(object):
     async def verify_key(self):
         priv = self._fetch_decrypt_key()
         pub = crypto.decodepoint(self._fetch())
-        computed_pub = crypto.identity()
+        computed_pub = crypto.scalarmult_base(priv)
         verified = 0
 
         if self.c_p1 == 0:
-            computed_pub = crypto.scalarmult_base(priv)
+            pass
         elif self.c_p1 == 1:
             pub = self.A
         elif self.c_p1 == 2:
-- 
2.43.0


From 437347141ae5e37ef764521c6628b9a1d208a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 32/58] fix: put_key of the compact protocol replaces the whole
 key set or nothing

---
 monero_glue/protocol_lite/lite.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monero_glue/protocol_lite/lite.py b/monero_glue/protocol_lite/lite.py
index fcec08a..7982762 100644
--- a/monero_glue/protocol_lite/lite.py
+++ b/monero_glue/protocol_lite/lite.py
@@ -268,13 +268,14 @@ class LiteProtocol(object):
         pub = crypto.decodepoint(self._fetch(32))
         if not crypto.point_eq(pub, crypto.scalarmult_base(sec)):
             return SW_WRONG_DATA
-        self.a = sec
+        a, A = sec, pub
 
         sec = crypto.decodeint(self._fetch(32))
         pub = crypto.decodepoint(self._fetch(32))
         if not crypto.point_eq(pub, crypto.scalarmult_base(sec)):
             return SW_WRONG_DATA
-        self.b = sec
+        self.a, self.A = a, A
+        self.b, self.B = sec, pub
         return SW_OK
 
     async def get_key(self):
-- 
2.43.0


From f918c75e64d00090084c117dda1dc1a854b5acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 33/58] fix: wallet key files whose key data contains quotes
 are read completely

---
 monero_glue/xmr/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index f27dc15..c5c5353 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -108,7 +108,7 @@ async def load_keys_data(data, password):
     buff = bytes(msg.iv + msg.account_data)
     dec = chacha.decrypt(key, buff)
 
-    m = re.search(b'(.*)"key_data":"(.+?)",(.*)', dec)
+    m = re.search(rb'(.*)"key_data":"((?:[^"\\]|\\.)+)",(.*)', dec, re.DOTALL)
     key_data = m.group(2)
 
     dat = xmrjson.unescape_json_str(key_data)
-- 
2.43.0


From 65de652ad252ac441cb09f01cf68606bbbf8583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 34/58] fix: storing a wallet key file leaves the wallet data
 alone

---
 monero_glue/xmr/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index c5c5353..b311334 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -148,7 +148,7 @@ async def gen_keys_file(password, wkeyfile):
     :return:
     """
     key_data = wkeyfile.key_data  # type: WalletKeyData
-    js = wkeyfile.to_json()
+    js = dict(wkeyfile.to_json())
     del js["key_data"]
 
     # encode wallet key file wth classical json encoder, key data added later with monero encoding.
-- 
2.43.0


From f5a63c45a0049982fc34fdb508228f856a1ac420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 35/58] fix: wallet key files keep the whole creation timestamp

---
 monero_glue/xmr/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index b311334..3e87d8c 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -157,6 +157,9 @@ async def gen_keys_file(password, wkeyfile):
     # key_data KV serialization. Message -> Model.
     modeler = xmrrpc.Modeler(writing=True, modelize=True)
     mdl = await modeler.message(msg=key_data)
+    mdl["m_creation_timestamp"] = xmrrpc.IntegerModel(
+        key_data.m_creation_timestamp, xmrrpc.SerializeType.UINT64
+    )  # modeler would store the lowest byte only
 
     # Model -> binary
     writer = xmrserialize.MemoryReaderWriter()
-- 
2.43.0


From 4c3f228078675671ed1b99667cdd3fa9d5c5e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 36/58] fix: exported outputs with data behind the last output
 are refused

---
 monero_glue/xmr/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 3e87d8c..484965c 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -327,6 +327,9 @@ async def load_exported_outputs(priv_key, data):
         if exps_root[0] != 0:
             raise ValueError('Offset has to be 0')
 
+    if not reader.is_empty():
+        raise ValueError("Unexpected data after exported outputs")
+
     return OutputsDump(
         m_spend_public_key=spend_pub, m_view_public_key=view_pub, tds=exps
     )
-- 
2.43.0


From c1765503e92d2c685d0b63a94cb3fb12847facce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:37 +0000
Subject: [PATCH 37/58] fix: signed transaction sets are written in versions
 that can be read back

---
 monero_glue/xmr/wallet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 484965c..b52ad3d 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -233,16 +233,17 @@ async def dump_unsigned_tx(priv_key, unsigned_tx, hf=9):
     return UNSIGNED_TX_PREFIX + ciphertext
 
 
-async def dump_signed_tx(priv_key, signed_tx):
+async def dump_signed_tx(priv_key, signed_tx, hf=10):
     """
     Dumps signed_tx to a file as wallet produces
 
     :param priv_key:
     :param signed_tx:
+    :param hf:
     :return:
     """
     writer = xmrserialize.MemoryReaderWriter()
-    ar = xmrboost.Archive(writer, True)
+    ar = xmrboost.Archive(writer, True, xmrtypes.hf_versions(hf))
     try:
         await ar.root()
         await ar.message(signed_tx)
-- 
2.43.0


From 651d9af56819591c14577fd9e6380814990b5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 38/58] fix: the cache of derived keys distinguishes keyword
 argument values

---
 monero_glue/misc/bip/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/bip/utils.py b/monero_glue/misc/bip/utils.py
index b561a7c..5b0317c 100644
--- a/monero_glue/misc/bip/utils.py
+++ b/monero_glue/misc/bip/utils.py
@@ -62,7 +62,7 @@ def memoize(f):
     def _c(*args, **kwargs):
         if not hasattr(f, "cache"):
             f.cache = dict()
-        key = (args, tuple(kwargs))
+        key = (args, tuple(sorted(kwargs.items())))
         if key not in f.cache:
             f.cache[key] = f(*args, **kwargs)
         return f.cache[key]
-- 
2.43.0


From 7fb13388376eb48688ddad4919f82bbd5bcddea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 39/58] fix: children can be derived from public nodes

---
 monero_glue/misc/bip/bip32.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monero_glue/misc/bip/bip32.py b/monero_glue/misc/bip/bip32.py
index b9dbd8e..1121bb3 100644
--- a/monero_glue/misc/bip/bip32.py
+++ b/monero_glue/misc/bip/bip32.py
@@ -445,8 +445,9 @@ class Wallet(object):
                 _ECDSA_Public_key(g, g * I_L_long).point + self.public_key.to_point()
             )
             # I_R is the child's chain code
-            private_key = PrivateKey(private_exponent)
-            public_key = PublicKey.from_public_pair(PublicPair(point.x(), point.y()))
+            public_key = PublicKey.from_public_pair(
+                PublicPair(point.x(), point.y()), network=self.network
+            )
 
         if public_key.to_point() == INFINITY:
             raise InfinityPointException("The point at infinity is invalid.")
-- 
2.43.0


From cd9b20ee3dfa11525fdc8f392515b44e200cd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 40/58] fix: derived private keys keep the network of the
 wallet

---
 monero_glue/misc/bip/bip32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/bip/bip32.py b/monero_glue/misc/bip/bip32.py
index 1121bb3..9545c48 100644
--- a/monero_glue/misc/bip/bip32.py
+++ b/monero_glue/misc/bip/bip32.py
@@ -434,7 +434,7 @@ class Wallet(object):
                 + long_or_int(self.private_key.get_key(), 16)
             ) % SECP256k1.order
             # I_R is the child's chain code
-            private_key = PrivateKey(private_exponent)
+            private_key = PrivateKey(private_exponent, network=self.network)
             public_key = private_key.get_public_key()
 
         elif not self.use_ed25519:
-- 
2.43.0


From ab632da4bdeea74bb7bc4f8a0d917d87772c6ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 41/58] fix: private keys can be exported in the compressed WIF
 form

---
 monero_glue/misc/bip/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/bip/keys.py b/monero_glue/misc/bip/keys.py
index b0c26e3..24c2397 100644
--- a/monero_glue/misc/bip/keys.py
+++ b/monero_glue/misc/bip/keys.py
@@ -91,7 +91,7 @@ class PrivateKey(Key):
         if compressed is None:
             compressed = self.compressed
         if compressed:
-            extended_key_bytes += "\01"
+            extended_key_bytes += b"\01"
         # And return the base58-encoded result with a checksum
         return ensure_str(base58.b58encode_check(extended_key_bytes))
 
-- 
2.43.0


From 42c48ce18ae9438db86abe9f694dafbf0cb36255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 42/58] fix: user entropy can be mixed into new wallets

---
 monero_glue/misc/bip/bip32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/misc/bip/bip32.py b/monero_glue/misc/bip/bip32.py
index 9545c48..94d80e0 100644
--- a/monero_glue/misc/bip/bip32.py
+++ b/monero_glue/misc/bip/bip32.py
@@ -788,7 +788,7 @@ class Wallet(object):
         seed = crypto.random_bytes(64)
         if user_entropy:
             user_entropy = str(user_entropy)  # allow for int/long
-            seed += user_entropy
+            seed += ensure_bytes(user_entropy)
         return cls.from_master_secret(seed, network=network)
 
 
-- 
2.43.0


From 7f2a91c7e0efcabf7969c5cd1fecbc08d34c99d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 43/58] fix: packing seed bytes into word indices keeps the
 last bits

---
 monero_glue/misc/bip/bip32.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_glue/misc/bip/bip32.py b/monero_glue/misc/bip/bip32.py
index 94d80e0..19a5d85 100644
--- a/monero_glue/misc/bip/bip32.py
+++ b/monero_glue/misc/bip/bip32.py
@@ -217,6 +217,8 @@ class Wallet(object):
                 carry = int(b) & (2 ** cleft_bl - 1)
                 carry_bits = cleft_bl
 
+        if carry_bits:
+            indices.append(carry << (bits - carry_bits))
         return indices
 
     @staticmethod
-- 
2.43.0


From 0dd4c9463803c85436991c97895bda88b25b38a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 44/58] fix: ed25519 nodes can be stripped of their private key

---
 monero_glue/misc/bip/bip32.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monero_glue/misc/bip/bip32.py b/monero_glue/misc/bip/bip32.py
index 19a5d85..89ff8dc 100644
--- a/monero_glue/misc/bip/bip32.py
+++ b/monero_glue/misc/bip/bip32.py
@@ -477,8 +477,10 @@ class Wallet(object):
             depth=self.depth,
             parent_fingerprint=self.parent_fingerprint,
             child_number=self.child_number,
-            public_pair=self.public_key.to_public_pair(),
+            public_key=self.public_key,
             network=self.network,
+            use_slip0010=self.use_slip0010,
+            use_ed25519=self.use_ed25519,
         )
 
     def crack_private_key(self, child_private_key):
-- 
2.43.0


From db63cd6978861c5e0d6f9e445921167fa65798af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 45/58] fix: the check for hexadecimal strings covers the whole
 string

---
 monero_glue/misc/bip/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/misc/bip/utils.py b/monero_glue/misc/bip/utils.py
index 5b0317c..42eddb4 100644
--- a/monero_glue/misc/bip/utils.py
+++ b/monero_glue/misc/bip/utils.py
@@ -40,8 +40,8 @@ def is_hex_string(string):
     """Check if the string is only composed of hex characters."""
     pattern = re.compile(r"[A-Fa-f0-9]+")
     if isinstance(string, six.binary_type):
-        string = str(string)
-    return pattern.match(string) is not None
+        string = string.decode("latin1")
+    return pattern.fullmatch(string) is not None
 
 
 def long_to_hex(l, size):
-- 
2.43.0


From 7607a13e0b2ca05ac2e2d9fe6634334e6e7d4b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 46/58] fix: a new point of the native backend is the neutral
 element

---
 monero_glue/xmr/core/ec_trezor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 34fc505..c2419ce 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -26,7 +26,7 @@ tcry.open_lib()
 
 
 def new_point():
-    return tcry.new_ge25519()
+    return tcry.ge25519_set_neutral_r()
 
 
 def new_scalar():
-- 
2.43.0


From 46f2b896bf308ecb6de82ee10e3c6db6441ed056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 47/58] fix: hashing into a buffer does not read beyond the
 input

---
 monero_glue/xmr/core/ec_trezor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index c2419ce..d68d3ef 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -105,7 +105,8 @@ def keccak_hash_into(r, inp, size=None):
     :return:point_add
     """
     bf = tcry.KEY_BUFF.from_buffer(r)
-    tcry.cl().xmr_fast_hash(bf, bytes(inp), len(inp) if size is None else size)
+    inp = bytes(inp if size is None else inp[:size])
+    tcry.cl().xmr_fast_hash(bf, inp, len(inp))
     return r
 
 
-- 
2.43.0


From 22a942417e4a3abe9e6947ed8b1425e454d9e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 48/58] fix: hash_to_point_into of the native backend hashes
 the whole input

---
 monero_glue/xmr/core/ec_trezor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index d68d3ef..b810201 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -712,7 +712,7 @@ def hash_to_point(buf):
     :param key:
     :return:
     """
-    return tcry.xmr_hash_to_ec_r(buf)
+    return tcry.xmr_hash_to_ec_r(bytes(buf))
 
 
 def hash_to_point_into(r, buf):
@@ -725,8 +725,7 @@ def hash_to_point_into(r, buf):
     :return:
     """
     r = r if r else new_point()
-    bf = tcry.KEY_BUFF.from_buffer_copy(buf)
-    tcry.xmr_hash_to_ec(r, bf)
+    tcry.xmr_hash_to_ec(r, bytes(buf))
     return r
 
 
-- 
2.43.0


From a7669037c0e3a8cd684cacadb949e23e915d27c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 49/58] fix: the native backend decodes 32 bytes from the
 offset and refuses less

---
 monero_glue/xmr/core/ec_trezor.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index b810201..b96c7ba 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -167,13 +167,20 @@ def _offset(x, offset=0):
     return memoryview(x)[offset:]
 
 
+def _key_buff(x, offset=0):
+    x = _offset(x, offset)[:32]
+    if len(x) != 32:
+        raise ValueError("32 bytes expected")
+    return tcry.KEY_BUFF(*x)
+
+
 def decodepoint(x, offset=0):
-    return tcry.ge25519_unpack_vartime_r(tcry.KEY_BUFF(*_offset(x, offset)[:32]))
+    return tcry.ge25519_unpack_vartime_r(_key_buff(x, offset))
 
 
 def decodepoint_into(r, x, offset=0):
     r = r if r else new_point()
-    tcry.ge25519_unpack_vartime(r, tcry.KEY_BUFF(*_offset(x, offset)[:32]))
+    tcry.ge25519_unpack_vartime(r, _key_buff(x, offset))
     return r
 
 
@@ -188,23 +195,22 @@ def encodepoint_into(b, pt, offset=0):
 
 
 def decodeint(x, offset=0):
-    return tcry.expand256_modm_r(tcry.KEY_BUFF(*_offset(x, offset)))
+    return tcry.expand256_modm_r(_key_buff(x, offset))
 
 
 def decodeint_noreduce(x, offset=0):
-    return tcry.expand_raw256_modm_r(tcry.KEY_BUFF(*_offset(x, offset)))
+    return tcry.expand_raw256_modm_r(_key_buff(x, offset))
 
 
 def decodeint_into(r, x, offset=0):
     r = r if r else new_scalar()
-    bb = _offset(x, offset)[:32]
-    tcry.expand256_modm(r, tcry.KEY_BUFF(*bb), 32)
+    tcry.expand256_modm(r, _key_buff(x, offset), 32)
     return r
 
 
 def decodeint_into_noreduce(r, x, offset=0):
     r = r if r else new_scalar()
-    tcry.expand_raw256_modm(r, tcry.KEY_BUFF(*_offset(x, offset)))
+    tcry.expand_raw256_modm(r, _key_buff(x, offset))
     return r
 
 
-- 
2.43.0


From 6bf42c7461bae41a2979091a4380395cd6ad0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 50/58] fix: 64 bit conversions of the Python backend refuse
 what does not fit

---
 monero_glue/xmr/core/ec_py.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/core/ec_py.py b/monero_glue/xmr/core/ec_py.py
index d9afc0a..cad789f 100644
--- a/monero_glue/xmr/core/ec_py.py
+++ b/monero_glue/xmr/core/ec_py.py
@@ -448,14 +448,14 @@ def sc_0_into(r):
 
 
 def sc_init(x):
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return EdScalar(x)
 
 
 def sc_init_into(r, x):
     r = r if r else new_scalar()
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return r.init(x)
 
@@ -466,6 +466,8 @@ def sc_copy(r, x):
 
 
 def sc_get64(x):
+    if x.v >= (1 << 64):
+        raise ValueError("Value does not fit 64 bits")
     return x.v
 
 
@@ -938,7 +940,7 @@ def xmr_H():
 
 
 def scalarmult_h(i):
-    return XMR_H_PT * EdScalar.ensure_scalar(i)
+    return XMR_H_PT * (sc_init(i) if isinstance(i, int) else i)
 
 
 def add_keys2(a, b, B):
-- 
2.43.0


From f430a80eff8bae7bed7427b0bdda154c94b56dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 51/58] fix: the native backend refuses amounts and indices it
 would truncate

---
 monero_glue/xmr/core/ec_trezor.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index b96c7ba..afff7b3 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -298,7 +298,7 @@ def sc_init(x):
     Sets x to the scalar value Zmod(m)
     :return:
     """
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return tcry.init256_modm_r(x)
 
@@ -315,7 +315,7 @@ def sc_init_into(r, x):
     :return:
     """
     r = r if r else new_scalar()
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     tcry.init256_modm(r, x)
     return r
@@ -814,6 +814,8 @@ def gen_c(a, amount):
     :param amount:
     :return:
     """
+    if amount < 0 or amount >= (1 << 64):
+        raise ValueError("Amount does not fit 64 bits")
     return tcry.xmr_gen_c_r(a, amount)
 
 
@@ -834,6 +836,11 @@ def generate_key_derivation(key1, key2):
     return tcry.xmr_generate_key_derivation_r(key1, key2)
 
 
+def _check_u32(x):
+    if x < 0 or x >= (1 << 32):
+        raise ValueError("Index does not fit 32 bits")
+
+
 def derivation_to_scalar(derivation, output_index):
     """
     H_s(derivation || varint(output_index))
@@ -842,6 +849,7 @@ def derivation_to_scalar(derivation, output_index):
     :return:
     """
     check_ed25519point(derivation)
+    _check_u32(output_index)
     return tcry.xmr_derivation_to_scalar_r(derivation, output_index)
 
 
@@ -857,6 +865,7 @@ def derive_public_key(derivation, output_index, base):
     if ge_frombytes_vartime_check(base) != 0:  # check some conditions on the point
         raise ValueError("derive pub key bad point")
     check_ed25519point(base)
+    _check_u32(output_index)
 
     return tcry.xmr_derive_public_key_r(derivation, output_index, base)
 
@@ -871,6 +880,7 @@ def derive_secret_key(derivation, output_index, base):
     """
     if sc_check(base) != 0:
         raise ValueError("cs_check in derive_secret_key")
+    _check_u32(output_index)
     return tcry.xmr_derive_private_key_r(derivation, output_index, base)
 
 
@@ -885,6 +895,8 @@ def get_subaddress_secret_key(secret_key, major=0, minor=0):
     :param minor:
     :return:
     """
+    _check_u32(major)
+    _check_u32(minor)
     return tcry.xmr_get_subaddress_secret_key_r(major, minor, secret_key)
 
 
-- 
2.43.0


From e55960205d9b9f3da8e7f069de615ea6c9f90186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 52/58] fix: extra of built transactions is the fields alone,
 without their count

---
 monero_glue/xmr/transaction_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 7a09df9..4b5e002 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -169,7 +169,8 @@ class TransactionBuilder(object):
     async def dump_extra_fields(self, extras):
         writer = xmrserialize.MemoryReaderWriter(preallocate=None)
         ar = xmrserialize.Archive(writer, True)
-        await ar.container(extras, container_type=TxExtraFields)
+        for extra in extras:
+            await ar.variant(extra, elem_type=TxExtraField)
         return writer.get_buffer()
 
     async def gen_input(self, value=1, sub_major=None, sub_minor=0, additionals=False):
-- 
2.43.0


From 319efa39b12eca4308694f1009119b4c0e92f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 53/58] fix: outputs of a built transaction can be shuffled

---
 monero_glue/xmr/transaction_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 4b5e002..54bb14c 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -334,11 +334,12 @@ class TransactionBuilder(object):
         return self
     
     async def shuffle_outputs(self):
-        tmparr = zip(self.outputs, self.outputs_extra, range(len(self.outputs)))
+        tmparr = list(zip(self.outputs, self.outputs_extra, range(len(self.outputs))))
         self.prng.shuffle(tmparr)
         self.outputs = [x[0] for x in tmparr]
         self.outputs_extra = [x[1] for x in tmparr]
-        self.change_idx = [i for i, x in enumerate(tmparr) if x[2] == self.change_idx][0]
+        if self.change_idx is not None:
+            self.change_idx = [i for i, x in enumerate(tmparr) if x[2] == self.change_idx][0]
 
     async def set_payment_id(self, payment_id):
         self.payment_id = payment_id
-- 
2.43.0


From d3d73b89d3ab8c72bcb605a3383de505faa9f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 54/58] fix: subaddress indices of a built transaction are the
 minor indices of its inputs

---
 monero_glue/xmr/transaction_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 54bb14c..1c512e3 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -400,7 +400,7 @@ class TransactionBuilder(object):
             rct_config=RCTConfig(range_proof_type=4, bp_version=2),
             dests=dests,
             subaddr_account=self.account_idx,
-            subaddr_indices=list(set(x.m_subaddr_index.major for x in self.transfers)),
+            subaddr_indices=list(set(x.m_subaddr_index.minor for x in self.transfers)),
         )
 
         sset.txes.append(tdata)
-- 
2.43.0


From 77b0df541e685c83e09b6261f3051c8e82f87fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 55/58] fix: a transaction set can be described without
 precomputed subaddresses

---
 monero_glue/xmr/transaction_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 1c512e3..9c77590 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -414,7 +414,7 @@ class TransactionBuilder(object):
         inp = unsigned_txs.txes[0].sources
         if key_subs is None:
             key_subs = {}
-            for tx in enumerate(unsigned_txs.txes):
+            for tx in unsigned_txs.txes:
                 monero.compute_subaddresses(keys, tx.subaddr_account, list(tx.subaddr_indices), key_subs)
 
         print("\nInp: %s, #txs: %s, #transfers: %s" % (inp, len(unsigned_txs.txes), len(unsigned_txs.transfers)))
-- 
2.43.0


From 5892c4e5984fc8c33e7b243fd6e2f316656314c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 56/58] fix: primary change address carries its keys

---
 monero_glue/xmr/transaction_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 9c77590..3eb8820 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -517,8 +517,8 @@ class TransactionBuilder(object):
             0,
         )
         return AccountPublicAddress(
-            view_public_key=crypto.encodepoint(C),
-            spend_public_key=crypto.encodepoint(D),
+            m_view_public_key=crypto.encodepoint(C),
+            m_spend_public_key=crypto.encodepoint(D),
         )
 
     async def find_change_idx(self, tx, change_idx=None):
-- 
2.43.0


From 176b33ed1b8c884809a85a333e96f267eeaa24b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:30 +0000
Subject: [PATCH 57/58] fix: the first range prover passes the raw power of y
 as a scalar

---
 monero_glue/xmr/bulletproof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 7add744..80dbf15 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -2112,7 +2112,7 @@ class BulletProofBuilder:
         r0 = KeyR0(MN, N, aR, y, z)
         ypow = KeyVPowers(MN, y, raw=True)
         r1 = KeyVEval(
-            MN, lambda i, d: _sc_mul(d, sR.to(i), None, ypow[i])  # noqa: F821
+            MN, lambda i, d: _sc_mul(d, sR.to(i), None, None, ypow[i])  # noqa: F821
         )
         del aR
         self.gc(14)
-- 
2.43.0


From 54d3ba23c8d440257a859bf9737b616d16e2e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 58/58] fix: the range proof client sends at most what is left
 of a vector

---
 monero_glue/xmr/bulletproof_cl.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/monero_glue/xmr/bulletproof_cl.py b/monero_glue/xmr/bulletproof_cl.py
index 01fdd02..09d4aa0 100644
--- a/monero_glue/xmr/bulletproof_cl.py
+++ b/monero_glue/xmr/bulletproof_cl.py
@@ -208,20 +208,23 @@ class BulletproofClient:
 
         y = rrcons[0] if rrcons and len(rrcons) > 0 else None
 
+        # A chunk covers at most the half of the vector that is being folded
+        cbatching = min(self.batching, self.MN // 2)
+
         # First while-loop iteration, dot-product computation, lC, lR, Lc, Lr, w, winv
         if self.off_method == 0:
             # round 0 - aLow, bHigh
             logger.debug('r0, cLcR aLow')
-            for i in range(self.MN // self.batching // 2):
-                ia0, ia1, ib0, ib1 = comp_fold_idx(self.batching, self.MN // 2, i)
+            for i in range(self.MN // 2 // cbatching):
+                ia0, ia1, ib0, ib1 = comp_fold_idx(cbatching, self.MN // 2, i)
                 logger.debug(' .. i: %s, %s:%s, %s:%s' % (i, ia0, ia1, ib0, ib1))
                 rrcons = await self.bp_tx_buffers((l[ia0:ia1], r[ib0:ib1]))
                 logger.debug(rrcons)
 
             # round 0 - aHigh, bLow
             logger.debug('r0, cLcR aHigh')
-            for i in range(self.MN // self.batching // 2):
-                ib0, ib1, ia0, ia1 = comp_fold_idx(self.batching, self.MN // 2, i)
+            for i in range(self.MN // 2 // cbatching):
+                ib0, ib1, ia0, ia1 = comp_fold_idx(cbatching, self.MN // 2, i)
                 logger.debug(' .. i: %s, %s:%s, %s:%s' % (i, ia0, ia1, ib0, ib1))
                 rrcons = await self.bp_tx_buffers((l[ia0:ia1], r[ib0:ib1]))
                 logger.debug(rrcons)
@@ -292,14 +295,14 @@ class BulletproofClient:
 
         else:
             logger.debug('r0, fold a')
-            for i in range(self.MN // self.batching // 2):
-                ia0, ia1, ib0, ib1 = comp_fold_idx(self.batching, self.MN // 2, i)
+            for i in range(self.MN // 2 // cbatching):
+                ia0, ia1, ib0, ib1 = comp_fold_idx(cbatching, self.MN // 2, i)
                 cres = dechunk_res(await self.bp_tx_buffers((aprime[ia0:ia1], aprime[ib0:ib1])))
                 if cres: app += cres
 
             logger.debug('r0, fold b')
-            for i in range(self.MN // self.batching // 2):
-                ia0, ia1, ib0, ib1 = comp_fold_idx(self.batching, self.MN // 2, i)
+            for i in range(self.MN // 2 // cbatching):
+                ia0, ia1, ib0, ib1 = comp_fold_idx(cbatching, self.MN // 2, i)
                 cres = dechunk_res(await self.bp_tx_buffers((bprime[ia0:ia1], bprime[ib0:ib1])))
                 if cres: bpp += cres
 
@@ -317,14 +320,15 @@ class BulletproofClient:
         round = 0
         while round == 0 or nprime >= self.nprime_thresh or (self.off_method >= 2 and nprime >= self.off2_thresh):
             npr2 = nprime * 2
+            cbatching = min(self.batching, nprime)
             round += 1
 
             logger.debug('Client, BPI nprime: %s, CLI nprime: %s, |Gprime|: %s' % (nprime, nprime, len(Gprime)))
             if self.off_method == 0:
                 # round 0 - aLow, bHigh
                 logger.debug('r%s, cLcR aLow' % round)
-                for i in range(nprime // self.batching):
-                    ia0, ia1, ib0, ib1 = comp_fold_idx(self.batching, nprime, i)
+                for i in range(nprime // cbatching):
+                    ia0, ia1, ib0, ib1 = comp_fold_idx(cbatching, nprime, i)
                     logger.debug(' .. i: %s, %s:%s, %s:%s' % (i, ia0, ia1, ib0, ib1))
                     rrcons = await self.bp_tx_buffers(
                         (aprime.d[ia0:ia1], bprime.d[ib0:ib1], Gprime.d[ib0:ib1], Hprime.d[ia0:ia1]))
@@ -332,8 +336,8 @@ class BulletproofClient:
 
                 # round 0 - aHigh, bLow
                 logger.debug('r%s, cLcR aHigh' % round)
-                for i in range(nprime // self.batching):
-                    ib0, ib1, ia0, ia1 = comp_fold_idx(self.batching, nprime, i)
+                for i in range(nprime // cbatching):
+                    ib0, ib1, ia0, ia1 = comp_fold_idx(cbatching, nprime, i)
                     logger.debug(' .. i: %s, %s:%s, %s:%s' % (i, ia0, ia1, ib0, ib1))
                     rrcons = await self.bp_tx_buffers(
                         (aprime.d[ia0:ia1], bprime.d[ib0:ib1], Gprime.d[ib0:ib1], Hprime.d[ia0:ia1]))
@@ -362,9 +366,8 @@ class BulletproofClient:
                 # Ordinary folding for methods [0, 1]
                 bf = v.d
                 nf = bytearray()
-                cbatching = min(self.batching, nprime)
                 for i in range(max(1, nprime // cbatching)):
-                    ia0, ia1, ib0, ib1 = comp_fold_idx(self.batching, nprime, i)
+                    ia0, ia1, ib0, ib1 = comp_fold_idx(cbatching, nprime, i)
                     logger.debug(' .. i: %s, %s:%s, %s:%s' % (i, ia0, ia1, ib0, ib1))
 
                     lo = bf[ia0:ia1]
-- 
2.43.0

