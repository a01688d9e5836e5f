From b3bf2e5d932148d1e62cbdfa80c12eb4cfe6c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 1/7] fix: read the newest step's finite check before the
 emergency checkpoint save

---
 trainer/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trainer/base.py b/trainer/base.py
index 0f3e9ff..2968e77 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -4105,6 +4105,9 @@ class BaseTrainer:
                 and self._last_state_save_iteration != st.iteration
             ):
                 try:
+                    # The pipelined finite check of the newest step must land
+                    # before its state can be committed.
+                    self._drain_pending_step_validity(include_current=True)
                     self._save_checkpoint(force_state=True)
                 except BaseException as save_exc:
                     accelerator.print(
-- 
2.43.0


From 0a052e7b2c7e33903494be51424e2ba393ddede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 2/7] fix: bound scalar and sequence results of filter
 expressions

---
 dataset/filter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dataset/filter.py b/dataset/filter.py
index cf0dc5c..a48eddb 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -166,10 +166,13 @@ class SafeFilterEvaluator:
             left = self._eval(node.left)
             right = self._eval(node.right)
             self._check_broadcast(left, right, node)
+            self._check_repetition(left, right, node)
             try:
                 result = _BINARY[type(node.op)](left, right)
             except Exception as exc:
                 raise self._error(node, str(exc)) from exc
+            if isinstance(result, int) and result.bit_length() > 64:
+                raise self._error(node, "integer intermediate exceeds 64 bits")
             return self._check_array(result, "binary intermediate")
         if isinstance(node, ast.Compare):
             if len(node.ops) != len(node.comparators):
@@ -254,6 +257,14 @@ class SafeFilterEvaluator:
         )
         self._check_result_allocation(shape, itemsize, node)
 
+    def _check_repetition(self, left: Any, right: Any, node: ast.BinOp) -> None:
+        if (
+            isinstance(node.op, ast.Mult)
+            and any(isinstance(value, tuple) for value in (left, right))
+            and not any(isinstance(value, np.ndarray) for value in (left, right))
+        ):
+            raise self._error(node, "sequence repetition is forbidden")
+
     def _check_result_allocation(self, shape, itemsize, node):
         elements = math.prod(shape)
         byte_count = elements * int(itemsize)
-- 
2.43.0


From 1b5f703d79301d46e770ad35fab3601afcd2efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:03 +0000
Subject: [PATCH 3/7] fix: filter functions take exactly their inputs, so a
 filter cannot write into its data

---
 dataset/filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataset/filter.py b/dataset/filter.py
index a48eddb..f00df1e 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -220,6 +220,8 @@ class SafeFilterEvaluator:
                 raise self._error(node, "only whitelisted NumPy functions may be called")
             if node.keywords:
                 raise self._error(node, "keyword arguments are forbidden")
+            if len(node.args) != function.nin:
+                raise self._error(node, f"function takes {function.nin} arguments")
             args = [self._eval(arg) for arg in node.args]
             arrays = [arg for arg in args if isinstance(arg, np.ndarray)]
             if arrays:
-- 
2.43.0


From 62acb9c19c756fcdba5fcaef972d5b72fe5eb8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:46 +0000
Subject: [PATCH 4/7] fix: bound the combined result of chained filter
 comparisons

---
 dataset/filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataset/filter.py b/dataset/filter.py
index f00df1e..957a72c 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -185,6 +185,8 @@ class SafeFilterEvaluator:
                 right = self._eval(comparator)
                 self._check_broadcast(left, right, node)
                 part = self._check_array(_COMPARE[type(op_node)](left, right), "comparison intermediate")
+                if result is not None:
+                    self._check_broadcast(result, part, node)
                 result = part if result is None else np.logical_and(result, part)
                 left = right
             return result
-- 
2.43.0


From 8c7487de0292060e2221219f7c2bc971974c9c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:47 +0000
Subject: [PATCH 5/7] fix: keep exported int32 biases inside int32

The upper clipping bound 2**31 - 1 is not a float32: on float32 arrays it
rounds up to 2**31, and astype(np.int32) turns every clipped bias into
INT32_MIN. Clip to the largest float32 below 2**31.
---
 model/serialization/flatnet.py | 16 +++++++++-------
 model/serialization/mixnet.py  | 34 ++++++++++++++++++----------------
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/model/serialization/flatnet.py b/model/serialization/flatnet.py
index b3d05f4..6025714 100644
--- a/model/serialization/flatnet.py
+++ b/model/serialization/flatnet.py
@@ -99,13 +99,15 @@ def _export_ladder_value(model, s_weight, s_output):
 
     return (
         np.clip(np.around(l1_weight * s_weight), -128, 127).astype(np.int8),
-        np.clip(np.around(l1_bias * s_weight * 128), -(2**31), 2**31 - 1).astype(np.int32),
+        # 2**31 - 128 is the largest float32 below 2**31: 2**31 - 1 would round up
+        # to 2**31 and wrap to INT32_MIN in the cast.
+        np.clip(np.around(l1_bias * s_weight * 128), -(2**31), 2**31 - 128).astype(np.int32),
         np.clip(np.around(l2_weight * s_weight), -128, 127).astype(np.int8),
-        np.clip(np.around(l2_bias * s_weight * 128), -(2**31), 2**31 - 1).astype(np.int32),
+        np.clip(np.around(l2_bias * s_weight * 128), -(2**31), 2**31 - 128).astype(np.int32),
         np.clip(np.around(l3_weight * s_weight), -128, 127).astype(np.int8),
-        np.clip(np.around(l3_bias * s_weight * 128), -(2**31), 2**31 - 1).astype(np.int32),
+        np.clip(np.around(l3_bias * s_weight * 128), -(2**31), 2**31 - 128).astype(np.int32),
         np.clip(np.around(l4_weight * s_output), -128, 127).astype(np.int8),
-        np.clip(np.around(l4_bias * s_output * 128), -(2**31), 2**31 - 1).astype(np.int32),
+        np.clip(np.around(l4_bias * s_output * 128), -(2**31), 2**31 - 128).astype(np.int32),
     )
 
 
@@ -141,11 +143,11 @@ def _export_square_value(model, s_input, s_weight):
     )
     return (
         np.clip(np.around(l1_weight * s_input), -128, 127).astype(np.int8),
-        np.clip(np.around(l1_bias * s_input * 128), -(2**31), 2**31 - 1).astype(np.int32),
+        np.clip(np.around(l1_bias * s_input * 128), -(2**31), 2**31 - 128).astype(np.int32),
         np.clip(np.around(l2_weight * s_weight), -128, 127).astype(np.int8),
-        np.clip(np.around(l2_bias * s_weight * 128), -(2**31), 2**31 - 1).astype(np.int32),
+        np.clip(np.around(l2_bias * s_weight * 128), -(2**31), 2**31 - 128).astype(np.int32),
         np.clip(np.around(l3_weight * s_weight), -128, 127).astype(np.int8),
-        np.clip(np.around(l3_bias * s_weight * 128), -(2**31), 2**31 - 1).astype(np.int32),
+        np.clip(np.around(l3_bias * s_weight * 128), -(2**31), 2**31 - 128).astype(np.int32),
     )
 
 
diff --git a/model/serialization/mixnet.py b/model/serialization/mixnet.py
index 301f967..cf16157 100644
--- a/model/serialization/mixnet.py
+++ b/model/serialization/mixnet.py
@@ -1676,16 +1676,18 @@ class Mix9NetSerializer(BaseSerializer):
         if no_dynamic_pwconv:
             return (
                 np.clip(np.around(dwconv_weight * (128 * 128)), -32768, 32767).astype(np.int16),
-                np.clip(np.around(dwconv_bias * (128 * 128 * 128)), -(2**31), 2**31 - 1).astype(np.int32),
+                # 2**31 - 128 is the largest float32 below 2**31: 2**31 - 1 would round up
+                # to 2**31 and wrap to INT32_MIN in the cast.
+                np.clip(np.around(dwconv_bias * (128 * 128 * 128)), -(2**31), 2**31 - 128).astype(np.int32),
                 policy_output_weight / (128 * 128 * 128),
                 policy_output_bias,
             )
         else:
             return (
                 np.clip(np.around(l1_weight * 128), -128, 127).astype(np.int8),
-                np.clip(np.around(l1_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32),
+                np.clip(np.around(l1_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32),
                 np.clip(np.around(l2_weight * 128), -128, 127).astype(np.int8),
-                np.clip(np.around(l2_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32),
+                np.clip(np.around(l2_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32),
                 policy_output_weight / (128 * 128 * 128),
                 policy_output_bias,
             )
@@ -1707,11 +1709,11 @@ class Mix9NetSerializer(BaseSerializer):
 
         return (
             np.clip(np.around(up1_weight * 128), -128, 127).astype(np.int8),
-            np.clip(np.around(up1_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32),
+            np.clip(np.around(up1_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32),
             np.clip(np.around(up2_weight * 128), -128, 127).astype(np.int8),
-            np.clip(np.around(up2_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32),
+            np.clip(np.around(up2_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32),
             np.clip(np.around(down_weight * 128), -128, 127).astype(np.int8),
-            np.clip(np.around(down_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32),
+            np.clip(np.around(down_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32),
         )
 
     def _export_linear(self, model: Mix9Net, prefix: str):
@@ -1723,7 +1725,7 @@ class Mix9NetSerializer(BaseSerializer):
 
         return (
             np.clip(np.around(weight * 128), -128, 127).astype(np.int8),
-            np.clip(np.around(bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32),
+            np.clip(np.around(bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32),
         )
 
     def _export_value(self, model: Mix9Net):
@@ -1743,11 +1745,11 @@ class Mix9NetSerializer(BaseSerializer):
 
         return (
             np.clip(np.around(l1_weight * 128), -128, 127).astype(np.int8),
-            np.clip(np.around(l1_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32),
+            np.clip(np.around(l1_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32),
             np.clip(np.around(l2_weight * 128), -128, 127).astype(np.int8),
-            np.clip(np.around(l2_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32),
+            np.clip(np.around(l2_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32),
             np.clip(np.around(l3_weight * 128), -128, 127).astype(np.int8),
-            np.clip(np.around(l3_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32),
+            np.clip(np.around(l3_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32),
         )
 
     def serialize(self, out: io.IOBase, model: Mix9Net, device):
@@ -2557,9 +2559,9 @@ class Mix10NetSerializer(BaseSerializer):
 
         return (
             (np.clip(np.around(l1_weight * 128), -128, 127).astype(np.int8),
-             np.clip(np.around(l1_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32)),
+             np.clip(np.around(l1_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32)),
             (np.clip(np.around(l2_weight * 128), -128, 127).astype(np.int8),
-             np.clip(np.around(l2_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32)),
+             np.clip(np.around(l2_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32)),
             policy_output_weight / (128 * 128 * 128),
             policy_output_bias,
         )
@@ -2591,11 +2593,11 @@ class Mix10NetSerializer(BaseSerializer):
 
         return (
             (np.clip(np.around(l0_weight * 128), -128, 127).astype(np.int8),
-             np.clip(np.around(l0_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32)),
+             np.clip(np.around(l0_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32)),
             (np.clip(np.around(l1_weight * 128), -128, 127).astype(np.int8),
-             np.clip(np.around(l1_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32)),
+             np.clip(np.around(l1_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32)),
             (np.clip(np.around(l2_weight * 128), -128, 127).astype(np.int8),
-             np.clip(np.around(l2_bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32)),
+             np.clip(np.around(l2_bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32)),
             policy_output_weight / (128 * 128 * 128),
             policy_output_bias,
         )
@@ -2609,7 +2611,7 @@ class Mix10NetSerializer(BaseSerializer):
 
         return (
             np.clip(np.around(weight * 128), -128, 127).astype(np.int8),
-            np.clip(np.around(bias * 128 * 128), -(2**31), 2**31 - 1).astype(np.int32),
+            np.clip(np.around(bias * 128 * 128), -(2**31), 2**31 - 128).astype(np.int32),
         )
 
     def serialize(self, out: io.IOBase, model: Mix10Net, device):
-- 
2.43.0


From 0a1e5d2af6c3773f6b7ffb289020b86722ece907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:09 +0000
Subject: [PATCH 6/7] fix: write int16 policy weights as int16 in the Mix9 text
 export

With no_dynamic_pwconv the quantized pointwise weights are int16 (and the
binary export writes them as such), but the text export cast them to int8,
wrapping every weight outside [-128, 127].
---
 model/serialization/mixnet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/serialization/mixnet.py b/model/serialization/mixnet.py
index cf16157..d982464 100644
--- a/model/serialization/mixnet.py
+++ b/model/serialization/mixnet.py
@@ -1826,16 +1826,16 @@ class Mix9NetSerializer(BaseSerializer):
             feat_dwconv_bias.astype("i2").tofile(out, sep=" ")
             print(file=out)
 
-            def print_linear_block(name, weight, bias):
+            def print_linear_block(name, weight, bias, weight_type="i1"):
                 print(f"{name}_weight", file=out)
-                weight.astype("i1").tofile(out, sep=" ")
+                weight.astype(weight_type).tofile(out, sep=" ")
                 print(file=out)
                 print(f"{name}_bias", file=out)
                 bias.astype("i4").tofile(out, sep=" ")
                 print(file=out)
 
             if no_dynamic_pwconv:
-                print_linear_block("policy_pwconv", policy_pwconv_weight, policy_pwconv_bias)
+                print_linear_block("policy_pwconv", policy_pwconv_weight, policy_pwconv_bias, "i2")
             else:
                 print_linear_block(
                     "policy_pwconv_layer_l1", policy_pwconv_layer_l1_weight, policy_pwconv_layer_l1_bias
-- 
2.43.0


From d8735262e2276e88ce65eda299f8decf77d85b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:39 +0000
Subject: [PATCH 7/7] fix: transform the move list together with the board in
 binary sources

The planned readers of simple_binary and packed_binary applied the symmetry
in a second post-processing pass, after the move list had been rendered into
position_string and last_move, so these fields kept the untransformed moves.
---
 dataset/packed_binary.py | 51 +++++++++++++++++++++-------------------
 dataset/simple_binary.py | 40 +++++++++++++++----------------
 2 files changed, 47 insertions(+), 44 deletions(-)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index 490dad4..ed41bd1 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from utils.winrate_model import WinrateModel
@@ -272,7 +271,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
             has_pass_move=self.has_pass_move,
-            apply_symmetry=False,
+            apply_symmetry=self.apply_symmetry,
             drop_extra=self.drop_extra,
             shuffle=False,
             sample_rate=1.0,
@@ -308,25 +307,22 @@ class PackedBinaryDataset(PlannedBatchDataset):
             return raw_entry_metadata(raw_entry)[2]
 
         def materialize_entry(entry, record_key, epoch, subrecord):
-            data = reader._process_subrecord(entry, subrecord)
-            if data is None or not self.apply_symmetry:
-                return data
-            from utils.data_utils import Symmetry
-
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
-            kind = "default" if self.apply_symmetry is True else self.apply_symmetry
-            choices = Symmetry.available_symmetries(board_size, kind)
-            symmetry_index, _ = uniform_below(
-                len(choices),
-                runtime_context.seed,
-                "symmetry",
-                (epoch, record_key, 0),
-            )
-            return post_process_data(
-                copy.deepcopy(data),
-                symmetry_type=self.apply_symmetry,
-                symmetry_index=symmetry_index,
-            )
+            # The symmetry is applied together with the other transformations: a
+            # second pass would leave the fields derived from the moves behind.
+            def pick_symmetry(board_size):
+                from utils.data_utils import Symmetry
+
+                kind = "default" if self.apply_symmetry is True else self.apply_symmetry
+                choices = Symmetry.available_symmetries(board_size, kind)
+                symmetry_index, _ = uniform_below(
+                    len(choices),
+                    runtime_context.seed,
+                    "symmetry",
+                    (epoch, record_key, 0),
+                )
+                return symmetry_index
+
+            return reader._process_subrecord(entry, subrecord, pick_symmetry)
 
         self._record_source = InterleavedSequentialSource(
             self.file_list,
@@ -427,7 +423,9 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return policy if self.has_pass_move else policy.reshape(boardsize)
 
-    def _process_entry(self, entry: EntryData, selected_subrecord: int) -> dict | None:
+    def _process_entry(
+        self, entry: EntryData, selected_subrecord: int, pick_symmetry=None
+    ) -> dict | None:
         # Skip other rules and board sizes
         boardsize = (entry.boardsize, entry.boardsize)
         if str(entry.rule) not in self.rules:
@@ -484,6 +482,9 @@ class PackedBinaryDataset(PlannedBatchDataset):
                     fixed_side_input=self.fixed_side_input,
                     fixed_board_size=self.fixed_board_size,
                     symmetry_type=self.apply_symmetry,
+                    symmetry_index=(
+                        pick_symmetry(boardsize) if self.apply_symmetry and pick_symmetry else None
+                    ),
                     drop_extra=self.drop_extra,
                 )
 
@@ -496,6 +497,8 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return None
 
-    def _process_subrecord(self, entry: EntryData, subrecord: int) -> dict | None:
+    def _process_subrecord(
+        self, entry: EntryData, subrecord: int, pick_symmetry=None
+    ) -> dict | None:
         """Replay only far enough to materialize the selected move sample."""
-        return self._process_entry(entry, int(subrecord))
+        return self._process_entry(entry, int(subrecord), pick_symmetry)
diff --git a/dataset/simple_binary.py b/dataset/simple_binary.py
index 976686f..8c22ac7 100644
--- a/dataset/simple_binary.py
+++ b/dataset/simple_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from . import DATASETS
@@ -143,7 +142,7 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             boardsizes=self.boardsizes,
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
-            apply_symmetry=False,
+            apply_symmetry=self.apply_symmetry,
             drop_extra=self.drop_extra,
             shuffle=False,
             sample_rate=1.0,
@@ -165,25 +164,22 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             return self.fixed_board_size or boardsize
 
         def materialize_entry(entry, record_key, epoch):
-            data = reader._prepare_data_from_entry(*entry)
-            if data is None or not self.apply_symmetry:
-                return data
-            from utils.data_utils import Symmetry
+            # The symmetry is applied together with the other transformations: a
+            # second pass would leave the fields derived from the moves behind.
+            def pick_symmetry(board_size):
+                from utils.data_utils import Symmetry
 
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
-            kind = "default" if self.apply_symmetry is True else self.apply_symmetry
-            choices = Symmetry.available_symmetries(board_size, kind)
-            symmetry_index, _ = uniform_below(
-                len(choices),
-                runtime_context.seed,
-                "symmetry",
-                (epoch, record_key, 0),
-            )
-            return post_process_data(
-                copy.deepcopy(data),
-                symmetry_type=self.apply_symmetry,
-                symmetry_index=symmetry_index,
-            )
+                kind = "default" if self.apply_symmetry is True else self.apply_symmetry
+                choices = Symmetry.available_symmetries(board_size, kind)
+                symmetry_index, _ = uniform_below(
+                    len(choices),
+                    runtime_context.seed,
+                    "symmetry",
+                    (epoch, record_key, 0),
+                )
+                return symmetry_index
+
+            return reader._prepare_data_from_entry(*entry, pick_symmetry=pick_symmetry)
 
         self._record_source = InterleavedSequentialSource(
             self.file_list,
@@ -237,6 +233,7 @@ class SimpleBinaryDataset(PlannedBatchDataset):
         rule: Rule,
         move: Move,
         position: list[Move],
+        pick_symmetry=None,
     ):
         # Skip other rules and board sizes
         boardsize = (bsize, bsize)
@@ -277,6 +274,9 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
             symmetry_type=self.apply_symmetry,
+            symmetry_index=(
+                pick_symmetry(boardsize) if self.apply_symmetry and pick_symmetry else None
+            ),
             drop_extra=self.drop_extra,
         )
         return data
-- 
2.43.0

