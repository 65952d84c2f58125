From 1fa15e9440c8a22166ab7bbfd2dd593cad36cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:39 +0000
Subject: [PATCH 01/23] fix: read message headers exactly and report a closed
 connection

recv_data read the 16-byte header with a single recv, so a short read broke
the framing, and looped forever on end of stream inside a body.
---
 federation/transfer_inst.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/federation/transfer_inst.py b/federation/transfer_inst.py
index 0d1d7b0..b7265b9 100644
--- a/federation/transfer_inst.py
+++ b/federation/transfer_inst.py
@@ -20,6 +20,20 @@ class TransferInst:
 
         cs.sendall(byteStream)
     
+    @staticmethod
+    def recv_exact(cs, size):
+        """
+        receive exactly size bytes, however the stream is fragmented;
+        raise ConnectionError if the peer closes the connection before that
+        """
+        buf = b''
+        while len(buf) < size:
+            more = cs.recv(size - len(buf))
+            if not more:
+                raise ConnectionError('connection closed by peer, {} of {} bytes received'.format(len(buf), size))
+            buf += more
+        return buf
+
     @staticmethod
     def recv_data(cs):
         # msg = cs.recv(1024)
@@ -33,15 +47,9 @@ class TransferInst:
         #     full_msg = full_msg + more
         #     nowsize += len(more)
 
-        msg = cs.recv(16)
-        length = int(msg[:16])
+        length = int(TransferInst.recv_exact(cs, 16))
         # LOGGER.debug('len of recv_msg is {}'.format(length))
-        full_msg = b''
-        nowsize = len(full_msg)
-        while nowsize < length:
-            more = cs.recv(length - nowsize)
-            full_msg = full_msg + more
-            nowsize += len(more)
+        full_msg = TransferInst.recv_exact(cs, length)
 
         # LOGGER.debug('true len of recv_msg is {}'.format(length))
         return pickle.loads(full_msg)
-- 
2.43.0


From 3442348e8c639abaeb4a95252e9bb79ee394277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:56 +0000
Subject: [PATCH 02/23] fix: do not overwrite the caller's rows when aligning
 and binning data

Binning replaced the features of the caller's own instances by bin numbers,
so predicting the training table after fit compared bin numbers with
feature thresholds.
---
 ml/feature/binning/base_binning.py | 5 ++++-
 ml/tree/boosting_tree.py           | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index c433b9d..147e7bf 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -1,3 +1,4 @@
+import copy
 import functools
 import math
 
@@ -133,12 +134,14 @@ class Binning:
                 sparse_value.append(col_value)
 
         sparse_vector = SparseVector(indice, sparse_value, data_shape)
+        instances = copy.copy(instances)
         instances.features = sparse_vector
         return instances
 
     @staticmethod
     def _convert_dense_data(instances, transform_cols_idx, split_points_dict, header):
-        features = instances.features
+        instances = copy.copy(instances)
+        features = copy.copy(instances.features)
         for col_idx, col_value in enumerate(features):
             if col_idx in transform_cols_idx:
                 col_name = header[col_idx]
diff --git a/ml/tree/boosting_tree.py b/ml/tree/boosting_tree.py
index 7e00998..929828b 100644
--- a/ml/tree/boosting_tree.py
+++ b/ml/tree/boosting_tree.py
@@ -1,4 +1,5 @@
 
+import copy
 from computing.d_table import DTable
 import numpy as np
 from ml.param.boosting_tree_param import BoostingTreeParam
@@ -62,6 +63,7 @@ class BoostingTree(ModelBase):
                 indices.append(i)
                 data.append(row.features[i])
 
+            row = copy.copy(row)
             row.features = SparseVector(indices, data, feature_shape)
 
         return row
-- 
2.43.0


From 61a53e8f463cc6a5b6a7d600b673bfa0c1394d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:09 +0000
Subject: [PATCH 03/23] fix: send hosts only the structure of a finished tree

The tree was broadcast with every node's plaintext gradient and hessian sums
and leaf weight, which discloses labels to the hosts.
---
 ml/tree/hetero_decision_tree_guest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ml/tree/hetero_decision_tree_guest.py b/ml/tree/hetero_decision_tree_guest.py
index ac1e371..2f52756 100644
--- a/ml/tree/hetero_decision_tree_guest.py
+++ b/ml/tree/hetero_decision_tree_guest.py
@@ -306,7 +306,10 @@ class HeteroDecisionTreeGuest(DecisionTree):
     def sync_tree(self):
         self.logger.info("sync tree to host")
 
-        self.transfer_inst.send_data_to_hosts(self.tree_, -1)
+        # hosts only need the structure: sums of gradients and leaf weights stay with the guest
+        mask_tree = [Node(id=node.id, sitename=node.sitename, fid=node.fid, bid=node.bid, is_leaf=node.is_leaf,
+                          left_nodeid=node.left_nodeid, right_nodeid=node.right_nodeid) for node in self.tree_]
+        self.transfer_inst.send_data_to_hosts(mask_tree, -1)
 
         # federation.remote(obj=self.tree_,
         #                   name=self.transfer_inst.tree.name,
-- 
2.43.0


From 7583991c047f6a0b5467f66bf4b871761e03c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:57 +0000
Subject: [PATCH 04/23] fix: make label statistics usable so that regression
 can start

Partition functions must return a list, and fit_split_points is documented
to return the split points; both made every regression objective fail.
---
 ml/feature/binning/quantile_binning.py | 1 +
 ml/statistic/statics.py                | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 3c50679..8046283 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -67,6 +67,7 @@ class QuantileBinning(Binning):
                     split_point.append(s_p)
             split_points[col_name] = split_point
         self.split_points = split_points
+        return split_points
 
     @staticmethod
     def approxiQuantile(data_instances, params, cols_dict, abnormal_list, header, is_sparse) -> dict:
diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 35ed40e..8f0cdce 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -200,7 +200,7 @@ class MultivariateStatisticalSummary(object):
                 stat_obj = summary_statistic_dict[col_name]
                 stat_obj.add_value(value)
 
-        return summary_statistic_dict
+        return [summary_statistic_dict]
 
     @staticmethod
     def static_summaries_in_partition(data_instances, cols_dict, abnormal_list):
@@ -238,7 +238,7 @@ class MultivariateStatisticalSummary(object):
                 summary_obj = summary_dict[col_name]
                 summary_obj.insert(value)
 
-        return summary_dict
+        return [summary_dict]
 
     @staticmethod
     def aggregate_statics(s_dict1, s_dict2):
-- 
2.43.0


From 54eba8a12f9a8eedddb512f35b59613801c5ebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:57 +0000
Subject: [PATCH 05/23] fix: take the label column's mean in the log-cosh
 initial score

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 450c8db..fc9fe10 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -179,7 +179,7 @@ class LogCoshLoss(object):
         y_inst = y.mapValues(lambda label: Instance(features=np.asarray([label])))
         y_inst.schema = {"header": ["label"]}
         statistics = MultivariateStatisticalSummary(y_inst, -1)
-        mean = statistics.get_mean()
+        mean = statistics.get_mean()["label"]
         return y.mapValues(lambda x: np.asarray([mean])), np.asarray([mean])
 
     @staticmethod
-- 
2.43.0


From 9309a7d2c22df3d9143c9c137366f4be43aab8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:57 +0000
Subject: [PATCH 06/23] fix: keep the validation predictions in the component
 output

union returns a new table; its result was discarded.
---
 ml/model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/model_base.py b/ml/model_base.py
index 933e193..409ae17 100644
--- a/ml/model_base.py
+++ b/ml/model_base.py
@@ -105,7 +105,7 @@ class ModelBase(object):
                         predict_output_res = eval_data_predict_res.mapValues(lambda d: d + ["validation"])
 
                         if self.data_output:
-                            self.data_output.union(predict_output_res)
+                            self.data_output = self.data_output.union(predict_output_res)
                         else:
                             self.data_output = predict_output_res
 
@@ -134,7 +134,7 @@ class ModelBase(object):
                     eval_data_output = eval_data_output.mapValues(lambda value: value + ["validation"])
 
                 if self.data_output and eval_data_output:
-                    self.data_output.union(eval_data_output)
+                    self.data_output = self.data_output.union(eval_data_output)
                 elif not self.data_output and eval_data_output:
                     self.data_output = eval_data_output
 
-- 
2.43.0


From 2789059a97d1fde3177d868ddd192ad0b8131ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:57 +0000
Subject: [PATCH 07/23] fix: generate Paillier keys of odd length instead of
 looping forever

---
 ml/secureprotol/fate_paillier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/fate_paillier.py b/ml/secureprotol/fate_paillier.py
index 91e2d33..a574329 100644
--- a/ml/secureprotol/fate_paillier.py
+++ b/ml/secureprotol/fate_paillier.py
@@ -36,7 +36,7 @@ class PaillierKeypair(object):
             p = gmpy_math.getprimeover(n_length // 2)
             q = p
             while q == p:
-                q = gmpy_math.getprimeover(n_length // 2)
+                q = gmpy_math.getprimeover(n_length - n_length // 2)
             n = p * q
             n_len = n.bit_length()
         
-- 
2.43.0


From 3dc519610ba6d40a25da68c83d25e0e83bfa48d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:57 +0000
Subject: [PATCH 08/23] fix: affine key generation must not search for a
 zero-bit multiplier

With a small random ratio the multiplier had no bits, was always 0, and the
search for one coprime to n never ended.
---
 ml/secureprotol/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/affine.py b/ml/secureprotol/affine.py
index 5e82edf..5a30271 100644
--- a/ml/secureprotol/affine.py
+++ b/ml/secureprotol/affine.py
@@ -33,7 +33,7 @@ class AffineCipher(object):
         if b_ratio is None:
             b_ratio = random.SystemRandom().random()
         while True:
-            a = random.SystemRandom().getrandbits(int(key_size * a_ratio))
+            a = random.SystemRandom().getrandbits(max(1, int(key_size * a_ratio)))
             if math.gcd(n, a) == 1:
                 break
         b = random.SystemRandom().getrandbits(int(key_size * b_ratio))
-- 
2.43.0


From 828dce7d25a61e0784b2f4fa71e67a3f95ba5b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:18 +0000
Subject: [PATCH 09/23] fix: reject csv rows that do not have the header's
 columns

A torn or blank line was read as a row with missing features.
---
 i_o/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/i_o/utils.py b/i_o/utils.py
index 2f3d3fc..d9019da 100644
--- a/i_o/utils.py
+++ b/i_o/utils.py
@@ -33,6 +33,7 @@ def read_from_csv_with_lable(csv_address: str):
             rows.append(line.rstrip("\n"))
     
     header = rows[0].split(',')
+    col_num = len(header)
 
     # lable_pos = header.index('y')
     lable_pos = 1
@@ -48,6 +49,8 @@ def read_from_csv_with_lable(csv_address: str):
     for i in range(1,len(rows)):
 
         vals = rows[i].split(',')
+        if len(vals) != col_num:
+            raise ValueError('line {} of {} has {} columns, {} expected'.format(i + 1, csv_address, len(vals), col_num))
 
         lables.append(vals.pop(lable_pos))
         ids.append(vals.pop(id_pos))
@@ -86,6 +89,7 @@ def read_from_csv_with_no_lable(csv_address: str):
             rows.append(line.rstrip("\n"))
     
     header = rows[0].split(',')
+    col_num = len(header)
 
     # id_pos = header.index('id')
     id_pos = 0
@@ -97,6 +101,8 @@ def read_from_csv_with_no_lable(csv_address: str):
     for i in range(1,len(rows)):
 
         vals = rows[i].split(',')
+        if len(vals) != col_num:
+            raise ValueError('line {} of {} has {} columns, {} expected'.format(i + 1, csv_address, len(vals), col_num))
 
         ids.append(vals.pop(id_pos))
         vals = [float(val) for val in vals]
-- 
2.43.0


From dd61dbc762dd505868d2427f8352f96678c14d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:07 +0000
Subject: [PATCH 10/23] fix: least absolute error gradient of a zero residual
 is zero

---
 ml/loss/regression_loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index fc9fe10..c69e3e0 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -76,7 +76,7 @@ class LeastAbsoluteErrorLoss(object):
         if type(y).__name__ == "ndarray" or type(y_pred).__name__ == "ndarray":
             diff = y_pred - y
             diff[diff > consts.FLOAT_ZERO] = 1
-            diff[diff < consts.FLOAT_ZERO] = -1
+            diff[diff < -consts.FLOAT_ZERO] = -1
             diff[np.abs(diff) <= consts.FLOAT_ZERO] = 0
 
             return diff
@@ -84,7 +84,7 @@ class LeastAbsoluteErrorLoss(object):
             diff = y_pred - y
             if diff > consts.FLOAT_ZERO:
                 return 1
-            elif diff < consts.FLOAT_ZERO:
+            elif diff < -consts.FLOAT_ZERO:
                 return -1
             else:
                 return 0
-- 
2.43.0


From 1b9bb63e4f76423d49b18f70f2f961b15fa784d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:28 +0000
Subject: [PATCH 11/23] fix: quantile query must consider the smallest sample

---
 ml/feature/quantile_summaries.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 39d4763..3d298dc 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -181,9 +181,9 @@ class QuantileSummaries(object):
             return self.sampled[-1].value
 
         rank = math.ceil(quantile * self.count)
-        target_error = math.ceil(self.error * self.count)
+        target_error = self.error * self.count
         min_rank = 0
-        i = 1
+        i = 0
         while i < len(self.sampled) - 1:
             cur_sample = self.sampled[i]
             min_rank += cur_sample.g
-- 
2.43.0


From 994d283b53ea229819ad34ab574332004c212d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:28 +0000
Subject: [PATCH 12/23] fix: keep the bin boundaries of a column in ascending
 order

---
 ml/feature/binning/quantile_binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 8046283..47ffa6b 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -65,7 +65,7 @@ class QuantileBinning(Binning):
                 s_p = summary.query(percentile_rate)
                 if s_p not in split_point:
                     split_point.append(s_p)
-            split_points[col_name] = split_point
+            split_points[col_name] = sorted(split_point)
         self.split_points = split_points
         return split_points
 
-- 
2.43.0


From 0c7c875d25a0e106ef7828f135047d45fb9b339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:28 +0000
Subject: [PATCH 13/23] fix: log-cosh loss must not overflow for large
 residuals

---
 ml/loss/regression_loss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index c69e3e0..ccfb9bd 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -188,7 +188,11 @@ class LogCoshLoss(object):
 
     @staticmethod
     def compute_loss(y, y_pred):
-        log_cosh_loss = y.join(y_pred, lambda y, yp: (np.log(np.cosh(yp - y)), 1))
+        def log_cosh(x):
+            # np.cosh overflows for large residuals, this form of the same function does not
+            return np.logaddexp(x, -x) - np.log(2.0)
+
+        log_cosh_loss = y.join(y_pred, lambda y, yp: (log_cosh(yp - y), 1))
         log_cosh_sum, sample_num = log_cosh_loss.reduce(
             lambda tuple1, tuple2: (tuple1[0] + tuple2[0], tuple1[1] + tuple2[1]))
         return log_cosh_sum / sample_num
-- 
2.43.0


From aa711902afc5061eb933963c60f811d5b7825eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:11 +0000
Subject: [PATCH 14/23] fix: numbers too small for the key must not overflow
 encrypted sums

---
 ml/secureprotol/fixedpoint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index f411d72..661457f 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -69,6 +69,8 @@ class FixedPointNumber(object):
                 flt_exponent = math.frexp(scalar)[1]
                 lsb_exponent = cls.FLOAT_MANTISSA_BITS - flt_exponent
                 exponent = math.floor(lsb_exponent / cls.LOG2_BASE)
+                # a number too small for n must not force numbers of ordinary size to overflow when aligned with it
+                exponent = min(exponent, math.floor((max_int.bit_length() - 64) / cls.LOG2_BASE))
             else:
                 raise TypeError("Don't know the precision of type %s."
                                 % type(scalar))
-- 
2.43.0


From 8929f1b46ca969b7db088d769ea791d47a63db0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:59 +0000
Subject: [PATCH 15/23] fix: encrypt all rows when they do not match the
 previous call's

---
 ml/secureprotol/encrypt_mode.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ml/secureprotol/encrypt_mode.py b/ml/secureprotol/encrypt_mode.py
index ca0ae05..e74c377 100644
--- a/ml/secureprotol/encrypt_mode.py
+++ b/ml/secureprotol/encrypt_mode.py
@@ -55,6 +55,14 @@ class EncryptModeCalculator(object):
     def gen_random_number(self):
         return random.random()
 
+    def matches_previous(self, input_data):
+        """
+        Differences can only be added to the previous ciphertexts if the keys and the lengths of the rows are unchanged
+        """
+        lengths = [dict((key, len(row) if isinstance(row, Iterable) else None) for key, row in table.collect())
+                   for table in (input_data, self.prev_data)]
+        return lengths[0] == lengths[1]
+
     def encrypt(self, input_data):
         """
         Encrypt data according to different mode
@@ -70,7 +78,8 @@ class EncryptModeCalculator(object):
         """
         
         if self.prev_data is None or self.mode == "strict" \
-                or (self.mode == "balance" and self.gen_random_number() <= self.re_encrypted_rate + consts.FLOAT_ZERO):
+                or (self.mode == "balance" and self.gen_random_number() <= self.re_encrypted_rate + consts.FLOAT_ZERO) \
+                or not self.matches_previous(input_data):
             new_data = input_data.mapValues(self.encrypt_row)
         else:
             diff_data = input_data.join(self.prev_data, self.get_differance) 
-- 
2.43.0


From 65aa898b33f45cc10eccc5e3eff79017c4515392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:18 +0000
Subject: [PATCH 16/23] fix: keep copies of the rows whose differences are
 encrypted next

---
 ml/secureprotol/encrypt_mode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ml/secureprotol/encrypt_mode.py b/ml/secureprotol/encrypt_mode.py
index e74c377..358a5d2 100644
--- a/ml/secureprotol/encrypt_mode.py
+++ b/ml/secureprotol/encrypt_mode.py
@@ -17,6 +17,7 @@
 from collections.abc import Iterable
 from ml.statistic.data_overview import rubbish_clear 
 from ml.utils import consts
+import copy
 import numpy as np
 import random
 
@@ -97,8 +98,9 @@ class EncryptModeCalculator(object):
         rubbish_clear(rubbish_list)
         """temporary code, clear unused table end"""
 
-        self.prev_data = input_data.mapValues(lambda val: val)
-        self.prev_encrypted_data = new_data.mapValues(lambda val: val)
+        # copies, because the caller may go on to change the rows it passed or received
+        self.prev_data = input_data.mapValues(copy.copy)
+        self.prev_encrypted_data = new_data.mapValues(copy.copy)
 
         return new_data
 
-- 
2.43.0


From dd02e1d2a5f1e8cbb6a8466b907bbe29f8573d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:17 +0000
Subject: [PATCH 17/23] fix: affine modulus must have the requested size

---
 ml/secureprotol/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/affine.py b/ml/secureprotol/affine.py
index 5a30271..3482e53 100644
--- a/ml/secureprotol/affine.py
+++ b/ml/secureprotol/affine.py
@@ -27,7 +27,7 @@ class AffineCipher(object):
 
     @staticmethod
     def generate_keypair(key_size=2048, encode_precision=2 ** 100, a_ratio=None, b_ratio=None):
-        n = random.SystemRandom().getrandbits(key_size)
+        n = random.SystemRandom().getrandbits(key_size) | 1 << (key_size - 1)  # exactly key_size bits, never zero
         if a_ratio is None:
             a_ratio = random.SystemRandom().random()
         if b_ratio is None:
-- 
2.43.0


From bb1698cd3a6a7d9c41c8e1856a5e5820125a6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:27 +0000
Subject: [PATCH 18/23] fix: check the encryption mode and prediction
 parameters too

---
 ml/param/boosting_tree_param.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ml/param/boosting_tree_param.py b/ml/param/boosting_tree_param.py
index a66117e..f74ce58 100644
--- a/ml/param/boosting_tree_param.py
+++ b/ml/param/boosting_tree_param.py
@@ -252,6 +252,10 @@ class BoostingTreeParam(BaseParam):
 
         self.encrypt_param.check()
 
+        self.encrypted_mode_calculator_param.check()
+
+        self.predict_param.check()
+
         if type(self.bin_num).__name__ not in ["int", "long"] or self.bin_num < 2:
             raise ValueError(
                 "boosting tree param's bin_num {} not supported, should be positive integer greater than 1".format(
-- 
2.43.0


From 96c70c770cab6f27a8646842ffff2342b1348ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:47 +0000
Subject: [PATCH 19/23] fix: quantile queries of 500 or more rows could miss
 every sample and return the maximum

A sample's rank uncertainty was one larger than the invariant of the summary allows, so for many ranks no
sample satisfied the query and the largest value was returned as bin boundary.
---
 ml/feature/quantile_summaries.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 3d298dc..17a002a 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -91,8 +91,7 @@ class QuantileSummaries(object):
                                            ops_idx == len(sorted_head) - 1):
                 delta = 0
             else:
-                # delta = math.floor(2 * self.error * current_count) - 1
-                delta = math.floor(2 * self.error * current_count)
+                delta = max(0, math.floor(2 * self.error * current_count) - 1)
 
             new_stats = Stats(current_sample, 1, delta)
             new_sampled.append(new_stats)
-- 
2.43.0


From 018be4183d189bc27baa9c7f340dba5019ba1d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:48 +0000
Subject: [PATCH 20/23] fix: inserting a full buffer dropped all summarised
 samples above its maximum

From the second buffer of 10000 rows on, samples larger than every buffered value were lost from the
quantile summary, which moved bin boundaries arbitrarily far.
---
 ml/feature/quantile_summaries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 17a002a..9fd5bc7 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -96,6 +96,7 @@ class QuantileSummaries(object):
             new_stats = Stats(current_sample, 1, delta)
             new_sampled.append(new_stats)
             ops_idx += 1
+        new_sampled += self.sampled[sample_idx:]
         self.sampled = new_sampled
         self.head_sampled = []
         self.count = current_count
-- 
2.43.0


From bc95dd0b0d494d17e6f5dcc269794819522f5080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 21/23] fix: let the guest listen again on its port right after
 an earlier run ended

---
 federation/transfer_inst.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/federation/transfer_inst.py b/federation/transfer_inst.py
index b7265b9..06bdc59 100644
--- a/federation/transfer_inst.py
+++ b/federation/transfer_inst.py
@@ -64,6 +64,8 @@ class TransferInstGuest(TransferInst):
         max_conn_num = conn_num + 1
 
         self.server_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
+        # without this the port stays unusable for a minute after a run whose connections were closed by the guest
+        self.server_socket.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
         self.server_socket.bind(('', port))
         self.server_socket.listen(max_conn_num)
 
-- 
2.43.0


From 5f669060ab6deefdf648e3bc1cef75136abb9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 22/23] fix: quantiles next to the zeros of a column must not
 jump across them

---
 ml/feature/quantile_summaries.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 9fd5bc7..2200199 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -252,7 +252,11 @@ class SparseQuantileSummaries(QuantileSummaries):
 
         non_zero_quantile = self._convert_query_percentile(quantile)
         result = super(SparseQuantileSummaries, self).query(non_zero_quantile)
-        return result
+
+        # the error of the non zero part must not carry the answer across the zeros to the other side
+        if quantile < self.zero_lower_bound:
+            return min(result, 0.0)
+        return max(result, 0.0)
 
     def merge(self, other):
         self.smaller_num += other.smaller_num
-- 
2.43.0


From d5c9747cb40b1a95fe954a99618eaeda9c5b195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:12 +0000
Subject: [PATCH 23/23] fix: fitting a model again starts it anew instead of
 failing on the state of the first fit

---
 ml/tree/hetero_secureboosting_tree_guest.py | 14 ++++++++++++++
 ml/tree/hetero_secureboosting_tree_host.py  |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/ml/tree/hetero_secureboosting_tree_guest.py b/ml/tree/hetero_secureboosting_tree_guest.py
index 29b8084..20dbab9 100644
--- a/ml/tree/hetero_secureboosting_tree_guest.py
+++ b/ml/tree/hetero_secureboosting_tree_guest.py
@@ -240,8 +240,22 @@ class HeteroSecureBoostingTreeGuest(BoostingTree):
 
             self.F = self.F.join(new_f, accumuldate_f)
 
+    def reset(self):
+        # a model that is fitted again starts anew
+        self.convegence = None
+        self.F = None
+        self.classify_target = "binary"
+        self.feature_num = None
+        self.feature_name_fid_mapping = {}
+        self.tree_dim = 1
+        self.tree_meta = None
+        self.trees_ = []
+        self.history_loss = []
+        self.feature_importances_ = {}
+
     def fit(self, data_instances:DTable):
         self.logger.info("begin to train secureboosting guest model")
+        self.reset()
         self.gen_feature_fid_mapping(data_instances.schema)
         # self.logger.debug("schema is {}".format(data_instances.schema))
         data_instances = self.data_alignment(data_instances)
diff --git a/ml/tree/hetero_secureboosting_tree_host.py b/ml/tree/hetero_secureboosting_tree_host.py
index 1369710..c0a73a8 100644
--- a/ml/tree/hetero_secureboosting_tree_host.py
+++ b/ml/tree/hetero_secureboosting_tree_host.py
@@ -78,6 +78,11 @@ class HeteroSecureBoostingTreeHost(BoostingTree):
 
     def fit(self, data_instances):
         self.logger.info("begin to train secureboosting guest model")
+        # a model that is fitted again starts anew
+        self.feature_num = None
+        self.feature_name_fid_mapping = {}
+        self.tree_meta = None
+        self.trees_ = []
         self.gen_feature_fid_mapping(data_instances.schema)
         self.logger.debug("schema is {}".format(data_instances.schema))
         data_instances = self.data_alignment(data_instances)
-- 
2.43.0

