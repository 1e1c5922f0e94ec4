From 71e10909069401004953df01a75c046f477ac69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 01/22] fix: train and record only a model's own summaries

merge_all() collected the summaries of every model in the graph, so a second
model (or a rebuilt one) in the same graph could not be trained: its summary
op needed the other model's placeholder and variables.
---
 tensorD/factorization/cp.py      |  8 +++++---
 tensorD/factorization/ncp.py     |  8 +++++---
 tensorD/factorization/ntucker.py |  8 +++++---
 tensorD/factorization/pitf.py    |  8 +++++---
 tensorD/factorization/tucker.py  | 15 ++++++++++-----
 5 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 6d58305..43a5f5e 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -40,6 +40,7 @@ class CP_ALS(BaseFact):
         self._full_op = None
         self._factor_update_op = None
         self._loss_op = None
+        self._sum_op = None
         self._obj_op = None
         self._rel_res_op = None
 
@@ -106,8 +107,8 @@ class CP_ALS(BaseFact):
         with tf.name_scope('objective-value') as scope:
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -117,6 +118,7 @@ class CP_ALS(BaseFact):
         self._full_op = full_op
         self._factor_update_op = assign_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -137,7 +139,7 @@ class CP_ALS(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index f67095e..4c41c08 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -38,6 +38,7 @@ class NCP_BCU(BaseFact):
         self._factor_update_op = None
         self._full_op = None
         self._loss_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def predict(self, *key):
@@ -152,8 +153,8 @@ class NCP_BCU(BaseFact):
             with tf.control_dependencies([Am_update_op1[order - 1]]):
                 t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -166,6 +167,7 @@ class NCP_BCU(BaseFact):
         self._factor_update_op = A_update_op
         self._full_op = full_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -187,7 +189,7 @@ class NCP_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 00d3548..fbbf279 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -39,6 +39,7 @@ class NTUCKER_BCU(BaseFact):
         self._factor_update_op = None
         self._full_op = None
         self._loss_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def predict(self, *key):
@@ -181,8 +182,8 @@ class NTUCKER_BCU(BaseFact):
         with tf.control_dependencies([Am_update_op1[order - 1]]):
             t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -198,6 +199,7 @@ class NTUCKER_BCU(BaseFact):
         self._train_op2 = tf.group(*Am_update_op2, gm_update_op2)
         self._full_op = full_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -221,7 +223,7 @@ class NTUCKER_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 1273ce8..b4860e8 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -28,6 +28,7 @@ class PITF(BaseFact):
         self._sample_vector_update_op = None
         self._erate_op = None
         self._loss_op = None
+        self._sum_op = None
         self._e = None
         self._e1 = None
         self._e2 = None
@@ -92,14 +93,15 @@ class PITF(BaseFact):
             y_new = y + delt*e
             sample_vector_update_op = y.assign(y_new)
 
-        tf.summary.scalar('error rate', erate_op)
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('error rate', erate_op),
+                                   tf.summary.scalar('loss', loss_op)])
 
         init_op = tf.global_variables_initializer()
 
         self._args = args
         self._erate_op = erate_op
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._sample_vector_update_op = sample_vector_update_op
         self._init_op = init_op
         self._e = e
@@ -123,7 +125,7 @@ class PITF(BaseFact):
         e1 = self._e1
         e2 = self._e2
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
         sess.run(init_op)
         print('PITF model initial finish')
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 3d2a49a..245cd5a 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -24,6 +24,8 @@ class HOSVD(BaseFact):
         self._init_op = None
         self._core_op = None
         self._factor_update_op = None
+        self._loss_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def build_model(self, args):
@@ -44,7 +46,7 @@ class HOSVD(BaseFact):
         with tf.name_scope('loss') as scope:
             loss_op = rmse_ignore_zero(input_data, full_op)
 
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op)])
 
         self._args = args
         self._init_op = init_op
@@ -52,6 +54,7 @@ class HOSVD(BaseFact):
         self._factor_update_op = A
         self._core_op = g
         self._loss_op = loss_op
+        self._sum_op = sum_op
 
     def train(self, steps=None):
         """
@@ -67,7 +70,7 @@ class HOSVD(BaseFact):
         self._is_train_finish = False
         sess = self._env.sess
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(self._init_op, feed_dict=self._feed_dict)
@@ -124,6 +127,7 @@ class HOOI(BaseFact):
         self._factor_update_op = None
         self._full_op = None
         self._loss_op = None
+        self._sum_op = None
         self._is_train_finish = False
 
     def build_model(self, args):
@@ -173,8 +177,8 @@ class HOOI(BaseFact):
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         self._args = args
         self._init_op = init_op
@@ -182,6 +186,7 @@ class HOOI(BaseFact):
         self._factor_update_op = assign_op
         self._core_op = g
         self._loss_op = loss_op
+        self._sum_op = sum_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
@@ -217,7 +222,7 @@ class HOOI(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
-- 
2.43.0


From 04a2cf7369735b71e1ace42032fc9b7ef0890315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 02/22] fix: keep the reconstruction in step with the factors
 on every iteration

Iterations that are not monitored updated the factors but not the full tensor,
so a run stopped by its tolerance (or failing) on such an iteration reported
the reconstruction of an older one.
---
 tensorD/factorization/cp.py      | 4 ++--
 tensorD/factorization/ncp.py     | 4 ++--
 tensorD/factorization/ntucker.py | 4 ++--
 tensorD/factorization/tucker.py  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 43a5f5e..b2c6749 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -157,8 +157,8 @@ class CP_ALS(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._lambdas, loss_v, obj, rel_res = sess.run([factor_update_op, lambda_op, loss_op, obj_op, rel_res_op],
-                                                                feed_dict=self._feed_dict)
+                self._factors, self._lambdas, self._full_tensor, loss_v, obj, rel_res = sess.run(
+                    [factor_update_op, lambda_op, full_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 4c41c08..37b54bd 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -209,8 +209,8 @@ class NCP_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
 
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index fbbf279..6665279 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -244,8 +244,8 @@ class NTUCKER_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 245cd5a..4a35e33 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -239,8 +239,8 @@ class HOOI(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._core, loss_v, obj, rel_res = sess.run([factor_update_op, core_op, loss_op, obj_op, rel_res_op],
-                                                             feed_dict=self._feed_dict)
+                self._full_tensor, self._factors, self._core, loss_v, obj, rel_res = sess.run(
+                    [full_op, factor_update_op, core_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
-- 
2.43.0


From 4e4667329a7b2341b6b46086415f61e13658f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 03/22] fix: let predict work on a trained model

'if not self._full_tensor' raises ValueError for any tensor with more than one
entry, so predict failed exactly when the model was trained.
---
 tensorD/factorization/cp.py      | 2 +-
 tensorD/factorization/ncp.py     | 2 +-
 tensorD/factorization/ntucker.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index b2c6749..51856f3 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -45,7 +45,7 @@ class CP_ALS(BaseFact):
         self._rel_res_op = None
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 37b54bd..93d5031 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -42,7 +42,7 @@ class NCP_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 6665279..0880788 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -43,7 +43,7 @@ class NTUCKER_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
-- 
2.43.0


From 97a759c21176d0b921b1c00390fe743cc08cb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 04/22] fix: publish the non-negative Tucker core together with
 its factors

The core was stored before the factor update ran; when that failed or was
interrupted the model reported the new core with the previous factors.
---
 tensorD/factorization/ntucker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 0880788..2c34043 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -232,7 +232,7 @@ class NTUCKER_BCU(BaseFact):
         print('Non-Negative Tucker model initial finish')
 
         for step in range(1, steps + 1):
-            self._core, _ = sess.run([core_update_op, core_train_op], feed_dict=self._feed_dict)
+            core, _ = sess.run([core_update_op, core_train_op], feed_dict=self._feed_dict)
             if (step == steps) or (args.verbose) or (step == 1) or (
                                 step % args.validation_internal == 0 and args.validation_internal != -1):
                 run_options = tf.RunOptions(trace_level=tf.RunOptions.FULL_TRACE)
@@ -240,12 +240,14 @@ class NTUCKER_BCU(BaseFact):
                 self._factors, self._full_tensor, loss_v, obj, rel_res, sum_msg, _ = sess.run(
                     [factor_update_op, full_op, loss_op, obj_op, rel_res_op, sum_op, train_op],
                     feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
+                self._core = core
                 sum_writer.add_run_metadata(run_metadata, 'step%d' % step)
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
                 self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
                     [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._core = core
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
-- 
2.43.0


From a6ee54fca09fd13d9b457b1dca36b5ceb1185bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 05/22] fix: report the non-negative CP weights together with
 the factors

The weights were only set at the end of a completed training; after a failed
one the new factors came with no weights, or with those of an earlier model of
another rank.
---
 tensorD/factorization/ncp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 93d5031..472cc65 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -205,12 +205,14 @@ class NCP_BCU(BaseFact):
                 self._factors, self._full_tensor, loss_v, obj, rel_res, sum_msg, _ = sess.run(
                     [factor_update_op, full_op, loss_op, obj_op, rel_res_op, sum_op, train_op],
                     feed_dict=self._feed_dict, options=run_options, run_metadata=run_metadata)
+                self._lambdas = np.ones(shape=(1, args.rank))
                 sum_writer.add_run_metadata(run_metadata, 'step%d' % step)
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
                 self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
                     [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._lambdas = np.ones(shape=(1, args.rank))
 
             if step == 1:
                 obj0 = obj + 1
@@ -232,8 +234,6 @@ class NCP_BCU(BaseFact):
             else:
                 sess.run(train_op2)
 
-        self._lambdas = np.ones(shape=(1, args.rank))
-
         print('Non-Negative CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
         return hist
-- 
2.43.0


From 29fae3973efb6b47a18a0bc76a0f721c1342aa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 06/22] fix: a repeated HOOI or PITF training is not finished
 until it is

Unlike the other models these two kept reporting the earlier training's
finished flag while training again, and after a failed repetition.
---
 tensorD/factorization/pitf.py   | 2 ++
 tensorD/factorization/tucker.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index b4860e8..93921d2 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -115,6 +115,8 @@ class PITF(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
+
         sess = self._env.sess
         args = self._args
         init_op = self._init_op
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 4a35e33..61b4b82 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -210,6 +210,8 @@ class HOOI(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
+
         sess = self._env.sess
         args = self._args
 
-- 
2.43.0


From 1d8362a9ecd4fc8c3005349adc6d6cc25455def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 07/22] fix: close the session, summary writer and trace files
 of every training

Each train() left its session and its FileWriter (a thread and an open event
file with unflushed records) behind; the last summaries of a run were lost when
the process ended without an orderly exit, and write errors went unnoticed.
PITF's trace files also stayed open when training failed.
---
 tensorD/factorization/cp.py            |  7 +------
 tensorD/factorization/factorization.py | 10 ++++++++++
 tensorD/factorization/ncp.py           |  7 +------
 tensorD/factorization/ntucker.py       |  7 +------
 tensorD/factorization/pitf.py          | 14 ++++----------
 tensorD/factorization/tucker.py        | 13 ++-----------
 6 files changed, 19 insertions(+), 39 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 51856f3..563ec1e 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -123,10 +123,7 @@ class CP_ALS(BaseFact):
         self._rel_res_op = rel_res_op
 
 
-    def train(self, steps):
-        self._is_train_finish = False
-
-        sess = self._env.sess
+    def _train(self, sess, sum_writer, steps):
         args = self._args
 
         init_op = self._init_op
@@ -140,7 +137,6 @@ class CP_ALS(BaseFact):
         hist = []
 
         sum_op = self._sum_op
-        sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
         nstall = 0
@@ -175,5 +171,4 @@ class CP_ALS(BaseFact):
 
 
         print('CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
-        self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/factorization.py b/tensorD/factorization/factorization.py
index 9dbfae6..415f23e 100644
--- a/tensorD/factorization/factorization.py
+++ b/tensorD/factorization/factorization.py
@@ -1,5 +1,7 @@
 # Created by ay27 at 17/6/2
 import pickle
+from contextlib import closing
+import tensorflow as tf
 
 
 class Model(object):
@@ -27,6 +29,14 @@ class BaseFact(object):
         raise NotImplementedError
 
     def train(self, steps=None):
+        self._is_train_finish = False
+        with closing(self._env.sess) as sess:
+            with closing(tf.summary.FileWriter(self._env.summary_path, sess.graph)) as sum_writer:
+                hist = self._train(sess, sum_writer, steps)
+        self._is_train_finish = True
+        return hist
+
+    def _train(self, sess, sum_writer, steps):
         raise NotImplementedError
 
     def predict(self, *key):
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 472cc65..342e2c6 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -171,10 +171,7 @@ class NCP_BCU(BaseFact):
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
-    def train(self, steps):
-        self._is_train_finish = False
-
-        sess = self._env.sess
+    def _train(self, sess, sum_writer, steps):
         args = self._args
 
         init_op = self._init_op
@@ -190,7 +187,6 @@ class NCP_BCU(BaseFact):
         hist = []
 
         sum_op = self._sum_op
-        sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
         sess.run(other_init_op, feed_dict=self._feed_dict)
@@ -235,5 +231,4 @@ class NCP_BCU(BaseFact):
                 sess.run(train_op2)
 
         print('Non-Negative CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
-        self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 2c34043..13d0bc8 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -203,10 +203,7 @@ class NTUCKER_BCU(BaseFact):
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
 
-    def train(self, steps):
-        self._is_train_finish = False
-
-        sess = self._env.sess
+    def _train(self, sess, sum_writer, steps):
         args = self._args
 
         init_op = self._init_op
@@ -224,7 +221,6 @@ class NTUCKER_BCU(BaseFact):
         hist = []
 
         sum_op = self._sum_op
-        sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
         sess.run(other_init_op, feed_dict=self._feed_dict)
@@ -269,5 +265,4 @@ class NTUCKER_BCU(BaseFact):
                 sess.run(train_op2)
 
         print('Non-Negative Tucker model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
-        self._is_train_finish = True
         return hist
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 93921d2..2e57a90 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -114,10 +114,11 @@ class PITF(BaseFact):
     def train_finish(self):
         return self._is_train_finish
 
-    def train(self, steps):
-        self._is_train_finish = False
+    def _train(self, sess, sum_writer, steps):
+        with open('pitf_y.txt', 'w') as f1, open('pitf_e2.txt', 'w') as f2:
+            return self._train_steps(sess, sum_writer, steps, f1, f2)
 
-        sess = self._env.sess
+    def _train_steps(self, sess, sum_writer, steps, f1, f2):
         args = self._args
         init_op = self._init_op
         sample_vector_update_op = self._sample_vector_update_op
@@ -128,13 +129,9 @@ class PITF(BaseFact):
         e2 = self._e2
 
         sum_op = self._sum_op
-        sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
         sess.run(init_op)
         print('PITF model initial finish')
 
-        f1 = open('pitf_y.txt', 'w')
-        f2 = open('pitf_e2.txt', 'w')
-
         for step in range(1, steps+1):
             if (step == steps) or (step == 1) or (step % args.validation_internal == 0 and args.validation_internal !=-1):
                 # ea, e1a, e2a,
@@ -152,8 +149,5 @@ class PITF(BaseFact):
                 print('???')
 
         print('tarin finish,with RMSE=%.15f error rate=%.15f' % (loss_v, erate_v))
-        self._is_train_finish = True
-        f1.close()
-        f2.close()
 
 
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 61b4b82..b0eca95 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -56,7 +56,7 @@ class HOSVD(BaseFact):
         self._loss_op = loss_op
         self._sum_op = sum_op
 
-    def train(self, steps=None):
+    def _train(self, sess, sum_writer, steps):
         """
 
         Parameters
@@ -67,11 +67,8 @@ class HOSVD(BaseFact):
         -------
 
         """
-        self._is_train_finish = False
-        sess = self._env.sess
 
         sum_op = self._sum_op
-        sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(self._init_op, feed_dict=self._feed_dict)
         print('HOSVD model initial finish')
@@ -85,7 +82,6 @@ class HOSVD(BaseFact):
         sum_writer.add_run_metadata(run_metadata, 'step1')
         sum_writer.add_summary(sum_msg, 1)
         print('HOSVD model train finish, with RMSE = %f' % loss_v)
-        self._is_train_finish = True
 
     def predict(self, *key):
         return self._full_tensor.item(key)
@@ -209,10 +205,7 @@ class HOOI(BaseFact):
     def train_finish(self):
         return self._is_train_finish
 
-    def train(self, steps):
-        self._is_train_finish = False
-
-        sess = self._env.sess
+    def _train(self, sess, sum_writer, steps):
         args = self._args
 
         init_op = self._init_op
@@ -225,7 +218,6 @@ class HOOI(BaseFact):
         hist = []
 
         sum_op = self._sum_op
-        sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
         nstall = 0
@@ -258,5 +250,4 @@ class HOOI(BaseFact):
                 break
 
         print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
-        self._is_train_finish = True
         return hist
-- 
2.43.0


From 44c270b52612809f3dfb0245db3f4464914934e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 08/22] fix: close the trace files of PITF_np when recovery
 fails

Also drop the session it opened, never used and never closed.
---
 tensorD/factorization/pitf_numpy.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/tensorD/factorization/pitf_numpy.py b/tensorD/factorization/pitf_numpy.py
index 0f7d17e..b4ee822 100644
--- a/tensorD/factorization/pitf_numpy.py
+++ b/tensorD/factorization/pitf_numpy.py
@@ -36,7 +36,10 @@ class PITF_np(BaseFact):
 
     def exact_recovery(self, args,tensor):
         assert isinstance(args, PITF_np.PITF_np_Args)
-        sess = self._env.sess
+        with open('np_e2.txt', 'w') as f1, open('np_y.txt', 'w') as f2, open('np_X.txt', 'w') as f3:
+            return self._recover(args, tensor, f1, f2, f3)
+
+    def _recover(self, args, tensor, f1, f2, f3):
         #tensor = self._env.full_data()
         #shape = tensor.get_shape().as_list()
         shape = np.shape(tensor)
@@ -66,10 +69,6 @@ class PITF_np(BaseFact):
         print('delt:', delt)
         print('m/d:', spn / fd)
 
-        f1 = open('np_e2.txt', 'w')
-        f2 = open('np_y.txt', 'w')
-        f3 = open('np_X.txt', 'w')
-
         for i in range(steps):
 
             X = pitf_ops_numpy.shrink(pitf_ops_numpy.adjoint_operator(sample_list, y, shape, spn, 0), tao, mode='complicated')
@@ -123,9 +122,6 @@ class PITF_np(BaseFact):
 
         # matlist = [X, Y, Z]
         # return matlist
-        f1.close()
-        f2.close()
-        f3.close()
         return y, X, Y, Z, If, Ef, Rf
 
 
-- 
2.43.0


From e1d3587bd02614bffeebdce230beda71f6120621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 09/22] fix: write no summaries when the environment has no
 summary path

The writer was created all the same and put its event file into a directory
called 'None' below the current one.
---
 tensorD/factorization/env.py           | 20 ++++++++++++++++++++
 tensorD/factorization/factorization.py |  3 +--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/tensorD/factorization/env.py b/tensorD/factorization/env.py
index bfbad33..c704717 100644
--- a/tensorD/factorization/env.py
+++ b/tensorD/factorization/env.py
@@ -2,6 +2,21 @@
 import tensorflow as tf
 
 
+class NoSummaryWriter(object):
+    """
+    Stands in for the summary writer when there is no summary path.
+    """
+
+    def add_summary(self, summary, global_step=None):
+        pass
+
+    def add_run_metadata(self, run_metadata, tag, global_step=None):
+        pass
+
+    def close(self):
+        pass
+
+
 class Environment(object):
     def __init__(self, data_provider, summary_path=None):
         self._data_provider = data_provider
@@ -28,6 +43,11 @@ class Environment(object):
     def summary_path(self):
         return self._sum_path
 
+    def summary_writer(self, graph):
+        if self._sum_path is None:
+            return NoSummaryWriter()
+        return tf.summary.FileWriter(self._sum_path, graph)
+
     @property
     def sess(self):
         return tf.Session()
diff --git a/tensorD/factorization/factorization.py b/tensorD/factorization/factorization.py
index 415f23e..02ff335 100644
--- a/tensorD/factorization/factorization.py
+++ b/tensorD/factorization/factorization.py
@@ -1,7 +1,6 @@
 # Created by ay27 at 17/6/2
 import pickle
 from contextlib import closing
-import tensorflow as tf
 
 
 class Model(object):
@@ -31,7 +30,7 @@ class BaseFact(object):
     def train(self, steps=None):
         self._is_train_finish = False
         with closing(self._env.sess) as sess:
-            with closing(tf.summary.FileWriter(self._env.summary_path, sess.graph)) as sum_writer:
+            with closing(self._env.summary_writer(sess.graph)) as sum_writer:
                 hist = self._train(sess, sum_writer, steps)
         self._is_train_finish = True
         return hist
-- 
2.43.0


From 04f7b8a80d78fd2bd55ea833d29d8fbfd84953bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 10/22] fix: let the PITF graph build (shape of the third
 pairwise matrix)

---
 tensorD/base/pitf_ops.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 6d3e7fa..a3a8ebe 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -414,8 +414,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         indices = tf.cast(indices, dtype=tf.int64)
         values = tf.cast(values, dtype=sample_vec.dtype)
         shape_t = tf.cast(shape, dtype=tf.int64)
-        shape_t_re = shape_t[::-1]
-        mat_shape = shape_t_re[0:3:2]
+        mat_shape = tf.stack([shape_t[2], shape_t[0]])
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
         delta = tf.SparseTensor(indices, values, mat_shape)
         dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_3')
-- 
2.43.0


From e5742c40f02ab80e17486c033c7447ca0b2e2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 11/22] fix: rebuild the shrunk PITF matrix with V transposed

---
 tensorD/base/pitf_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index a3a8ebe..01459a1 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -649,14 +649,14 @@ def shrink(mat, tao, mode='normal'):
     # print('shrink s2d done.')
     if mode == 'normal':
         print('shrink normal')
-        return tf.matmul(tf.matmul(u, sm), v)
+        return tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
 
     if mode == 'complicated':
         vecr1 = tf.ones((shape[0], 1))
         vecr2 = tf.ones((shape[1], 1))
         delta_num = tf.div(tf.matmul(tf.matmul(tf.transpose(vecr1), mat), vecr2), tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                       dtype=mat.dtype)), name='delta_num')
-        tmp1 = tf.matmul(tf.matmul(u, sm), v)
+        tmp1 = tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
         tmp2 = (tf.maximum(tf.cast(0, dtype=mat.dtype), delta_num-tao)
                 +tf.minimum(tf.cast(0, dtype=mat.dtype), delta_num+tao))*tf.ones(shape)/tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                                       dtype=mat.dtype))
-- 
2.43.0


From d566d92be0be1d30b6281119adb919e2ae4dc2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 12/22] fix: keep one PITF sample for a whole training

---
 tensorD/factorization/pitf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 2e57a90..9f257b3 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -46,7 +46,9 @@ class PITF(BaseFact):
                           name='tao')
         y = tf.Variable(np.zeros(spn), dtype=tensor.dtype, name='y_sample_vector')
         a, b, c = pitf_ops.sample3D_rule(shape, spn)  # sample list
-        spl = [a, b, c]
+        # drawn when the training initialises its variables, the same positions for all of its steps
+        spl = [tf.Variable(positions, trainable=False, name='sample_positions_%d' % i) for i, positions in
+               enumerate((a, b, c))]
         # # degree pf freedom
         # fd = r*(shape[0]+shape[1]-r)+r*(shape[1]+shape[2]-r) + \
         #      r*(shape[2]+shape[0]-r)
-- 
2.43.0


From e34239c767162fb53df25d9ca59036c1887a5da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 13/22] fix: close the tensor file when reading it fails

---
 tensorD/dataproc/reader.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/tensorD/dataproc/reader.py b/tensorD/dataproc/reader.py
index 43afc39..69a3c85 100644
--- a/tensorD/dataproc/reader.py
+++ b/tensorD/dataproc/reader.py
@@ -30,15 +30,14 @@ class TensorReader(object):
         self._type = self._file_path.split('.')[-1]
 
     def read(self, full_shape=None):
-        file = open(self._file_path, 'r')
-        str_in = []
-        if self._type == 'csv' or self._type == 'txt':
-            for row in csv.reader(file):
-                if len(row) != 0:
-                    str_in.append(row)
-        else:
-            raise ArgumentError(self._type + ' file is not supported by TensorReader.')
-        file.close()
+        with open(self._file_path, 'r') as file:
+            str_in = []
+            if self._type == 'csv' or self._type == 'txt':
+                for row in csv.reader(file):
+                    if len(row) != 0:
+                        str_in.append(row)
+            else:
+                raise ArgumentError(self._type + ' file is not supported by TensorReader.')
 
         order = len(str_in[0]) - 1
         entry_count = len(str_in)
-- 
2.43.0


From 02e7911185fdd6cfde49b976e85e30fbee35b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 14/22] fix: reject tensor file rows with missing or extra
 fields

---
 tensorD/dataproc/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensorD/dataproc/reader.py b/tensorD/dataproc/reader.py
index 69a3c85..49905c8 100644
--- a/tensorD/dataproc/reader.py
+++ b/tensorD/dataproc/reader.py
@@ -45,6 +45,8 @@ class TensorReader(object):
         idx = np.zeros(shape=(entry_count, order), dtype=int)
         for row in range(entry_count):
             entry = str_in[row]
+            if len(entry) != order + 1:
+                raise ValueError('entry %d of %s has %d fields, not %d' % (row, self._file_path, len(entry), order + 1))
             idx[row] = np.array([int(entry[mode]) for mode in range(order)])
             value[row] = float(entry[-1])
 
-- 
2.43.0


From a327b38dc02427b63ea04233878207976828f505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 15/22] fix: unfold a dense tensor along the mode asked for

---
 tensorD/base/type.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index 155403d..c7f57c0 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -48,8 +48,7 @@ class DTensor(object):
         return DTensor(ops.mul(self.T, tensor.T, a_axis, b_axis))
 
     def unfold(self, mode=0):
-        if self.unfold_T is None:
-            self.unfold_T = ops.unfold(self.T, mode)
+        self.unfold_T = ops.unfold(self.T, mode)
         return DTensor(self.unfold_T)
 
     def t2mat(self, r_axis, c_axis):
-- 
2.43.0


From b508218dfb6fdd4cb061fb0328e1ee571a29dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 16/22] fix: leave the caller's axis list alone in t2mat

---
 tensorD/base/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index 1e22183..26833d0 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -151,7 +151,7 @@ def t2mat(tensor, r_axis, c_axis):
             indies = [r_axis]
             row_size = tensor.get_shape()[r_axis].value
         else:
-            indies = r_axis
+            indies = list(r_axis)
             row_size = np.prod([tensor.get_shape()[i].value for i in r_axis])
         if c_axis == -1:
             c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]
-- 
2.43.0


From 55355568418c2b0b5934984c7f314018c5087640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 17/22] fix: monitor every PITF step when verbose

---
 tensorD/factorization/pitf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 9f257b3..b18a771 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -135,7 +135,7 @@ class PITF(BaseFact):
         print('PITF model initial finish')
 
         for step in range(1, steps+1):
-            if (step == steps) or (step == 1) or (step % args.validation_internal == 0 and args.validation_internal !=-1):
+            if (step == steps) or (args.verbose) or (step == 1) or (step % args.validation_internal == 0 and args.validation_internal !=-1):
                 # ea, e1a, e2a,
                 e2a, loss_v, erate_v, self._sample_vector, sum_msg = sess.run([e2, loss_op, erate_op,
                                                                               sample_vector_update_op, sum_op])
-- 
2.43.0


From b8e40afacafa6685384b9ddb1503bdb593d74c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 18/22] fix: keep CP-ALS from amplifying rounding noise when
 its components are collinear

---
 tensorD/factorization/cp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 563ec1e..3c1e353 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -8,6 +8,14 @@ from .factorization import Model, BaseFact
 from .env import Environment
 
 
+def _pinv(V):
+    # With the columns brought to one scale, singular values below the precision of V are rounding noise.
+    d = np.sqrt(np.diag(V))
+    d[d == 0] = 1
+    scale = np.outer(d, d)
+    return np.linalg.pinv(V / scale, rcond=max(V.shape) * np.finfo(V.dtype).eps) / scale
+
+
 class CP_ALS(BaseFact):
     class CP_Args(object):
         def __init__(self,
@@ -91,7 +99,7 @@ class CP_ALS(BaseFact):
                 XA = tf.matmul(mats[mode], ops.khatri(A, mode, True), name='XA-%d' % mode)
 
             V = ops.hadamard(AtA, skip_matrices_index=mode)
-            non_norm_A = tf.matmul(XA, tf.py_func(np.linalg.pinv, [V], tf.float32, name='pinvV-%d' % mode),
+            non_norm_A = tf.matmul(XA, tf.py_func(_pinv, [V], tf.float32, name='pinvV-%d' % mode),
                                    name='XApinvV-%d' % mode)
             with tf.name_scope('max-norm-%d' % mode) as scope:
                 lambda_op = tf.reduce_max(tf.reshape(non_norm_A, shape=(shape[mode], args.rank)), axis=0)
-- 
2.43.0


From b9962bb007d035b333537827beb454bc3f24528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:20 +0000
Subject: [PATCH 19/22] fix: keep the non-negative models finite when a factor
 vanishes

---
 tensorD/factorization/ncp.py     | 4 +++-
 tensorD/factorization/ntucker.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 342e2c6..ab0b64d 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -119,7 +119,9 @@ class NCP_BCU(BaseFact):
                 V = ops.hadamard(AtA, skip_matrices_index=mode)
             L0_update_op[mode] = L0[mode].assign(L[mode])
             with tf.control_dependencies([L0_update_op[mode]]):
-                L_update_op[mode] = L[mode].assign(tf.reduce_max(tf.svd(V, compute_uv=False)))
+                # never zero: a factor may vanish
+                L_update_op[mode] = L[mode].assign(
+                    tf.maximum(tf.reduce_max(tf.svd(V, compute_uv=False)), np.finfo(np.float32).tiny))
             Gn = tf.subtract(tf.matmul(Am[mode], V), XA, name='G-%d' % mode)
             with tf.name_scope('A-update-%d' % mode) as scope:
                 A_update_op[mode] = A[mode].assign(tf.nn.relu(tf.subtract(Am[mode], tf.div(Gn, L_update_op[mode]))))
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 13d0bc8..0c96e10 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -128,7 +128,9 @@ class NTUCKER_BCU(BaseFact):
         with tf.name_scope('core-update') as scope:
             L0_update_op[order] = L0[order].assign(L[order])
             with tf.control_dependencies([L0_update_op[order]]):
-                L_update_op[order] = L[order].assign(ops.max_single_value_mul(AtA_g))
+                # never zero: a factor may vanish
+                L_update_op[order] = L[order].assign(
+                    tf.maximum(ops.max_single_value_mul(AtA_g), np.finfo(np.float32).tiny))
             Bsq_update_op_g = Bsq.assign(ops.ttm(gm, AtA_g))
             Grad_g_update_op = Grad_g.assign(Bsq_update_op_g - ops.ttm(input_data, A, transpose=True))
             g_update_op = g.assign(tf.nn.relu(gm - Grad_g_update_op / L_update_op[order]))
@@ -147,7 +149,8 @@ class NTUCKER_BCU(BaseFact):
             with tf.name_scope('A-update-%d' % mode) as scope:
                 L0_update_op[mode] = L0[mode].assign(L[mode])
                 with tf.control_dependencies([L0_update_op[mode]]):
-                    L_update_op[mode] = L[mode].assign(tf.reduce_max(tf.svd(Bsq_A, compute_uv=False)))
+                    L_update_op[mode] = L[mode].assign(
+                        tf.maximum(tf.reduce_max(tf.svd(Bsq_A, compute_uv=False)), np.finfo(np.float32).tiny))
                 A_update_op[mode] = A[mode].assign(tf.nn.relu(tf.subtract(Am[mode], tf.div(GradA, L_update_op[mode]))))
 
         with tf.name_scope('full-tensor') as scope:
-- 
2.43.0


From ec09f9022a7f66102d5ac273120c6b22fba6acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 20/22] fix: keep CP-ALS finite when the largest entry of a
 factor's column is zero

---
 tensorD/factorization/cp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 3c1e353..3af168d 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -103,6 +103,8 @@ class CP_ALS(BaseFact):
                                    name='XApinvV-%d' % mode)
             with tf.name_scope('max-norm-%d' % mode) as scope:
                 lambda_op = tf.reduce_max(tf.reshape(non_norm_A, shape=(shape[mode], args.rank)), axis=0)
+                # a column whose largest entry is zero stays as it is
+                lambda_op = tf.where(tf.equal(lambda_op, 0), tf.ones_like(lambda_op), lambda_op)
                 assign_op[mode] = A[mode].assign(tf.div(non_norm_A, lambda_op))
 
         with tf.name_scope('full-tensor') as scope:
-- 
2.43.0


From 51f6a5a7634ac2e4d366b999c95ee5183b599980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 21/22] fix: do not divide a CP-ALS factor's column by a
 maximum that is zero up to rounding

---
 tensorD/factorization/cp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 3af168d..d94ee8f 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -103,8 +103,9 @@ class CP_ALS(BaseFact):
                                    name='XApinvV-%d' % mode)
             with tf.name_scope('max-norm-%d' % mode) as scope:
                 lambda_op = tf.reduce_max(tf.reshape(non_norm_A, shape=(shape[mode], args.rank)), axis=0)
-                # a column whose largest entry is zero stays as it is
-                lambda_op = tf.where(tf.equal(lambda_op, 0), tf.ones_like(lambda_op), lambda_op)
+                # a column whose largest entry is zero, to the precision of the column, stays as it is
+                none = np.finfo(np.float32).eps * tf.reduce_max(tf.abs(non_norm_A), axis=0)
+                lambda_op = tf.where(tf.abs(lambda_op) <= none, tf.ones_like(lambda_op), lambda_op)
                 assign_op[mode] = A[mode].assign(tf.div(non_norm_A, lambda_op))
 
         with tf.name_scope('full-tensor') as scope:
-- 
2.43.0


From 022f3060bfb56eaf999843b7e593342ea2dc53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 22/22] fix: let the cone projection of a graph tensor be built

---
 tensorD/base/pitf_ops.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 01459a1..1d0b923 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -545,13 +545,11 @@ def cone_projection_operator(x, t):
     >>> tf.Session().run(t1)
     """
     norm_x = tf.norm(x, ord='euclidean')
-    if norm_x <= t:
-        return x, t
-    if t <= tf.negative(norm_x):
-        return 0, 0
-    if t >= tf.negative(norm_x) and t <= norm_x:
-        tmp = (norm_x + t)/(2 * norm_x)
-        return tmp*x, tmp*norm_x
+    t = tf.cast(t, dtype=norm_x.dtype)
+    inside = norm_x <= t
+    tmp = (norm_x + t)/(2 * norm_x)
+    tmp = tf.where(inside, tf.ones_like(tmp), tf.where(t <= tf.negative(norm_x), tf.zeros_like(tmp), tmp))
+    return tmp*x, tf.where(inside, t, tmp*norm_x)
 
 
 def SVT(mat, tao):
-- 
2.43.0

