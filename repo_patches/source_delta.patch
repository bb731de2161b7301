From a236c3f9a1a53134ae5f9575dd4564ce420325ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:34 +0000
Subject: [PATCH 01/42] fix: initializers crash on numpy >= 1.24, which removed
 the np.int alias

Every shape and rank conversion in initializers.py used np.int. Use the
builtin int, which np.int was an alias of.
---
 t3f/initializers.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 4d7cb71..0a84c82 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -84,7 +84,7 @@ def tensor_ones(shape, dtype=tf.float32, name='t3f_tensor_ones'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -110,7 +110,7 @@ def tensor_zeros(shape, dtype=tf.float32, name='t3f_tensor_zeros'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
   tt_cores = num_dims * [None]
   with tf.name_scope(name):
     for i in range(num_dims):
@@ -138,7 +138,7 @@ def eye(shape, dtype=tf.float32, name='t3f_eye'):
   _validate_input_parameters(is_tensor=True, shape=shape)
 
   num_dims = shape.size
-  tt_ranks = np.ones(num_dims + 1, dtype=np.int)
+  tt_ranks = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -182,7 +182,7 @@ def matrix_ones(shape, dtype=tf.float32, name='t3f_matrix_ones'):
   _validate_input_parameters(is_tensor=False, shape=shape)
 
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -224,7 +224,7 @@ def matrix_zeros(shape, dtype=tf.float32, name='t3f_matrix_zeros'):
 
   _validate_input_parameters(is_tensor=False, shape=shape)
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -261,7 +261,7 @@ def tensor_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
   _validate_input_parameters(is_tensor=True, shape=shape, tt_rank=tt_rank)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -304,7 +304,7 @@ def tensor_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -359,7 +359,7 @@ def matrix_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -417,7 +417,7 @@ def matrix_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
   shape = shape.astype(int)
   tt_rank = tt_rank.astype(int)
@@ -522,7 +522,7 @@ def random_tensor(shape, tt_rank=2, mean=0., stddev=1., dtype=tf.float32,
 
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -580,7 +580,7 @@ def random_tensor_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -647,7 +647,7 @@ def random_matrix(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -718,7 +718,7 @@ def random_matrix_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   shape = shape.astype(int)
-- 
2.43.0


From 3929c55b45a60afd7648dba404b36520a9a86416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:14 +0000
Subject: [PATCH 02/42] fix: shapes of one-dimensional tensors and one-core
 matrices are mangled

clean_raw_shape squeezed the shape, so (5,) became a 0-d array (TypeError)
and ((3,), (4,)) turned into the shape of a 3 x 4 TT-tensor.
---
 t3f/shapes.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index de13d94..c7e243f 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -220,10 +220,7 @@ def clean_raw_shape(shape, name='t3f_clean_raw_shape'):
     else:
       np_shape = np.array(shape)
       # Make sure that the shape is 2-d array both for tensors and TT-matrices.
-      np_shape = np.squeeze(np_shape)
-      if len(np_shape.shape) == 1:
-        # A tensor.
-        np_shape = [np_shape]
+      np_shape = np.atleast_2d(np_shape)
       shape = []
       for i in range(len(np_shape)):
         shape.append(tf.TensorShape(np_shape[i]))
-- 
2.43.0


From 9e0819371e24b8fe4872f810d41662419e01538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:51 +0000
Subject: [PATCH 03/42] fix: adding a TensorTrainBatch to a TensorTrain raises
 ValueError

add() asked the TensorTrain for its batch size whenever the left argument
was a TensorTrain, or the left argument was a one-element batch and the
right one a TensorTrain. Expand both arguments to batches first.
---
 t3f/ops.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 86be42e..ae56bf5 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -579,14 +579,14 @@ def _add_batch_tensor_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  tt_a = shapes.expand_batch_dim(tt_a)
+  tt_b = shapes.expand_batch_dim(tt_b)
+  if tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
     batch_size = shapes.lazy_batch_size(tt_a)
-  tt_a = shapes.expand_batch_dim(tt_a)
-  tt_b = shapes.expand_batch_dim(tt_b)
   tt_cores = []
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
@@ -651,14 +651,14 @@ def _add_batch_matrix_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  tt_a = shapes.expand_batch_dim(tt_a)
+  tt_b = shapes.expand_batch_dim(tt_b)
+  if tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
     batch_size = shapes.lazy_batch_size(tt_a)
-  tt_a = shapes.expand_batch_dim(tt_a)
-  tt_b = shapes.expand_batch_dim(tt_b)
   tt_cores = []
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
-- 
2.43.0


From b42d2e35cc84975f827c3d5647d6ee7d9940c0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:51 +0000
Subject: [PATCH 04/42] fix: adding one-dimensional TensorTrains raises
 ValueError

The first TT-core is concatenated along its right TT-rank, but when it is
also the last one that rank has to stay 1.
---
 t3f/ops.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index ae56bf5..a625ea7 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -722,7 +722,13 @@ def add(tt_a, tt_b, name='t3f_add'):
     is_b_batch = isinstance(tt_b, TensorTrainBatch)
     is_batch_case = is_a_batch or is_b_batch
     batch_size = None
-    if is_batch_case:
+    if ndims == 1:
+      # The only TT-core is both the first and the last one, there are no
+      # TT-ranks to stack along.
+      tt_cores = [tt_a.tt_cores[0] + tt_b.tt_cores[0]]
+      if is_batch_case:
+        batch_size = tt_cores[0].get_shape()[0]
+    elif is_batch_case:
       if tt_a.is_tt_matrix():
         tt_cores, batch_size = _add_batch_matrix_cores(tt_a, tt_b)
       else:
-- 
2.43.0


From bfbe51e7b3a1ed67e6b5d452845545ec022576a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:51 +0000
Subject: [PATCH 05/42] fix: bilinear_form fails when only one of the vectors
 is a batch

Whether c is a batch was decided by looking at b.
---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index a625ea7..115c45d 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1089,7 +1089,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     raise ValueError('The arguments should be a TT-matrix.')
 
   b_is_batch = isinstance(b, TensorTrainBatch)
-  c_is_batch = isinstance(b, TensorTrainBatch)
+  c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
   c_bs_str = 'p' if c_is_batch else ''
   out_bs_str = 'p' if b_is_batch or c_is_batch else ''
-- 
2.43.0


From ca78d5d7aa735dfe92ee9479e9a58e1c066389e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:51 +0000
Subject: [PATCH 06/42] fix: bilinear_form_two_mat is wrong for batches

The batch axis shared the einsum letter p with the axis between A and B, so
a batch either failed or silently took a diagonal instead of contracting.
Whether y is a batch was decided by looking at x.
---
 t3f/ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 115c45d..fd92d5d 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1154,10 +1154,10 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
       raise ValueError('The arguments should be a TT-matrix.')
 
   x_is_batch = isinstance(x, TensorTrainBatch)
-  y_is_batch = isinstance(x, TensorTrainBatch)
-  x_bs_str = 'p' if x_is_batch else ''
-  y_bs_str = 'p' if y_is_batch else ''
-  out_bs_str = 'p' if x_is_batch or y_is_batch else ''
+  y_is_batch = isinstance(y, TensorTrainBatch)
+  x_bs_str = 'q' if x_is_batch else ''
+  y_bs_str = 'q' if y_is_batch else ''
+  out_bs_str = 'q' if x_is_batch or y_is_batch else ''
   all_cores = x.tt_cores + A.tt_cores + B.tt_cores + y.tt_cores
   with tf.name_scope(name):
     ndims = A.ndims()
-- 
2.43.0


From 6a85657ad30002e35b8813e2bbb8c25030d1490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:51 +0000
Subject: [PATCH 07/42] fix: mismatched TT-by-dense matmul raises TypeError
 instead of ValueError

The error message formatted whole shapes with %d.
---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index fd92d5d..bf3a181 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -204,7 +204,7 @@ def tt_dense_matmul(tt_matrix_a, matrix_b):
   if a_columns is not None and b_rows is not None:
     if a_columns != b_rows:
       raise ValueError('Arguments shapes should align got %d and %d instead.' %
-                       (tt_matrix_a.get_shape(), matrix_b.get_shape()))
+                       (a_columns, b_rows))
 
   a_shape = shapes.lazy_shape(tt_matrix_a)
   a_raw_shape = shapes.lazy_raw_shape(tt_matrix_a)
-- 
2.43.0


From 724e7ec4acb7725ba8f961242a06ef7b3025a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:51 +0000
Subject: [PATCH 08/42] fix: gather_nd mixes up axes of indices with more than
 two dimensions

indices[:, core_idx] addressed the second axis of indices while the core
number is on the last one. Flatten indices to two dimensions first.
---
 t3f/ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index bf3a181..82bcf4f 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1263,6 +1263,8 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         raise ValueError('The last dimension of indices (%d) should have '
                          'the same size as the number of dimensions in the tt '
                          'object (%d).' % (indices.get_shape()[-1], tt.ndims()))
+    elements_shape = tf.shape(indices)[:-1]
+    indices = tf.reshape(indices, (-1, indices.get_shape()[-1]))
     tt_elements = tf.ones(tf.shape(indices)[:-1], dtype=tt.dtype)
     tt_elements = tf.reshape(tt_elements, (-1, 1, 1))
     for core_idx in range(tt.ndims()):
@@ -1275,7 +1277,7 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         curr_core = tf.transpose(curr_core, (1, 0, 2))
         core_slices = tf.gather(curr_core, indices[:, core_idx])
       tt_elements = tf.matmul(tt_elements, core_slices)
-    tt_elements = tf.reshape(tt_elements, tf.shape(indices)[:-1])
+    tt_elements = tf.reshape(tt_elements, elements_shape)
     return tt_elements
 
 
-- 
2.43.0


From ed95ac56e845f45e0cef2a471e5ff58128c00bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:08 +0000
Subject: [PATCH 09/42] fix: matmul of one-element batches returns a
 TensorTrain

The documentation promises a TensorTrainBatch as soon as one of the
arguments is one. One-element batches are squeezed to simplify
broadcasting, so put the batch dimension back at the end.
---
 t3f/ops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 82bcf4f..1ab41fb 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -137,6 +137,8 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_matrix_b.ndims()))
 
+  is_any_arg_batch = (isinstance(tt_matrix_a, TensorTrainBatch) or
+                      isinstance(tt_matrix_b, TensorTrainBatch))
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
   tt_matrix_a = shapes.squeeze_batch_dim(tt_matrix_a)
   tt_matrix_b = shapes.squeeze_batch_dim(tt_matrix_b)
@@ -182,7 +184,8 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
   if is_res_batch:
     return TensorTrainBatch(result_cores, res_shape, out_ranks, batch_size)
   else:
-    return TensorTrain(result_cores, res_shape, out_ranks)
+    res = TensorTrain(result_cores, res_shape, out_ranks)
+    return shapes.expand_batch_dim(res) if is_any_arg_batch else res
 
 
 def tt_dense_matmul(tt_matrix_a, matrix_b):
-- 
2.43.0


From 5b07d978c11286e00247b0c802db473f76ecda56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:13 +0000
Subject: [PATCH 10/42] fix: flat_inner and bilinear forms drop the axis of
 one-element batches

The result is documented to be a tensor of size batch_size when an argument
is a TensorTrainBatch, but squeezing all axes turned it into a scalar if the
batch had a single element. Squeeze the TT-rank axes only.
---
 t3f/ops.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 1ab41fb..aadbbd8 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -371,6 +371,8 @@ def tt_tt_flat_inner(tt_a, tt_b):
                      'got %d and %d instead.' % (ndims, tt_b.ndims()))
 
   axes_str = 'ij' if are_both_matrices else 'i'
+  is_any_arg_batch = (isinstance(tt_a, TensorTrainBatch) or
+                      isinstance(tt_b, TensorTrainBatch))
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
   tt_a = shapes.squeeze_batch_dim(tt_a)
   tt_b = shapes.squeeze_batch_dim(tt_b)
@@ -400,7 +402,10 @@ def tt_tt_flat_inner(tt_a, tt_b):
     # if both arguments are TT-tensors, then it is
     # res = tf.einsum('ac,aib,cid->bd', res, a_core, b_core)
     res = tf.einsum(einsum_str, res, a_core, b_core)
-  return tf.squeeze(res)
+  res = tf.squeeze(res, [-2, -1])
+  if is_any_arg_batch and not is_res_batch:
+    res = tf.expand_dims(res, 0)
+  return res
 
 
 def tt_dense_flat_inner(tt_a, dense_b):
@@ -1124,7 +1129,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-3, -2, -1])
 
 
 def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
@@ -1193,7 +1198,7 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-4, -3, -2, -1])
 
 
 def cast(tt, dtype, name='t3f_cast'):
-- 
2.43.0


From a78c8b608f8c099e218416ce2ad13596e3f5b99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:18 +0000
Subject: [PATCH 11/42] fix: pairwise inner products are not a matrix for
 one-element batches

gram_matrix and pairwise_flat_inner return a matrix with a row (column) per
element of the batch, but squeezing all axes also dropped the batch axes of
size one.
---
 t3f/batch_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index f062e0e..ad9bf33 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -232,4 +232,4 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
 
     # Squeeze to make the result of size batch_size x batch_size instead of
     # batch_size x batch_size x 1 x 1.
-    return tf.squeeze(res)
+    return tf.reshape(res, tf.shape(res)[:2])
-- 
2.43.0


From b5345ce9f4164d319bdaebf17a473a50026dabdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:32 +0000
Subject: [PATCH 12/42] fix: rounding a batch rejects a vector of maximal
 TT-ranks

The validity check compared the whole vector with 1 in a boolean context.
---
 t3f/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index 4d6b026..c139450 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -323,7 +323,7 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   """
   ndims = tt.ndims()
   max_tt_rank = np.array(max_tt_rank).astype(np.int32)
-  if max_tt_rank < 1:
+  if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
     raise ValueError('Epsilon should be non-negative.')
-- 
2.43.0


From 359e1e664f20a44f31bebeaeb8024cc69231da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:32 +0000
Subject: [PATCH 13/42] fix: TT-ranks cannot be left unrestricted in round and
 to_tt_*

The default max_tt_rank=None of round raised TypeError, and the documented
max_tt_rank=np.inf overflowed to a negative integer and was rejected.
---
 t3f/decompositions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index c139450..fa6c30b 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -143,7 +143,7 @@ def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
     dynamic_shape = tf.shape(tens)
     # Raises ValueError if ndims is not defined.
     d = static_shape.__len__()
-    max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+    max_tt_rank = _clean_max_tt_rank(max_tt_rank)
     if np.any(max_tt_rank < 1):
       raise ValueError('Maximum TT-rank should be greater or equal to 1.')
     if epsilon is not None and epsilon < 0:
@@ -194,6 +194,13 @@ def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
     return TensorTrain(tt_cores, static_shape, ranks)
 
 
+def _clean_max_tt_rank(max_tt_rank):
+  """Converts max_tt_rank to integers, None or np.inf is for not restricted."""
+  if max_tt_rank is None:
+    max_tt_rank = np.inf
+  return np.minimum(max_tt_rank, np.iinfo(np.int32).max).astype(np.int32)
+
+
 # TODO: rename round so not to shadow python.round?
 def round(tt, max_tt_rank=None, epsilon=None, name='t3f_round'):
   """TT-rounding procedure, returns a TT object with smaller TT-ranks.
@@ -247,7 +254,7 @@ def _round_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = _clean_max_tt_rank(max_tt_rank)
   if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
@@ -322,7 +329,7 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = _clean_max_tt_rank(max_tt_rank)
   if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
-- 
2.43.0


From c1a46b10195a7a728539e847d39ce95a393591a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:22 +0000
Subject: [PATCH 14/42] fix: project_matmul fails on a TensorTrain

It asked a TensorTrain for its batch size, and kept the batch axis of the
projected TT-cores in the non-batch case.
---
 t3f/riemannian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 649d353..f5adda5 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -423,7 +423,6 @@ def project_matmul(what, where, matrix):
   ndims = where.ndims()
   dtype = where.dtype
   raw_shape = shapes.lazy_raw_shape(where)
-  batch_size = shapes.lazy_batch_size(what)
   right_tangent_tt_ranks = shapes.lazy_tt_ranks(right_tangent_space_tens)
   left_tangent_tt_ranks = shapes.lazy_tt_ranks(left_tangent_space_tens)
 
@@ -436,6 +435,7 @@ def project_matmul(what, where, matrix):
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
+  batch_size = shapes.lazy_batch_size(what)
 
   # Prepare rhs vectors.
   # rhs[core_idx] is of size
@@ -493,6 +493,7 @@ def project_matmul(what, where, matrix):
       extended_right_tang_core = tf.tile(extended_right_tang_core,
                                          [output_batch_size, 1, 1, 1, 1])
     else:
+      proj_core = tf.squeeze(proj_core, axis=0)
       extended_left_tang_core = left_tang_core
       extended_right_tang_core = right_tang_core
 
-- 
2.43.0


From fd28ea755989189e38337e8ef1c1217588ed72e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:37 +0000
Subject: [PATCH 15/42] fix: tangent spaces at points with excessive TT-ranks
 are inconsistent

If a TT-rank of the point exceeds the size of an unfolding, its left- and
right-orthogonalized versions can have different TT-ranks. Elements of the
tangent space were then split at the wrong index, which silently broke
pairwise_flat_inner_projected and made add_n_projected, deltas conversion
and Riemannian autodiff fail. Trim such TT-ranks before orthogonalizing.
---
 t3f/autodiff.py   |  4 ++--
 t3f/riemannian.py | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 4e2ee30..25f43fa 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -104,7 +104,7 @@ def gradients(func, x, name='t3f_gradients', runtime_check=True):
       t3f.hessian_vector_product
   """
   with tf.name_scope(name):
-    left = decompositions.orthogonalize_tt_cores(x)
+    left = decompositions.orthogonalize_tt_cores(riemannian._trim_tt_ranks(x))
     right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
     deltas = [right.tt_cores[0]]
     deltas += [tf.zeros_like(cc) for cc in right.tt_cores[1:]]
@@ -169,7 +169,7 @@ def hessian_vector_product(func, x, vector, name='t3f_hessian_vector_product',
     """
   all_cores = list(x.tt_cores) + list(vector.tt_cores)
   with tf.name_scope(name):
-    left = decompositions.orthogonalize_tt_cores(x)
+    left = decompositions.orthogonalize_tt_cores(riemannian._trim_tt_ranks(x))
     right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
     deltas = [right.tt_cores[0]]
     deltas += [tf.zeros_like(cc) for cc in right.tt_cores[1:]]
diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index f5adda5..7be5a33 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -6,6 +6,16 @@ from t3f import shapes
 from t3f import decompositions
 
 
+def _trim_tt_ranks(tt):
+  """Equals to tt, but without TT-ranks that exceed the size of the unfolding.
+
+  Left-orthogonalizing the result and then right-orthogonalizing it back leaves
+  TT-ranks as they are, so the left and the right half of TT-ranks of tangent
+  space elements are always of the same size.
+  """
+  return decompositions.orthogonalize_tt_cores(tt, left_to_right=False)
+
+
 def project_sum(what, where, weights=None):
   """Project sum of `what` TTs on the tangent space of `where` TT.
 
@@ -62,7 +72,7 @@ def project_sum(what, where, weights=None):
                       what.dtype))
 
   left_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    where)
+    _trim_tt_ranks(where))
   right_tangent_space_tens = decompositions.orthogonalize_tt_cores(
     left_tangent_space_tens, left_to_right=False)
 
@@ -244,7 +254,7 @@ def project(what, where):
                       what.dtype))
 
   left_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    where)
+    _trim_tt_ranks(where))
   right_tangent_space_tens = decompositions.orthogonalize_tt_cores(
     left_tangent_space_tens, left_to_right=False)
 
@@ -416,7 +426,7 @@ def project_matmul(what, where, matrix):
                       what.dtype))
 
   left_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    where)
+    _trim_tt_ranks(where))
   right_tangent_space_tens = decompositions.orthogonalize_tt_cores(
     left_tangent_space_tens, left_to_right=False)
 
@@ -835,7 +845,7 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
     input_tensors += list(right.tt_cores)
   with tf.name_scope(name):
     if left is None:
-      left = decompositions.orthogonalize_tt_cores(tt)
+      left = decompositions.orthogonalize_tt_cores(_trim_tt_ranks(tt))
     if right is None:
       right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
     left_tangent_tt_ranks = shapes.lazy_tt_ranks(left)
-- 
2.43.0


From 33ff16035f81c04d0deb048d2bd5007b563c4f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:54 +0000
Subject: [PATCH 16/42] fix: KerasDense is not trained with Keras 3

Keras 3 tracks only variables created with add_weight, so the TT-cores and
the bias were not among the weights of the layer and stayed at their initial
values. The attributes were also set before calling Layer.__init__.
---
 t3f/nn.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/t3f/nn.py b/t3f/nn.py
index fa45eaf..74d95e0 100644
--- a/t3f/nn.py
+++ b/t3f/nn.py
@@ -36,6 +36,8 @@ class KerasDense(Layer):
         unknown.
     """
     self.counter = next(self._counter)
+    name = 'tt_dense_{}'.format(self.counter)
+    super(KerasDense, self).__init__(name=name, **kwargs)
     self.tt_shape = [input_dims, output_dims]
     self.output_dim = np.prod(output_dims)
     self.tt_rank = tt_rank
@@ -43,7 +45,6 @@ class KerasDense(Layer):
     self.use_bias = use_bias
     self.kernel_initializer = kernel_initializer
     self.bias_initializer = bias_initializer
-    name = 'tt_dense_{}'.format(self.counter)
 
     if self.kernel_initializer == 'glorot':
       initializer = t3f.glorot_initializer(self.tt_shape,
@@ -58,12 +59,22 @@ class KerasDense(Layer):
       raise ValueError('Unknown kernel_initializer "%s", only "glorot",'
                        '"he", and "lecun"  are supported'
                        % self.kernel_initializer)
-    self.matrix = t3f.get_variable('matrix', initializer=initializer)
-    self._tt_cores = self.matrix.tt_cores
+    # Keras tracks (and trains) only the variables created with add_weight.
+    self._tt_cores = [self._add_weight('core_%d' % i, core)
+                      for i, core in enumerate(initializer.tt_cores)]
     self.b = None
     if self.use_bias:
-      self.b = tf.Variable(self.bias_initializer * tf.ones((self.output_dim,)))
-    super(KerasDense, self).__init__(name=name, **kwargs)
+      self.b = self._add_weight('b', self.bias_initializer *
+                                tf.ones((self.output_dim,)))
+
+  def _add_weight(self, name, value):
+    return self.add_weight(name=name, shape=value.shape,
+                           initializer=lambda *args, **kwargs: value)
+
+  @property
+  def matrix(self):
+    """TT-Matrix with the current values of the weights."""
+    return t3f.TensorTrain(self._tt_cores)
 
   def call(self, x):
     res = t3f.matmul(x, self.matrix)
-- 
2.43.0


From 3628fb81c986c6f91f2aed02734917d4f52c3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:19 +0000
Subject: [PATCH 17/42] fix: regularizers use TensorFlow 1 API that does not
 exist anymore

tf.name_scope does not take a default name and tf.logging is gone in
TensorFlow 2, so applying or disabling any regularizer failed.
---
 t3f/regularizers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/regularizers.py b/t3f/regularizers.py
index 6bfd87c..645fbba 100644
--- a/t3f/regularizers.py
+++ b/t3f/regularizers.py
@@ -25,12 +25,12 @@ def l2_regularizer(scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      tf.compat.v1.logging.info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def l2(tt):
     """Applies l2 regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       return tf.multiply(my_scale, ops.frobenius_norm_squared(tt), name=name)
 
@@ -60,12 +60,12 @@ def cores_regularizer(core_regularizer, scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      tf.compat.v1.logging.info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def regularizer(tt):
     """Applies the regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       penalty = 0.0
       for i in range(tt.ndims()):
-- 
2.43.0


From 8a748f73dd2fd97caa5e496b833ec82e29c5a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:19 +0000
Subject: [PATCH 18/42] fix: get_variable with a regularizer fails in eager
 mode

Eager tensors do not have names, so logging the name of the loss raised
AttributeError.
---
 t3f/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index 061a568..0594fd5 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -107,8 +107,8 @@ def get_variable(name,
       with tf.name_scope(name + "/Regularizer/"):
         loss = regularizer(v)
       if loss is not None:
-        tf.logging.vlog(1, "Applied regularizer to %s and added the result %s "
-                        "to REGULARIZATION_LOSSES.", v.name, loss.name)
+        tf.logging.vlog(1, "Applied regularizer to %s and added the result "
+                        "to REGULARIZATION_LOSSES.", v.name)
         tf.add_to_collection(tf.GraphKeys.REGULARIZATION_LOSSES, loss)
     return v
 
-- 
2.43.0


From ce454f85495089d2058071223d2e51654b23a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:19 +0000
Subject: [PATCH 19/42] fix: failed assign leaves the variable partly
 overwritten

TT-cores were assigned one by one, so if the shape of one of them did not
match, the previous ones had already been replaced. A value with more
TT-cores than the variable was even accepted.
---
 t3f/variables.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/t3f/variables.py b/t3f/variables.py
index 0594fd5..2138042 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -114,6 +114,15 @@ def get_variable(name,
 
 
 def assign(ref, value, validate_shape=None, use_locking=None, name=None):
+  # Check everything beforehand not to leave ref partly assigned.
+  if ref.ndims() != value.ndims():
+    raise ValueError('The number of dimensions of the variable (%d) and of the '
+                     'value (%d) should coincide.' % (ref.ndims(), value.ndims()))
+  for ref_core, value_core in zip(ref.tt_cores, value.tt_cores):
+    if not ref_core.shape.is_compatible_with(value_core.shape):
+      raise ValueError('The shape of the TT-core of the variable %s and of the '
+                       'value %s should coincide.' % (ref_core.shape,
+                                                      value_core.shape))
   new_cores = []
   if name is None:
     name = ''
-- 
2.43.0


From a88320d0a626c4d8a76a084c33484eda2ffa5a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:19 +0000
Subject: [PATCH 20/42] fix: project_sum fails on a matrix of weights with a
 single column

A column of weights was treated as a vector and broke einsum.
---
 t3f/riemannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 7be5a33..e88672e 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -89,7 +89,7 @@ def project_sum(what, where, weights=None):
   left_rank_dim = where.left_tt_rank_dim
   if weights is not None:
     weights_shape = weights.get_shape()
-    output_is_batch = len(weights_shape) > 1 and weights_shape[1] > 1
+    output_is_batch = len(weights_shape) > 1
   else:
     output_is_batch = False
   output_batch_str = 'o' if output_is_batch else ''
-- 
2.43.0


From 7d734832af9868c82f7f4e5f642928576c0252b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:35:03 +0000
Subject: [PATCH 21/42] fix: TensorTrain constructors accept cores inconsistent
 with the shape

The number of axes of the cores and the length of the provided shape were
not checked, so e.g. 4-d cores with a one-row shape became an object that
claims to be a TT-tensor. A too short shape or tt_ranks raised IndexError.
---
 t3f/tensor_train.py       | 12 ++++++++++++
 t3f/tensor_train_batch.py | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 7980700..8ba3f71 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -161,6 +161,18 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
   try:
+    num_core_axes = len(tt_cores[0].get_shape())
+    if num_core_axes not in (3, 4):
+      # Cores of neither a TT-tensor nor a TT-matrix.
+      return False
+    if shape is not None:
+      if len(shape) != num_core_axes - 2:
+        # The shape of a TT-tensor for cores of a TT-matrix or vice versa.
+        return False
+      if any(len(axis_shape) != num_dims for axis_shape in shape):
+        return False
+    if tt_ranks is not None and len(tt_ranks) < num_dims + 1:
+      return False
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].get_shape()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 976582a..0904a6f 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -294,6 +294,18 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
   try:
+    num_core_axes = len(tt_cores[0].get_shape())
+    if num_core_axes not in (4, 5):
+      # Cores of neither a TT-tensor nor a TT-matrix.
+      return False
+    if shape is not None:
+      if len(shape) != num_core_axes - 3:
+        # The shape of a TT-tensor for cores of a TT-matrix or vice versa.
+        return False
+      if any(len(axis_shape) != num_dims for axis_shape in shape):
+        return False
+    if tt_ranks is not None and len(tt_ranks) < num_dims + 1:
+      return False
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].shape.as_list()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
-- 
2.43.0


From 42d5a4fd3eef8a1c8b9e7c35d48f63d29a332840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:35:10 +0000
Subject: [PATCH 22/42] fix: TensorTrainBatch accepts cores with different
 batch sizes

The batch sizes of the cores were compared only with the batch_size
argument, not with each other, so nothing was checked without it.
---
 t3f/tensor_train_batch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 0904a6f..70c53d1 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -311,6 +311,8 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
         # Shapes are inconsistent.
         return False
+      if batch_size is None:
+        batch_size = curr_core_shape[0]
       if batch_size is not None and curr_core_shape[0] is not None:
         if curr_core_shape[0] != batch_size:
           # The TT-cores are not aligned with the given batch_size.
-- 
2.43.0


From 6dfd12e80055a4c164872786b6cd39b9b1341104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:56 +0000
Subject: [PATCH 23/42] fix: index a batch with a one-element tuple

TensorTrainBatch.__getitem__ recognises a one-element index tuple as an
index of the batch axis, but passed the tuple itself on to the cores, so
batch[i,] raised TypeError.
---
 t3f/tensor_train_batch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 70c53d1..c819aa0 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -264,7 +264,9 @@ class TensorTrainBatch(TensorTrainBase):
       slice_only_batch_dim = True
 
     if slice_only_batch_dim:
-      # Indexing only for the batch_size axis, e.g. a[1:3].
+      # Indexing only for the batch_size axis, e.g. a[1:3] or a[1:3,].
+      if isinstance(slice_spec, tuple):
+        slice_spec = slice_spec[0]
       return self._batch_dim_getitem(slice_spec)
     elif len(slice_spec) == self.ndims() + 1:
       return self._full_getitem(slice_spec)
-- 
2.43.0


From 00e216ad18cd77489502a497f28b336ebdeb07dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:16:10 +0000
Subject: [PATCH 24/42] fix: sum batches of one-dimensional TT objects in
 reduce_sum_batch

There is no TT-rank axis to concatenate along when the objects have a single
core, so the cores are added instead.
---
 t3f/approximate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t3f/approximate.py b/t3f/approximate.py
index cafbee0..4714899 100644
--- a/t3f/approximate.py
+++ b/t3f/approximate.py
@@ -160,7 +160,10 @@ def reduce_sum_batch(tt_batch, max_tt_rank, coef=None,
           b_core_shape = np.delete(b_core_shape, 1)
           b_core = tf.reshape(b_core, b_core_shape)
 
-        if core_idx == 0:
+        if ndims == 1:
+          # There are no TT-ranks to concatenate along.
+          curr_sum_core = a_core + b_core
+        elif core_idx == 0:
           curr_sum_core = tf.concat((a_core, b_core), axis=right_tt_rank_dim)
         elif core_idx == ndims - 1:
           curr_sum_core = tf.concat((a_core, b_core), axis=left_tt_rank_dim)
-- 
2.43.0


From 6f1400020ded3847fc7dc79f3700e2849cbecb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:20 +0000
Subject: [PATCH 25/42] fix: report a missing initializer in eager get_variable

---
 t3f/variables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index 2138042..424b09c 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -52,7 +52,8 @@ def get_variable(name,
   # TODO: add validate ranks flag.
 
   reuse = tf.get_variable_scope().reuse
-  if not reuse and initializer is None:
+  # In the eager mode there are no existing variables to reuse.
+  if (not reuse or utils.in_eager_mode()) and initializer is None:
     raise ValueError('Scope reuse is False and initializer is not provided.')
 
   variable_cores = []
-- 
2.43.0


From 02a02928d8fc836f16bae7640a67b41a19e47978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:55:22 +0000
Subject: [PATCH 26/42] fix: support batches of unknown size in Kronecker
 operations

---
 t3f/kronecker.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index e1f4e2d..1d6c17a 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -28,7 +28,8 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
     raise ValueError('The argument should be a Kronecker product (tt-ranks '
                      'should be 1)')
 
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  # The batch size may be unknown.
+  shapes_defined = kron_a.get_shape()[-2:].is_fully_defined()
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
@@ -81,7 +82,8 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
  
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  # The batch size may be unknown.
+  shapes_defined = kron_a.get_shape()[-2:].is_fully_defined()
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
@@ -137,7 +139,8 @@ def inv(kron_a, name='t3f_kronecker_inv'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
     
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  # The batch size may be unknown.
+  shapes_defined = kron_a.get_shape()[-2:].is_fully_defined()
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
@@ -195,7 +198,8 @@ def cholesky(kron_a, name='t3f_kronecker_cholesky'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
     
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  # The batch size may be unknown.
+  shapes_defined = kron_a.get_shape()[-2:].is_fully_defined()
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
-- 
2.43.0


From 742ebfcd1210616ec0ac41e459c40d5cfb920b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:55:22 +0000
Subject: [PATCH 27/42] fix: keep the batch size of TensorTrainBatch static

---
 t3f/tensor_train_batch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index c819aa0..67867ec 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -47,6 +47,10 @@ class TensorTrainBatch(TensorTrainBase):
           name = "core%d" % i
           tt_cores[i] = tf.convert_to_tensor(tt_cores[i], name=name)
 
+    if isinstance(batch_size, tf.Tensor):
+      # None if the batch size is known only at run time.
+      batch_size = tf.get_static_value(batch_size)
+
     if not _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
       raise ValueError('The tt_cores provided to TensorTrainBatch constructor '
                        'are not valid, have different dtypes, or are '
-- 
2.43.0


From a027d3baffef1e3bb86503980e860bdeb92c1b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:55:22 +0000
Subject: [PATCH 28/42] fix: support batches of unknown size in
 renormalize_tt_cores

---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index aadbbd8..88bbe84 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1324,7 +1324,7 @@ def renormalize_tt_cores(tt, epsilon=1e-8, name='t3f_renormalize_tt_cores'):
 
         return TensorTrain(new_cores)
       else:
-        sz = (tt.batch_size,) + (len(tt.tt_cores[0].shape) - 1) * (1,)
+        sz = (shapes.lazy_batch_size(tt),) + (len(tt.tt_cores[0].shape) - 1) * (1,)
         running_core_log_norms = tf.zeros(sz, dtype=tt.dtype)
         ax = np.arange(len(tt.tt_cores[0].shape))[1:]
         fact_list = []
-- 
2.43.0


From b30be3ea738de719a3eb5eca2226bb6f4503669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:55:22 +0000
Subject: [PATCH 29/42] fix: support batches of unknown size in project and
 project_matmul

---
 t3f/riemannian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index e88672e..5a293d8 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -270,7 +270,7 @@ def project(what, where):
   left_rank_dim = what.left_tt_rank_dim
   output_is_batch = isinstance(what, TensorTrainBatch)
   if output_is_batch:
-    output_batch_size = what.batch_size
+    output_batch_size = shapes.lazy_batch_size(what)
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
@@ -441,7 +441,7 @@ def project_matmul(what, where, matrix):
   left_rank_dim = what.left_tt_rank_dim
   output_is_batch = isinstance(what, TensorTrainBatch)
   if output_is_batch:
-    output_batch_size = what.batch_size
+    output_batch_size = shapes.lazy_batch_size(what)
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
-- 
2.43.0


From f67b2ce15ea936e6eaf00e21cc524a5800e967cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:38:16 +0000
Subject: [PATCH 30/42] fix: the runtime check of Riemannian autodiff failed on
 functions equal to zero

---
 t3f/autodiff.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 25f43fa..256c2cb 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -58,12 +58,13 @@ def _is_invariant_to_input_transforms(f_value_1, f_value_2,
         'makes things a bit slower. It is advisable to keep runtime_check=True '
         'untill actuall production usage, since runtime check does help to '
         'catch bugs.')
-  rel_diff = tf.abs((f_value_1 - f_value_2) / f_value_1)
+  diff = tf.abs(f_value_1 - f_value_2)
   err_msg = "The function passed to Riemannian autodiff returns different " \
             "values for two different versions of the same tensor. " \
             "The function values are"
-  assert_op = tf.Assert(rel_diff < 1e-5, [err_msg, f_value_1, f_value_2],
-                        name=name)
+  # Don't divide by the value, it may be zero.
+  assert_op = tf.Assert(diff <= 1e-5 * tf.abs(f_value_1),
+                        [err_msg, f_value_1, f_value_2], name=name)
   return assert_op
 
 
-- 
2.43.0


From 69d29a7f3c3cde1cd2ac15130d032fb8b3b6603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:30:31 +0000
Subject: [PATCH 31/42] fix: the gradient of l2_regularizer was not finite for
 weights with dependent cores

---
 t3f/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t3f/regularizers.py b/t3f/regularizers.py
index 645fbba..a0769c4 100644
--- a/t3f/regularizers.py
+++ b/t3f/regularizers.py
@@ -32,7 +32,8 @@ def l2_regularizer(scale, scope=None):
     """Applies l2 regularization to TensorTrain object."""
     with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
-      return tf.multiply(my_scale, ops.frobenius_norm_squared(tt), name=name)
+      norm_squared = ops.frobenius_norm_squared(tt, differentiable=True)
+      return tf.multiply(my_scale, norm_squared, name=name)
 
   return l2
 
-- 
2.43.0


From a964a42bdcc141cddc570c4109aec7d75f15c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:44 +0000
Subject: [PATCH 32/42] fix: the gradient with respect to a zero factor of a
 TT-object was not finite

---
 t3f/ops.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 88bbe84..3190c35 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -797,8 +797,14 @@ def multiply(tt_left, right, name='t3f_multiply'):
       # and raise to the power 1/ndims. First TT-core is multiplied by the sign
       # of right.
       tt_cores = list(tt_left.tt_cores)
-      fact = tf.pow(tf.cast(tf.abs(right), tt_left.dtype), 1.0 / ndims)
-      sign = tf.cast(tf.sign(right), tt_left.dtype)
+      # The root is not differentiable at zero, so zero is multiplied into the
+      # first TT-core as it is.
+      abs_right = tf.cast(tf.abs(right), tt_left.dtype)
+      is_zero = tf.equal(abs_right, 0)
+      fact = tf.pow(tf.where(is_zero, tf.ones_like(abs_right), abs_right),
+                    1.0 / ndims)
+      sign = tf.where(is_zero, tf.cast(right, tt_left.dtype),
+                      tf.cast(tf.sign(right), tt_left.dtype))
       for i in range(len(tt_cores)):
         tt_cores[i] = fact * tt_cores[i]
 
-- 
2.43.0


From 19da9d703ef2daea74e967fe6c6cfef86dbf8831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:02 +0000
Subject: [PATCH 33/42] fix: determinants of Kronecker products with more than
 2^31 rows

The number of rows was computed in 32 bit integers and overflowed. The
sign is taken from the parity of the powers, which large floating point
numbers do not represent.
---
 t3f/kronecker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index 1d6c17a..373c8e0 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -44,7 +44,7 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
       
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
+    pows = tf.reduce_prod(tf.cast(i_shapes, kron_a.dtype))
     cores = kron_a.tt_cores
     det = 1
     for core_idx in range(kron_a.ndims()):
@@ -98,7 +98,7 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
 
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
+    pows = tf.reduce_prod(tf.cast(i_shapes, kron_a.dtype))
     logdet = 0.
     det_sign = 1.
 
@@ -112,7 +112,10 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
       core_det_sign = tf.sign(core_det)
       core_pow = pows / i_shapes[core_idx]
       logdet += tf.math.log(core_abs_det) * core_pow
-      det_sign *= core_det_sign**(core_pow)
+      if any(n % 2 == 0 for k, n in enumerate(i_shapes) if k != core_idx):
+        # core_pow is even (which large floats cannot tell).
+        core_det_sign = tf.abs(core_det_sign)
+      det_sign *= core_det_sign
     return det_sign, logdet
 
 
-- 
2.43.0


From 1ec88ac3d3c7957f7e3f812973c58627d0e5429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:02 +0000
Subject: [PATCH 34/42] fix: glorot, he and lecun initializers for more than
 2^63 rows

The number of rows was computed in 64 bit integers and overflowed.
---
 t3f/initializers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 0a84c82..e86c29a 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -772,8 +772,8 @@ def glorot_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
-  n_out = np.prod(shape[1])
+  n_in = np.prod(shape[0], dtype=float)
+  n_out = np.prod(shape[1], dtype=float)
   lamb = 2.0 / (n_in + n_out)
 
   with tf.name_scope(name):
@@ -814,7 +814,7 @@ def he_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=float)
   lamb = 2.0 / n_in
 
   with tf.name_scope(name):
@@ -855,7 +855,7 @@ def lecun_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=float)
   lamb = 1.0 / n_in
   with tf.name_scope(name):
     return random_matrix(shape, tt_rank=tt_rank, stddev=np.sqrt(lamb),
-- 
2.43.0


From 8aedcc3cf065ffa59ead6ce10a8ea23f71e9d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:11 +0000
Subject: [PATCH 35/42] fix: shape of batches of TT-matrices with more than
 2^63 rows

np.hstack turned the sizes into floats, which are not valid dimensions.
---
 t3f/tensor_train_batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 67867ec..0bf201f 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -78,7 +78,7 @@ class TensorTrainBatch(TensorTrainBase):
       A `TensorShape` object.
     """
     shape = TensorTrainBase.get_shape(self)
-    return tf.TensorShape(np.hstack((self.batch_size, shape)))
+    return tf.TensorShape([self.batch_size]).concatenate(shape)
 
   @property
   def tt_cores(self):
-- 
2.43.0


From 108c31621f356f05d159794aa0ddf9765a9104a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:12 +0000
Subject: [PATCH 36/42] fix: forms of objects with different numbers of
 dimensions

bilinear_form, bilinear_form_two_mat, pairwise_flat_inner and
project_matmul ignored the additional cores of the longer argument when
the TT-rank in front of them was 1, and returned a wrong result.
---
 t3f/batch_ops.py  |  4 ++++
 t3f/ops.py        | 10 ++++++++++
 t3f/riemannian.py |  5 +++++
 3 files changed, 19 insertions(+)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index ad9bf33..fcbb9c5 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -163,6 +163,10 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
     all_cores += matrix.tt_cores
   with tf.name_scope(name):
     ndims = tt_1.ndims()
+    if tt_2.ndims() != ndims:
+      raise ValueError('The arguments should have the same number of '
+                       'dimensions, got %d and %d instead.' %
+                       (ndims, tt_2.ndims()))
     if matrix is None:
       curr_core_1 = tt_1.tt_cores[0]
       curr_core_2 = tt_2.tt_cores[0]
diff --git a/t3f/ops.py b/t3f/ops.py
index 3190c35..3d18641 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1110,6 +1110,11 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
 
   with tf.name_scope(name):
     ndims = A.ndims()
+    for tt in (b, c):
+      if tt.ndims() != ndims:
+        raise ValueError('The arguments should have the same number of '
+                         'dimensions, got %d and %d instead.' %
+                         (ndims, tt.ndims()))
     curr_core_1 = b.tt_cores[0]
     curr_core_2 = c.tt_cores[0]
     curr_matrix_core = A.tt_cores[0]
@@ -1175,6 +1180,11 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
   all_cores = x.tt_cores + A.tt_cores + B.tt_cores + y.tt_cores
   with tf.name_scope(name):
     ndims = A.ndims()
+    for tt in (x, B, y):
+      if tt.ndims() != ndims:
+        raise ValueError('The arguments should have the same number of '
+                         'dimensions, got %d and %d instead.' %
+                         (ndims, tt.ndims()))
     curr_core_1 = x.tt_cores[0]
     curr_core_2 = y.tt_cores[0]
     curr_matrix_core_1 = A.tt_cores[0]
diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 5a293d8..8f92895 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -425,6 +425,11 @@ def project_matmul(what, where, matrix):
                      (where.dtype,
                       what.dtype))
 
+  if matrix.ndims() != where.ndims():
+    raise ValueError('The matrix should have the same number of dimensions as '
+                     'the vectors, got %d and %d instead.' %
+                     (matrix.ndims(), where.ndims()))
+
   left_tangent_space_tens = decompositions.orthogonalize_tt_cores(
     _trim_tt_ranks(where))
   right_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-- 
2.43.0


From cf12a21c79ed46daa0684e7a95119666d98df923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:12 +0000
Subject: [PATCH 37/42] fix: inner product of a TT-matrix and a sparse matrix
 of another shape

Row and column numbers outside of the TT-matrix were wrapped around.
---
 t3f/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 3d18641..2fd0b57 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -437,6 +437,9 @@ def tt_sparse_flat_inner(tt_a, sparse_b):
     a number
     sum of products of all the elements of tt_a and sparse_b
   """
+  if not sparse_b.get_shape().is_compatible_with(tt_a.get_shape()):
+    raise ValueError('The arguments should have the same shape, got %s and %s '
+                     'instead.' % (tt_a.get_shape(), sparse_b.get_shape()))
   if sparse_b.indices.get_shape().is_fully_defined():
     num_elements = sparse_b.indices.get_shape()[0]
   else:
-- 
2.43.0


From 6db40f2fc195db7b32fb16173ad0f3267637aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:11 +0000
Subject: [PATCH 38/42] fix: log-determinant of Kronecker products with very
 small or large factors

The determinant of each factor was computed first and underflowed or
overflowed, although its logarithm is representable.
---
 t3f/kronecker.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index 373c8e0..1eafbb6 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -105,13 +105,11 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
     for core_idx in range(kron_a.ndims()):
       core = kron_a.tt_cores[core_idx]
       if is_batch:
-        core_det = tf.linalg.det(core[:, 0, :, :, 0])
+        core_det_sign, core_logdet = tf.linalg.slogdet(core[:, 0, :, :, 0])
       else:
-        core_det = tf.linalg.det(core[0, :, :, 0])
-      core_abs_det = tf.abs(core_det)
-      core_det_sign = tf.sign(core_det)
+        core_det_sign, core_logdet = tf.linalg.slogdet(core[0, :, :, 0])
       core_pow = pows / i_shapes[core_idx]
-      logdet += tf.math.log(core_abs_det) * core_pow
+      logdet += core_logdet * core_pow
       if any(n % 2 == 0 for k, n in enumerate(i_shapes) if k != core_idx):
         # core_pow is even (which large floats cannot tell).
         core_det_sign = tf.abs(core_det_sign)
-- 
2.43.0


From 33083727f7cc8a7cc4ef92ecba42b0e5566080fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:55 +0000
Subject: [PATCH 39/42] fix: KerasDense with a given name

The name argument was passed twice, so that a layer could neither be named
nor be recreated from its configuration (e.g. by clone_model).
---
 t3f/nn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/nn.py b/t3f/nn.py
index 74d95e0..bb0ece1 100644
--- a/t3f/nn.py
+++ b/t3f/nn.py
@@ -36,8 +36,8 @@ class KerasDense(Layer):
         unknown.
     """
     self.counter = next(self._counter)
-    name = 'tt_dense_{}'.format(self.counter)
-    super(KerasDense, self).__init__(name=name, **kwargs)
+    kwargs.setdefault('name', 'tt_dense_{}'.format(self.counter))
+    super(KerasDense, self).__init__(**kwargs)
     self.tt_shape = [input_dims, output_dims]
     self.output_dim = np.prod(output_dims)
     self.tt_rank = tt_rank
-- 
2.43.0


From e9ba7a15de49404db653bce76a5470b3378d4b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:55 +0000
Subject: [PATCH 40/42] fix: KerasDense with a dtype other than float32

The TT-cores and the bias were always created in float32, which add_weight
rejects for layers of another dtype; the activation converted the result to
float32.
---
 t3f/nn.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/t3f/nn.py b/t3f/nn.py
index bb0ece1..6084d61 100644
--- a/t3f/nn.py
+++ b/t3f/nn.py
@@ -48,13 +48,16 @@ class KerasDense(Layer):
 
     if self.kernel_initializer == 'glorot':
       initializer = t3f.glorot_initializer(self.tt_shape,
-                                           tt_rank=self.tt_rank)
+                                           tt_rank=self.tt_rank,
+                                           dtype=self.dtype)
     elif self.kernel_initializer == 'he':
       initializer = t3f.he_initializer(self.tt_shape,
-                                       tt_rank=self.tt_rank)
+                                       tt_rank=self.tt_rank,
+                                       dtype=self.dtype)
     elif self.kernel_initializer == 'lecun':
       initializer = t3f.lecun_initializer(self.tt_shape,
-                                          tt_rank=self.tt_rank)
+                                          tt_rank=self.tt_rank,
+                                          dtype=self.dtype)
     else:
       raise ValueError('Unknown kernel_initializer "%s", only "glorot",'
                        '"he", and "lecun"  are supported'
@@ -65,7 +68,8 @@ class KerasDense(Layer):
     self.b = None
     if self.use_bias:
       self.b = self._add_weight('b', self.bias_initializer *
-                                tf.ones((self.output_dim,)))
+                                tf.ones((self.output_dim,),
+                                        dtype=self.dtype))
 
   def _add_weight(self, name, value):
     return self.add_weight(name=name, shape=value.shape,
@@ -81,7 +85,7 @@ class KerasDense(Layer):
     if self.use_bias:
       res += self.b
     if self.activation is not None:
-      res = Activation(self.activation)(res)
+      res = Activation(self.activation, dtype=self.compute_dtype)(res)
     return res
 
   def compute_output_shape(self, input_shape):
-- 
2.43.0


From 3240676f03ac638ae3604e30fc7ee01aac295a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:11 +0000
Subject: [PATCH 41/42] fix: project_sum with an unknown number of weight
 vectors

---
 t3f/riemannian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 8f92895..7bc27b6 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -97,6 +97,8 @@ def project_sum(what, where, weights=None):
     right_rank_dim += 1
     left_rank_dim += 1
     output_batch_size = weights.get_shape().as_list()[1]
+    if output_batch_size is None:
+      output_batch_size = tf.shape(weights)[1]
 
   # Prepare rhs vectors.
   # rhs[core_idx] is of size
-- 
2.43.0


From 111f93a940d7b676ccd4b7811f592d590121f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:11 +0000
Subject: [PATCH 42/42] fix: add_n_projected with coefficients of unknown shape

---
 t3f/riemannian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 7bc27b6..a47b1f9 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -686,8 +686,12 @@ def add_n_projected(tt_objects, coef=None):
       # the TT-cores number of dimensions.
       some_core = tt_objects[0].tt_cores[0]
       dim_array = [1] * (some_core.get_shape().ndims + 1)
-      dim_array[0] = coef.get_shape().as_list()[0]
-      dim_array[1] = coef.get_shape().as_list()[1]
+      if coef.get_shape().is_fully_defined():
+        coef_shape = coef.get_shape().as_list()
+      else:
+        coef_shape = tf.shape(coef)
+      dim_array[0] = coef_shape[0]
+      dim_array[1] = coef_shape[1]
       coef = tf.reshape(coef, dim_array)
 
   ndims = tt_objects[0].ndims()
-- 
2.43.0

