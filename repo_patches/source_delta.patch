From 8b02487945e68aa90657a9ea9e491182a1059dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 01/27] fix: PolynomialDecay with begin_step == end_step
 returned NaN sparsity at that step

---
 .../core/sparsity/keras/pruning_schedule.py   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
index c9bc2ec..40a66af 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_schedule.py
@@ -228,13 +228,18 @@ class PolynomialDecay(PruningSchedule):
 
     # TODO(pulkitb): Replace function with tf.polynomial_decay
     with tf.name_scope('polynomial_decay_pruning_schedule'):
-      p = tf.math.minimum(
-          1.0,
-          tf.math.maximum(
-              0.0,
-              divide(
-                  tf.dtypes.cast(step - self.begin_step, tf.float32),
-                  self.end_step - self.begin_step)))
+      if self.end_step == self.begin_step:
+        # The ramp has no length: dividing by it would give NaN at begin_step.
+        p = tf.dtypes.cast(
+            tf.math.greater_equal(step, self.begin_step), tf.float32)
+      else:
+        p = tf.math.minimum(
+            1.0,
+            tf.math.maximum(
+                0.0,
+                divide(
+                    tf.dtypes.cast(step - self.begin_step, tf.float32),
+                    self.end_step - self.begin_step)))
       sparsity = tf.math.add(
           tf.math.multiply(self.initial_sparsity - self.final_sparsity,
                            tf.math.pow(1 - p, self.power)),
-- 
2.43.0


From 6407f5272fca29f492cc2730d1059b8313dce255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 02/27] fix: block pruning failed on weights or pooled grids
 with a unit dimension

---
 .../python/core/sparsity/keras/pruning_impl.py    | 15 +++++----------
 .../python/core/sparsity/keras/pruning_utils.py   |  3 ++-
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
index f836f36..89a2a86 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
@@ -177,11 +177,9 @@ class Pruning(object):
     if self._block_size == [1, 1]:
       return self._update_mask(weights)
 
-    # TODO(pulkitb): Check if squeeze operations should now be removed since
-    # we are only accepting 2-D weights.
-
-    squeezed_weights = tf.squeeze(weights)
-    abs_weights = tf.math.abs(squeezed_weights)
+    # Weights are 2-D here (see _validate_block); they must not be squeezed, or a
+    # unit dimension would be lost.
+    abs_weights = tf.math.abs(weights)
     pooled_weights = pruning_utils.factorized_pool(
         abs_weights,
         window_shape=self._block_size,
@@ -189,16 +187,13 @@ class Pruning(object):
         strides=self._block_size,
         padding='SAME')
 
-    if pooled_weights.get_shape().ndims != 2:
-      pooled_weights = tf.squeeze(pooled_weights)
-
     new_threshold, new_mask = self._update_mask(pooled_weights)
 
     updated_mask = pruning_utils.expand_tensor(new_mask, self._block_size)
     sliced_mask = tf.slice(
         updated_mask, [0, 0],
-        [squeezed_weights.get_shape()[0],
-         squeezed_weights.get_shape()[1]])
+        [weights.get_shape()[0],
+         weights.get_shape()[1]])
     return new_threshold, tf.reshape(sliced_mask, tf.shape(weights))
 
   def _weight_assign_objs(self):
diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
index c92ff52..c5fa279 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_utils.py
@@ -156,7 +156,8 @@ def factorized_pool(input_tensor,
         strides=[1, strides[1]],
         padding=padding)
 
-  return tf.squeeze(tf.transpose(width_pooling, perm=[0, 1, 3, 2]))
+  return tf.squeeze(
+      tf.transpose(width_pooling, perm=[0, 1, 3, 2]), axis=[0, 1])
 
 
 def convert_to_tuple_of_two_int(value, name):
-- 
2.43.0


From 7180ea8b258ba09b082f562bfb653ceedfde6711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 03/27] fix: block pruning pooled over windows not aligned with
 the masked blocks

---
 .../core/sparsity/keras/pruning_impl.py       | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
index 89a2a86..d8c93fa 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_impl.py
@@ -180,20 +180,31 @@ class Pruning(object):
     # Weights are 2-D here (see _validate_block); they must not be squeezed, or a
     # unit dimension would be lost.
     abs_weights = tf.math.abs(weights)
-    pooled_weights = pruning_utils.factorized_pool(
-        abs_weights,
-        window_shape=self._block_size,
-        pooling_type=self._block_pooling_type,
-        strides=self._block_size,
-        padding='SAME')
+    # Pad at the end only, so that the pooling windows are the blocks which the
+    # mask is expanded to. ('SAME' pooling alone would center the windows.)
+    height, width = weights.get_shape()
+    paddings = [[0, -height % self._block_size[0]],
+                [0, -width % self._block_size[1]]]
+
+    def pool(tensor):
+      return pruning_utils.factorized_pool(
+          tf.pad(tensor, paddings),
+          window_shape=self._block_size,
+          pooling_type=self._block_pooling_type,
+          strides=self._block_size,
+          padding='SAME')
+
+    pooled_weights = pool(abs_weights)
+    if self._block_pooling_type == 'AVG' and paddings != [[0, 0], [0, 0]]:
+      # Average over the weights of a block only, not over its padding.
+      pooled_weights /= pool(tf.ones_like(abs_weights))
 
     new_threshold, new_mask = self._update_mask(pooled_weights)
 
     updated_mask = pruning_utils.expand_tensor(new_mask, self._block_size)
     sliced_mask = tf.slice(
         updated_mask, [0, 0],
-        [weights.get_shape()[0],
-         weights.get_shape()[1]])
+        [height, width])
     return new_threshold, tf.reshape(sliced_mask, tf.shape(weights))
 
   def _weight_assign_objs(self):
-- 
2.43.0


From 2ad5e10dbc5897d60cf55aad9cfe9775ee432fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 04/27] fix: clustering wrapper dropped the training flag of
 the wrapped layer

Dropout and BatchNormalization inside a clustered model always ran in
inference mode during training.
---
 .../python/core/clustering/keras/cluster_wrapper.py         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
index 82c6346..788dfe8 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster_wrapper.py
@@ -14,6 +14,7 @@
 # ==============================================================================
 """Keras ClusterWeights wrapper API."""
 
+import inspect
 import operator
 
 import tensorflow as tf
@@ -329,6 +330,11 @@ class ClusterWeights(Wrapper):
     # Update cluster associations in order to set the latest weights
     self.update_clustered_weights_associations()
 
+    # Propagate the training flag if the wrapped layer has a distinct behavior
+    # in training mode (e.g. Dropout or BatchNormalization).
+    if 'training' in inspect.getfullargspec(self.layer.call).args:
+      kwargs['training'] = training
+
     return self.layer.call(inputs, **kwargs)
 
   def compute_output_shape(self, input_shape):
-- 
2.43.0


From 62b9315ab62e3b5a107470ce4f72a6ff1837052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 05/27] fix: per-channel clustering skipped Conv2D layers
 without bias

---
 .../python/core/clustering/keras/cluster.py                    | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
index 4535a94..c2aee0b 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/cluster.py
@@ -394,8 +394,7 @@ def layer_has_enough_weights_to_cluster(layer, number_of_clusters,
     raise ValueError(f'Layer {layer.name} has no weights to cluster.')
 
   number_of_layer_weights = tf.cast(tf.size(getattr(layer, 'kernel')), tf.int32)
-  channel_idx = 1 if layer.data_format == 'channels_first' else -1
-  number_of_channels = tf.size(layer.trainable_weights[channel_idx])
+  number_of_channels = layer.filters
 
   if cluster_per_channel:
     weights_to_cluster = number_of_layer_weights / number_of_channels
-- 
2.43.0


From d8e2456a79200396c822c7ed6d4f0759790d7728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 06/27] fix: clustered weights were negated or zeroed for
 original weights <= -1e6

---
 .../python/core/clustering/keras/clustering_algorithm.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py b/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py
index 4039d00..1f0039c 100644
--- a/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py
+++ b/tensorflow_model_optimization/python/core/clustering/keras/clustering_algorithm.py
@@ -99,7 +99,7 @@ class ClusteringAlgorithm(object):
     Returns:
       result and custom gradient, as expected by @tf.custom_gradient
     """
-    override_weights = tf.sign(original_weight + 1e+6)
+    override_weights = tf.ones_like(original_weight)
     override_clustered_weight = clustered_weight * override_weights
 
     def grad(d_override_clustered_weight):
-- 
2.43.0


From 9faae83abebbbae9304499a25c7bc1de1360a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 07/27] fix: PruneLowMagnitude config dropped the m:n sparsity
 pattern

---
 .../python/core/sparsity/keras/pruning_wrapper.py              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
index 02fa34a..e40f30c 100644
--- a/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
+++ b/tensorflow_model_optimization/python/core/sparsity/keras/pruning_wrapper.py
@@ -340,7 +340,8 @@ class PruneLowMagnitude(Wrapper):
     config = {
         'pruning_schedule': self.pruning_schedule.get_config(),
         'block_size': self.block_size,
-        'block_pooling_type': self.block_pooling_type
+        'block_pooling_type': self.block_pooling_type,
+        'sparsity_m_by_n': self.sparsity_m_by_n
     }
     return dict(list(base_config.items()) + list(config.items()))
 
-- 
2.43.0


From 9deac627afa1c4ed5db9894d792b2392a970f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 08/27] fix: FixedQuantizer ignored num_bits

---
 .../python/core/quantization/keras/quant_ops.py            | 7 +++++--
 .../python/core/quantization/keras/quantizers.py           | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
index 7a0c2f8..e0a3d35 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quant_ops.py
@@ -24,7 +24,8 @@ from tensorflow_model_optimization.python.core.keras import compat as tf_compat
 
 
 def FixedQuantize(
-    inputs, init_min=-6.0, init_max=6.0, scope=None, narrow_range=False):
+    inputs, init_min=-6.0, init_max=6.0, scope=None, narrow_range=False,
+    num_bits=8):
   """Adds a fake quantize layer with fixed quantization interval.
 
   Args:
@@ -34,6 +35,7 @@ def FixedQuantize(
     scope: Optional scope for name_scope.
     narrow_range: Whether to use the narrow quantization range
       [1; 2^num_bits - 1] or wide range [0; 2^num_bits - 1].
+    num_bits: Number of bits to use for quantization.
   Returns:
     a tensor containing quantized values.
   """
@@ -42,7 +44,8 @@ def FixedQuantize(
 
   with tf.name_scope(scope):
     return tf.quantization.fake_quant_with_min_max_args(
-        inputs, min=init_min, max=init_max, narrow_range=narrow_range)
+        inputs, min=init_min, max=init_max, num_bits=num_bits,
+        narrow_range=narrow_range)
 
 
 def AllValuesQuantize(inputs,
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
index a5a1f73..529fafb 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
@@ -413,6 +413,7 @@ class FixedQuantizer(_QuantizeHelper, Quantizer):
         self.init_min,
         self.init_max,
         narrow_range=self.narrow_range,
+        num_bits=self.num_bits,
     )
 
   def get_config(self):
-- 
2.43.0


From 88e0ab6bea6d9fccc52fea92f7b6ddfc98fa2421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 09/27] fix: MovingAverageQuantizer per-axis range variables
 were scalars

---
 .../python/core/quantization/keras/quantizers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
index 529fafb..f70a14d 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantizers.py
@@ -245,7 +245,7 @@ class MovingAverageQuantizer(_QuantizeHelper, Quantizer):
     self.narrow_range = narrow_range
 
   def build(self, tensor_shape, name, layer):
-    return self._add_range_weights(layer, name)
+    return self._add_range_weights(layer, name, self.per_axis, tensor_shape)
 
   def __call__(self, inputs, training, weights, **kwargs):
     """Quantize tensor.
-- 
2.43.0


From c25c4e5fe62131d0334aa37e674ee6e94045bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 10/27] fix: default quantize config equality ignored
 activation_attrs

---
 .../keras/default_8bit/default_8bit_quantize_registry.py        | 2 +-
 .../default_n_bit/default_n_bit_quantize_registry.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py
index 244a6c0..2fe5027 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_registry.py
@@ -366,7 +366,7 @@ class Default8BitQuantizeConfig(QuantizeConfig):
       return False
 
     return (self.weight_attrs == other.weight_attrs and
-            self.activation_attrs == self.activation_attrs and
+            self.activation_attrs == other.activation_attrs and
             self.weight_quantizer == other.weight_quantizer and
             self.activation_quantizer == other.activation_quantizer and
             self.quantize_output == other.quantize_output)
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index d33dc67..9c46c6f 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -406,7 +406,7 @@ class DefaultNBitQuantizeConfig(QuantizeConfig):
       return False
 
     return (self.weight_attrs == other.weight_attrs and
-            self.activation_attrs == self.activation_attrs and
+            self.activation_attrs == other.activation_attrs and
             self.weight_quantizer == other.weight_quantizer and
             self.activation_quantizer == other.activation_quantizer and
             self.quantize_output == other.quantize_output)
-- 
2.43.0


From ba720fb274a1016e7348ff286c86bb9f9031865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 11/27] fix: FixedQuantizeConfig.from_config modified the
 caller's config

---
 .../python/core/quantization/keras/quantize_config.py            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py
index 0711a7e..4916532 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_config.py
@@ -280,5 +280,6 @@ class FixedQuantizeConfig(QuantizeConfig):
 
   @classmethod
   def from_config(cls, config):
+    config = config.copy()
     config['config'] = quantize_utils.deserialize_keras_object(config['config'])
     return cls(**config)
-- 
2.43.0


From 1d59e0b56157b81549f7c76ee9bb908cb550e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 12/27] fix: compressing a layer without bias for inference
 raised IndexError

---
 .../python/core/common/keras/compression/internal/optimize.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index 7c916f6..f0189df 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -334,7 +334,7 @@ def _map_to_inference_weights(training_weights, algorithm, training_tensors):
       for c in compressed:
         compressed_weights.append(c.numpy())
       layer_weights_i += len(training_tensors[weight])
-    else:
+    elif layer_weights_i < len(training_weights):
       compressed_weights.append(training_weights[layer_weights_i])
       layer_weights_i += 1
   return compressed_weights
-- 
2.43.0


From 3be02943648fb20515a917c34568b0f4c5180f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 13/27] fix: random_signs returned 0 where the underlying
 uniform value is exactly 0.5

---
 .../core/internal/tensor_encoding/utils/tf_utils.py  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
index bf58eb8..7a489af 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/utils/tf_utils.py
@@ -223,6 +223,12 @@ def _cmwc_random_sequence(num_elements, seed):
   return  values
 
 
+def _to_signs(uniform, dtype):
+  """Maps values in [0, 1) to +1/-1; never to 0, also for exactly 0.5."""
+  ones = tf.ones_like(uniform)
+  return tf.cast(tf.where(uniform < 0.5, -ones, ones), dtype)
+
+
 def random_signs(num_elements, seed, dtype=tf.float32):
   """Returns a Tensor of `num_elements` random +1/-1 values as `dtype`.
 
@@ -241,8 +247,7 @@ def random_signs(num_elements, seed, dtype=tf.float32):
   Returns:
     A Tensor of `num_elements` random +1/-1 values as `dtype`.
   """
-  return tf.cast(
-      tf.sign(tf.random.stateless_uniform([num_elements], seed) - 0.5), dtype)
+  return _to_signs(tf.random.stateless_uniform([num_elements], seed), dtype)
 
 
 def random_floats(num_elements, seed, dtype=tf.float32):
@@ -271,8 +276,7 @@ def random_floats(num_elements, seed, dtype=tf.float32):
 
 def random_signs_cmwc(num_elements, seed, dtype=tf.float32):
   """Returns a Tensor of `num_elements` random +1/-1 values as `dtype`."""
-  return tf.cast(
-      tf.sign(_cmwc_random_sequence(num_elements, seed) - 0.5), dtype)
+  return _to_signs(_cmwc_random_sequence(num_elements, seed), dtype)
 
 
 def random_floats_cmwc(num_elements, seed, dtype=tf.float32):
-- 
2.43.0


From 466269e29d9637c6003a64588688460142293c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 14/27] fix: model transformer kept the config order of matched
 inputs instead of the layer's own input order

---
 .../keras/graph_transformations/model_transformer.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
index 596ff35..062dc7d 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/graph_transformations/model_transformer.py
@@ -234,6 +234,10 @@ class ModelTransformer(object):
     # connection. Ignoring those for now.
     input_layer_names = self._get_input_layer_names(layer)
     input_layers = self._get_layers(input_layer_names)
+    # `_get_layers` follows the order of the layers in the config. The inputs
+    # must stay in the order in which this layer consumes them.
+    input_layers.sort(
+        key=lambda layer_: input_layer_names.index(layer_['config']['name']))
 
     if len(input_layers) != len(pattern.inputs):
       # Number of inputs this layer takes is different from the number of
-- 
2.43.0


From f20512831483ce0a3fdb0a1a668f80e81eac96ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 15/27] fix: a new n-bit quantize registry changed the bit
 widths of earlier registries

---
 .../default_n_bit/default_n_bit_quantize_registry.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index 9c46c6f..93917f9 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -18,6 +18,7 @@ from __future__ import absolute_import
 from __future__ import division
 from __future__ import print_function
 
+import copy
 from typing import Any, Dict
 
 import tensorflow as tf
@@ -185,6 +186,8 @@ class DefaultNBitQuantizeRegistry(
     self._num_bits_activation = num_bits_activation
     self._layer_quantize_map = {}
     for quantize_info in self._LAYER_QUANTIZE_INFO:
+      # The class attribute is shared by all registries.
+      quantize_info = copy.copy(quantize_info)
       quantize_info.num_bits_weight = num_bits_weight
       quantize_info.num_bits_activation = num_bits_activation
       self._layer_quantize_map[quantize_info.layer_type] = quantize_info
-- 
2.43.0


From 4d63655b65301d68fc7ddf32195f1aecb2ace2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:02 +0000
Subject: [PATCH 16/27] fix: quantization was placed between Dense+BatchNorm
 and a following ReLU

The Dense+BatchNorm transform was applied before the Dense+BatchNorm+ReLU
ones, which then never matched.
---
 .../default_8bit/default_8bit_quantize_layout_transform.py  | 2 +-
 .../default_n_bit_quantize_layout_transform.py              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
index 70b0681..d536c26 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
@@ -65,9 +65,9 @@ class Default8BitQuantizeLayoutTransform(
         default_8bit_transforms.ConcatTransform4Inputs(),
         default_8bit_transforms.ConcatTransform3Inputs(),
         default_8bit_transforms.ConcatTransform(),
-        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.DenseBatchNormReLUQuantize(),
         default_8bit_transforms.DenseBatchNormActivationQuantize(),
+        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.LayerReLUQuantize(),
         default_8bit_transforms.LayerReluActivationQuantize(),
     ]
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
index 50089c5..0f4505e 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
@@ -119,15 +119,15 @@ class DefaultNBitQuantizeLayoutTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormQuantize(
+        default_n_bit_transforms.DenseBatchNormReLUQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormReLUQuantize(
+        default_n_bit_transforms.DenseBatchNormActivationQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormActivationQuantize(
+        default_n_bit_transforms.DenseBatchNormQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-- 
2.43.0


From eecb6e5b5fa2d26e99a8017af1d35a69591d9cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:02 +0000
Subject: [PATCH 17/27] fix: PCQAT stopped preserving sparsity after any layer
 without zeros

All layers of a class shared one weight quantizer, whose preserve_sparsity is
turned off when it is built for a layer without zero weights.
---
 .../cluster_preserve/cluster_preserve_quantize_registry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
index ff2381f..dde7390 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/collab_opts/cluster_preserve/cluster_preserve_quantize_registry.py
@@ -14,6 +14,7 @@
 # ==============================================================================
 """Registry responsible for built-in keras classes."""
 
+import copy
 import logging
 import warnings
 
@@ -267,8 +268,10 @@ class ClusterPreserveQuantizeRegistry(object):
     # Example: Conv2D, Dense layers
     if quantize_config.__class__.__name__ in self._LAYERS_CONFIG_MAP[
         layer.__class__].quantize_config_attrs:
-      quantize_config.weight_quantizer = self._config_quantizer_map[
-          quantize_config.__class__.__name__]
+      # Building the quantizer for a layer may turn off sparsity preservation,
+      # so it cannot be shared with other layers.
+      quantize_config.weight_quantizer = copy.copy(self._config_quantizer_map[
+          quantize_config.__class__.__name__])
     else:
       raise ValueError('Configuration ' +
                        str(quantize_config.__class__.__name__) +
-- 
2.43.0


From dd7c1597e2e6de16741a1d72f7b094b0b1c4cc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:05 +0000
Subject: [PATCH 18/27] fix: GatherEncoder.fully_commutes_with_sum was true
 when only part of it commutes

---
 .../python/core/internal/tensor_encoding/core/gather_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
index 38b8b2d..1ce8730 100644
--- a/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
+++ b/tensorflow_model_optimization/python/core/internal/tensor_encoding/core/gather_encoder.py
@@ -370,7 +370,7 @@ class GatherEncoder:
   @property
   def fully_commutes_with_sum(self):
     # If any element is not True, the whole thing does not fully commute.
-    return sum(tf.nest.flatten(self._commuting_structure))
+    return all(tf.nest.flatten(self._commuting_structure))
 
   @property
   def state_update_aggregation_modes(self):
-- 
2.43.0


From 9342b343d8dd57bb48ba4992498d577095c5c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 19/27] fix: BiasOnly compression failed on layers without a
 bias

---
 .../core/common/keras/compression/algorithms/bias_only.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
index 792966f..e077402 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/algorithms/bias_only.py
@@ -65,7 +65,8 @@ class BiasOnly(algorithm.WeightCompressor):
     if isinstance(original_layer, keras.layers.Conv2D) or isinstance(
         original_layer, keras.layers.Dense
     ):
-      return [original_layer.bias]
+      if original_layer.bias is not None:
+        return [original_layer.bias]
     return []
 
   def compress_model(self, to_optimize: keras.Model) -> keras.Model:
-- 
2.43.0


From a9ae9f9bba60d9697842bfabfa57461fdca1ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 20/27] fix: weight compression dropped the pretrained weights
 of layers it does not compress

---
 .../keras/compression/internal/optimize.py    | 38 +++++++++----------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index f0189df..ca49041 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -277,25 +277,23 @@ def _map_to_training_weights(
   # TODO(tfmot): see if Keras can introduce changes to simplify this.
   original_weights = []
   training_weights = []
-  if isinstance(layer, keras.layers.Conv2D) or isinstance(
-      layer, keras.layers.Dense
-  ):
-    for weight in layer.weights:
-      if _find(weight, compressible_weights):
-        algorithm.weight_reprs = []
-        algorithm.init_training_weights(weight)
-        for weight_repr in algorithm.weight_reprs:
-          # Assumes initializer is keras.initializers.Constant.
-          # TODO(tfmot): add check for this assumption.
-          # TODO(tfmot): the documentation for
-          # keras.initializers.Constant(value)
-          # suggests that the `value` cannot be any arbitrary shape and
-          # only a single scalar value. It works in this implementation
-          # to make `value` any tensor - check this.
-          training_weights.append(weight_repr.kwargs['initializer'](
-              shape=None, dtype=weight_repr.kwargs['dtype']))
-      else:
-        original_weights.append(weight)
+  # The wrapper creates its weights in the order of `compressible_weights`.
+  for weight in compressible_weights:
+    algorithm.weight_reprs = []
+    algorithm.init_training_weights(weight)
+    for weight_repr in algorithm.weight_reprs:
+      # Assumes initializer is keras.initializers.Constant.
+      # TODO(tfmot): add check for this assumption.
+      # TODO(tfmot): the documentation for
+      # keras.initializers.Constant(value)
+      # suggests that the `value` cannot be any arbitrary shape and
+      # only a single scalar value. It works in this implementation
+      # to make `value` any tensor - check this.
+      training_weights.append(weight_repr.kwargs['initializer'](
+          shape=None, dtype=weight_repr.kwargs['dtype']))
+  for weight in layer.weights:
+    if not _find(weight, compressible_weights):
+      original_weights.append(weight)
 
   return training_weights + original_weights
 
@@ -401,7 +399,7 @@ def create_layer_for_training(layer, algorithm):
       algorithm,
       compressible_weights_name)
 
-  if compressible_weights:
+  if layer.weights:
     # Set pretrained weight values.
     wrapped_layer.build(input_shape)
     # Clear `_build_input_shape` so that `build()` is not immediately called
-- 
2.43.0


From de4c168afc9e5579ca4d5dba7037dfa0035f4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:25 +0000
Subject: [PATCH 21/27] fix: inference weights were misordered when the bias is
 compressed

---
 .../keras/compression/internal/optimize.py    | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
index ca49041..73bf4a2 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/internal/optimize.py
@@ -322,19 +322,16 @@ def _map_to_inference_weights(training_weights, algorithm, training_tensors):
       [kernel_var1, kernel_var2]), bias]
   """
 
+  # Both wrappers create the weights of the algorithm before the remaining
+  # weights of the layer.
   compressed_weights = []
-  weights = ['kernel', 'bias']
   layer_weights_i = 0
-  for weight in weights:
-    if weight in training_tensors:
-      compressed = algorithm.compress_training_weights(
-          *training_tensors[weight])
-      for c in compressed:
-        compressed_weights.append(c.numpy())
-      layer_weights_i += len(training_tensors[weight])
-    elif layer_weights_i < len(training_weights):
-      compressed_weights.append(training_weights[layer_weights_i])
-      layer_weights_i += 1
+  for tensors in training_tensors.values():
+    compressed = algorithm.compress_training_weights(*tensors)
+    for c in compressed:
+      compressed_weights.append(c.numpy())
+    layer_weights_i += len(tensors)
+  compressed_weights.extend(training_weights[layer_weights_i:])
   return compressed_weights
 
 
-- 
2.43.0


From 982e898aff3cbf5eab7f422c36901d7f3c3dedac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:34 +0000
Subject: [PATCH 22/27] fix: compression PolynomialDecay failed inside the
 window unless the values had the schedule's dtype

---
 .../python/core/common/keras/compression/schedules.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py b/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py
index 6043af6..9a07dde 100644
--- a/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py
+++ b/tensorflow_model_optimization/python/core/common/keras/compression/schedules.py
@@ -115,7 +115,7 @@ class PolynomialDecay(Scheduler):
       decay_term = tf.math.divide(local_steps,
                                   tf.cast(self.decay_steps, dtype=tf.float32))
       total_delta = tf.cast(self.start_value - self.end_value, dtype=tf.float32)
-      target = tf.math.add(self.end_value, tf.cast(
+      target = tf.math.add(tf.cast(self.end_value, dtype=self.dtype), tf.cast(
           tf.math.multiply(total_delta, tf.pow(1 - decay_term, self.exponent)),
           dtype=self.dtype))
       val = tf.stop_gradient(target)
-- 
2.43.0


From 5759ffda4329a853d895b0993ec153b275c8a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:55 +0000
Subject: [PATCH 23/27] fix: Dense-BatchNorm patterns before a Concatenate kept
 quantization between Dense and BatchNorm

---
 .../default_8bit_quantize_layout_transform.py |  6 +++---
 ...default_n_bit_quantize_layout_transform.py | 20 +++++++++----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
index d536c26..f4281f9 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_quantize_layout_transform.py
@@ -60,14 +60,14 @@ class Default8BitQuantizeLayoutTransform(
         default_8bit_transforms.Conv2DBatchNormActivationQuantize(),
         default_8bit_transforms.Conv2DReshapeBatchNormQuantize(),
         default_8bit_transforms.Conv2DBatchNormQuantize(),
+        default_8bit_transforms.DenseBatchNormReLUQuantize(),
+        default_8bit_transforms.DenseBatchNormActivationQuantize(),
+        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.ConcatTransform6Inputs(),
         default_8bit_transforms.ConcatTransform5Inputs(),
         default_8bit_transforms.ConcatTransform4Inputs(),
         default_8bit_transforms.ConcatTransform3Inputs(),
         default_8bit_transforms.ConcatTransform(),
-        default_8bit_transforms.DenseBatchNormReLUQuantize(),
-        default_8bit_transforms.DenseBatchNormActivationQuantize(),
-        default_8bit_transforms.DenseBatchNormQuantize(),
         default_8bit_transforms.LayerReLUQuantize(),
         default_8bit_transforms.LayerReluActivationQuantize(),
     ]
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
index 0f4505e..8d388d0 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_layout_transform.py
@@ -91,43 +91,43 @@ class DefaultNBitQuantizeLayoutTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform6Inputs(
+        default_n_bit_transforms.DenseBatchNormReLUQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform5Inputs(
+        default_n_bit_transforms.DenseBatchNormActivationQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform4Inputs(
+        default_n_bit_transforms.DenseBatchNormQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform3Inputs(
+        default_n_bit_transforms.ConcatTransform6Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.ConcatTransform(
+        default_n_bit_transforms.ConcatTransform5Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.LayerReLUQuantize(
+        default_n_bit_transforms.ConcatTransform4Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.LayerReluActivationQuantize(
+        default_n_bit_transforms.ConcatTransform3Inputs(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormReLUQuantize(
+        default_n_bit_transforms.ConcatTransform(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormActivationQuantize(
+        default_n_bit_transforms.LayerReLUQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-        default_n_bit_transforms.DenseBatchNormQuantize(
+        default_n_bit_transforms.LayerReluActivationQuantize(
             num_bits_weight=self._num_bits_weight,
             num_bits_activation=self._num_bits_activation,
         ),
-- 
2.43.0


From 691f76979ac851056dd1418e2830f6c5f98ec9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:55 +0000
Subject: [PATCH 24/27] fix: n-bit layout transform quantised the inputs of a
 Concatenate twice

---
 .../default_n_bit/default_n_bit_transforms.py            | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 0aa6629..8dc202f 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -697,6 +697,8 @@ class ConcatTransform(transforms.Transform):
         'Concatenate', inputs=[LayerPattern('.*'), LayerPattern('.*')])
 
   def _get_layer_type(self, layer_class_name):
+    if layer_class_name == 'QuantizeLayer':
+      return quantize_layer.QuantizeLayer
     keras_layers = inspect.getmembers(keras.layers, inspect.isclass)
     for layer_name, layer_type in keras_layers:
       if layer_name == layer_class_name:
@@ -706,6 +708,9 @@ class ConcatTransform(transforms.Transform):
   def _disable_output_quantize(self, quantize_config):
     # TODO(pulkitb): Disabling quantize_config may also require handling
     # activation quantizers. Handle that properly.
+    if hasattr(quantize_config, 'quantize_output'):
+      quantize_config.quantize_output = False
+
     quantize_config.get_output_quantizers = lambda layer: []
 
   def replacement(self, match_layer):
@@ -732,6 +737,10 @@ class ConcatTransform(transforms.Transform):
               configs.NoOpQuantizeConfig())
           continue
 
+        if layer_class == quantize_layer.QuantizeLayer:
+          feed_layer_node.metadata['quantizer'] = None
+          continue
+
         if not default_registry._is_supported_layer(layer_class):
           # Feeding layer is not supported by registry
           return match_layer
-- 
2.43.0


From 8b07c3efa0a9c91fe8be40a5ff6af19626eca1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:55 +0000
Subject: [PATCH 25/27] fix: ReLU layout transform overwrote a custom
 QuantizeConfig of the feeding layer

---
 .../quantization/keras/default_8bit/default_8bit_transforms.py | 3 +++
 .../experimental/default_n_bit/default_n_bit_transforms.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
index bda38f6..e896806 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/default_8bit/default_8bit_transforms.py
@@ -579,6 +579,9 @@ class LayerReLUQuantize(transforms.Transform):
     relu_layer_node = match_layer
     add_layer_node = relu_layer_node.input_layers[0]
 
+    if _has_custom_quantize_config(add_layer_node):
+      return match_layer
+
     add_layer_node.metadata['quantize_config'] = (
         default_8bit_quantize_configs.NoOpQuantizeConfig())
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
index 8dc202f..a912856 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_transforms.py
@@ -616,6 +616,9 @@ class LayerReLUQuantize(transforms.Transform):
     relu_layer_node = match_layer
     add_layer_node = relu_layer_node.input_layers[0]
 
+    if _has_custom_quantize_config(add_layer_node):
+      return match_layer
+
     add_layer_node.metadata['quantize_config'] = (
         configs.NoOpQuantizeConfig())
 
-- 
2.43.0


From 75ac8e6f3d712bdc9b2453861922a5c69f0b2040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:18 +0000
Subject: [PATCH 26/27] fix: n-bit output quantization disabled before a
 Concatenate came back when a model was reloaded

---
 .../default_n_bit/default_n_bit_quantize_configs.py       | 8 +++++++-
 .../default_n_bit/default_n_bit_quantize_registry.py      | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
index 66bc47e..8f6bfba 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_configs.py
@@ -22,9 +22,11 @@ from tensorflow_model_optimization.python.core.quantization.keras import quantiz
 class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
   """QuantizeConfig which only quantizes the output from a layer."""
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               quantize_output: bool = True):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self.quantize_output = quantize_output
 
   def get_weights_and_quantizers(self, layer):
     return []
@@ -39,6 +41,9 @@ class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
     pass
 
   def get_output_quantizers(self, layer):
+    if not self.quantize_output:
+      return []
+
     return [quantizers.MovingAverageQuantizer(
         num_bits=self._num_bits_activation, per_axis=False,
         symmetric=False, narrow_range=False)]  # activation/output
@@ -47,6 +52,7 @@ class DefaultNBitOutputQuantizeConfig(quantize_config.QuantizeConfig):
     return {
         'num_bits_weight': self._num_bits_weight,
         'num_bits_activation': self._num_bits_activation,
+        'quantize_output': self.quantize_output,
     }
 
 
diff --git a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
index 93917f9..95ebd2f 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/experimental/default_n_bit/default_n_bit_quantize_registry.py
@@ -493,9 +493,11 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
   decision to quantize depends on the specific activation type.
   """
 
-  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8):
+  def __init__(self, num_bits_weight: int = 8, num_bits_activation: int = 8,
+               quantize_output: bool = True):
     self._num_bits_weight = num_bits_weight
     self._num_bits_activation = num_bits_activation
+    self.quantize_output = quantize_output
 
   def _assert_activation_layer(self, layer):
     if not isinstance(layer, layers.Activation):
@@ -519,6 +521,8 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
 
   def get_output_quantizers(self, layer):
     self._assert_activation_layer(layer)
+    if not self.quantize_output:
+      return []
 
     if not hasattr(layer.activation, '__name__'):
       raise ValueError('Activation {} not supported by '
@@ -542,6 +546,7 @@ class DefaultNBitActivationQuantizeConfig(QuantizeConfig):
     return {
         'num_bits_weight': self._num_bits_weight,
         'num_bits_activation': self._num_bits_activation,
+        'quantize_output': self.quantize_output,
     }
 
 
-- 
2.43.0


From 24d240c136dba28230f8a4b4a89fac4d25791585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:49 +0000
Subject: [PATCH 27/27] fix: QuantizeWrapper computes the output shape of the
 given input shape

---
 .../python/core/quantization/keras/quantize_wrapper.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
index 32a6e2d..0ea3aa2 100644
--- a/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
+++ b/tensorflow_model_optimization/python/core/quantization/keras/quantize_wrapper.py
@@ -135,7 +135,7 @@ class QuantizeWrapper(keras.layers.Wrapper):
           self.layer.compute_output_shape(input_shape), 'output', self)
 
   def compute_output_shape(self, input_shape):
-    return self.layer.compute_output_shape(self.layer.input_shape)
+    return self.layer.compute_output_shape(input_shape)
 
   def _make_quantizer_fn(self, quantizer, x, training, quantizer_vars):
     """Use currying to return True/False specialized fns to the cond."""
-- 
2.43.0

